"""C09: authorization responses carry exactly what was asked, where it was asked."""
import hashlib
from urllib.parse import parse_qsl

from hypothesis import strategies as st

from pbt import hist, ops
from pbt.runner import Sub, check
from oidcop.exception import NoSuchAuthentication

RULE = ("a case is a sequence of authorization requests by several users at several clients, with response types, response "
        "modes, states, redirect URIs and client ids of arbitrary characters, some of which must be refused; non-trivial "
        "when a value needed escaping in the produced URL or form, more than one credential was delivered, or a refusal "
        "was demanded")

RTS = ["code", "token", "id_token", "code token", "code id_token", "id_token token", "code id_token token", "none",
       "id_token code", "token code id_token", "foo", "code foo"]
MODES = [None, None, None, "query", "fragment", "form_post", "form_post", "web_message", "QUERY"]
NASTY = ['"', "'", "<", ">", "&", "&amp;", "#", "?", "=", "+", "%", "%20", " ", "/", "\\", "\n", "\t", "é", "漢", "😀", "\u2028",
         '"/><script>', "&#34;", "a", "b", "1", "{", "}", "{0}", ";", ";;", "\u00a0"]


def nasty(mx=8):
    return st.one_of(st.sampled_from(["STATE", "abc", ""]),
                     st.lists(st.sampled_from(NASTY), min_size=1, max_size=mx).map("".join),
                     st.text(st.characters(blacklist_categories=["Cs"]), max_size=12))


def cases():
    req = st.fixed_dictionaries({
        "c": st.integers(0, 2), "u": st.integers(0, 1), "rt": st.sampled_from(RTS), "rm": st.sampled_from(MODES),
        "state": nasty(), "nonce": nasty(3).map(lambda s: s or "n"), "ri": st.integers(0, 1),
        "scope": st.lists(st.sampled_from(["profile", "email", "offline_access"]), max_size=2, unique=True),
        "fail": st.sampled_from([None, None, None, None, "none"]), "cookie": st.booleans(), "form": st.booleans()})
    return st.fixed_dictionaries({
        "flavour": st.sampled_from(["oidc", "oidc", "oidc", "oauth2"]),
        "session": st.booleans(), "token_format": st.sampled_from(["jwt", "default"]),
        "cids": st.lists(st.one_of(st.none(), st.lists(st.sampled_from(NASTY), min_size=1, max_size=4).map("".join)
                                   .filter(lambda s: ";;" not in s and s.strip() == s and "\n" not in s)), min_size=3, max_size=3),
        "rts": st.lists(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(RTS), min_size=1, max_size=4)),
                        min_size=3, max_size=3),
        "ruq": st.lists(st.sampled_from([{}, {"foo": ["bar"]}, {"a": ['x"y<z>&', "2"]}, {"u": ["å ä"]}]), min_size=3, max_size=3),
        "ops": hist.sized_lists(req, 1, 5)})


CREDS = ["code", "access_token", "id_token"]


def deliver(op, out, ruri, rec):
    """-> (place, args) as the client sees them"""
    h = out.http
    check(h is not None and isinstance(h.get("response"), str), lambda: f"nothing to deliver: {out!r}")
    text = h["response"]
    if out.raw and out.raw.get("response_msg"):
        check(dict(h["http_headers"]).get("Content-type", "").startswith("text/html"), "a form that is not text/html")
        f = ops.parse_form(text)
        check(f.forms == 1 and (f.method or "").lower() == "post", "not exactly one POST form")
        check(f.tags.count("script") == 0 and set(f.tags) <= {"html", "head", "title", "body", "form", "input"},
              lambda: f"the form contains foreign elements: {f.tags}")
        check(f.action == ruri, lambda: f"form action {f.action!r}, redirect URI {ruri!r}")
        names = [n for n, _ in f.fields]
        check(len(names) == len(set(names)), "a form field appears twice")
        return "form", dict(f.fields)
    if "#" in text:
        base, _, frag = text.partition("#")
        check(base == ruri, lambda: f"fragment response to {base!r}, redirect URI {ruri!r}")
        items = parse_qsl(frag, keep_blank_values=True, strict_parsing=bool(frag))
        place = "fragment"
    else:
        sep = "&" if "?" in ruri else "?"
        check(text.startswith(ruri + sep), lambda: f"query response to {text[:200]!r}, redirect URI {ruri!r}")
        items = parse_qsl(text[len(ruri) + 1:], keep_blank_values=True, strict_parsing=True)
        place = "query"
    names = [n for n, _ in items]
    check(len(names) == len(set(names)), lambda: f"a parameter appears twice: {names}")
    return place, dict(items)


def run(case, rec):
    oidc = case["flavour"] == "oidc"
    conf = ops.base_conf(flavour=case["flavour"], token_format=case["token_format"])
    if oidc and case["session"]:
        conf["endpoint"]["session"]["kwargs"]["check_session_iframe"] = "https://op.example.com/check_session"
    clients = []
    for i in range(3):
        kw = {"redirect_uris": [(f"https://rp{i}.example.com/cb", case["ruq"][i]), (f"https://rp{i}.example.com{':8443' if case['session'] else ''}/other", {})]}
        if case["cids"][i]:
            kw["client_id"] = f"{i}{case['cids'][i]}"
        if case["rts"][i] is not None:
            kw["response_types"] = case["rts"][i]
        clients.append(ops.client_conf(i, **kw))
    op = ops.OP(conf=conf, clients=clients, flavour=case["flavour"])
    seen, cookies = set(), {}
    for o in case["ops"]:
        c = clients[o["c"]]
        user = hist.USERS[o["u"]]
        rt = o["rt"]
        rts = set(rt.split())
        ruri = ops.join_uri(c["redirect_uris"][o["ri"]])
        kw = {"response_mode": o["rm"]} if o["rm"] is not None else {}
        req = ops.auth_request(c, response_type=rt, state=o["state"], nonce=o["nonce"], redirect_uri=ruri,
                               scope=["openid"] + [x for x in o["scope"] if not (o["fail"] and x == "offline_access")], **kw)
        meth = op.ctx.authn_broker.db["anon"]["method"]
        if o["fail"]:
            req["prompt"] = "none"
            meth.fail = NoSuchAuthentication
        ops.set_user(op, user)
        hi = {"headers": {}}
        if o["cookie"] and (o["c"], o["u"]) in cookies:
            hi["cookie"] = cookies[(o["c"], o["u"])]
        payload = req
        if o["form"]:
            from urllib.parse import urlencode
            payload = urlencode(req)
        out = op.call("authorization", payload, hi)
        meth.fail = None
        allowed = any(rts == set(r.split()) for r in (case["rts"][o["c"]] if case["rts"][o["c"]] is not None
                                                      else ops.ALL_RESPONSE_TYPES))
        known = rts <= {"code", "token", "id_token"} or rts == {"none"}
        if not oidc and "id_token" in rts:
            known = None
        only_code = rts == {"code"}
        noframe = only_code or rts == {"none"}
        mode = o["rm"]
        if mode in (None,):
            want = "query" if noframe else "fragment"
        elif mode == "form_post":
            want = "form"
        elif mode == "query" and noframe:
            want = "query"
        elif mode == "fragment":
            want = "fragment" if not noframe else None     # may be refused
        elif mode == "query":
            want = False
        else:
            want = False
        must_refuse = not allowed or known is False or want is False or (o["fail"] and True)
        got = None
        if out.http is not None and (out.ok or out.raw.get("return_uri") or out.raw.get("response_msg")):
            place, got = deliver(op, out, ruri, rec)
        elif not out.ok and out.stage == "process" and out.raw and ("return_uri" in out.raw or "response_msg" in out.raw):
            # an error the web layer passes on to the client
            a = dict(out.raw)
            try:
                out.http = op.ep("authorization").do_response(request=out.req, **a)
            except Exception as e:
                check(False, f"the error response can not be made: {type(e).__name__}: {e}")
            place, got = deliver(op, out, ruri, rec)
        if must_refuse:
            rec.nontrivial()
            check(not out.ok, lambda: f"{rt!r}/{mode!r} accepted (allowed={allowed} known={known} want={want}): {out!r}")
            creds = [k for k in CREDS if (got and k in got) or (isinstance(out.args, dict) and k in out.args)]
            check(not creds, lambda: f"an error response carries {creds}")
            if o["fail"] and allowed and known and (want or mode is None):
                check(out.error == "login_required", lambda: f"prompt=none without login: {out!r}")
                check(got is not None, "login_required is not delivered to the client")
            if got is not None:
                check("error" in got, lambda: f"error response without error: {got}")
                check(got.get("state", "") == o["state"], lambda: f"error with state {got.get('state')!r}, request had {o['state']!r}")
                if rts != {"none"} and (mode in (None, "form_post") or want):
                    check(place == (want or place), lambda: f"error delivered in {place}, want {want}")
                rec.label("error:" + place)
            else:
                a = out.args
                if a is not None and "state" in a:
                    check(a["state"] == o["state"], "error with another state")
                rec.label("refused:" + str(out.error))
            continue
        if want is None and not out.ok:
            check(got is None or not any(k in got for k in CREDS), "an error response carries credentials")
            rec.label("fragment-refused")
            continue
        if known is None and not out.ok:
            rec.label("oauth2-id_token-refused")
            continue
        check(out.ok, lambda: f"request for {rt!r} with mode {mode!r} refused: {out!r}")
        check(got is not None, "nothing delivered")
        check(place == (want or place), lambda: f"{rt!r}/{mode!r} delivered in {place}, want {want}")
        expected = {"code": "code" in rts, "access_token": "token" in rts, "id_token": "id_token" in rts}
        have = {k: k in got for k in CREDS}
        check(have == expected, lambda: f"{rt!r}: delivered {have}")
        check("error" not in got, "success with error")
        check(got.get("state", "") == o["state"], lambda: f"state {got.get('state')!r} delivered, request had {o['state']!r}")
        check(got.get("iss") == op.ctx.issuer, lambda: f"iss {got.get('iss')!r}")
        check(got.get("client_id") == c["client_id"], lambda: f"client_id {got.get('client_id')!r}, is {c['client_id']!r}")
        if "token" in rts:
            check(got.get("token_type", "").lower() == "bearer", "no token type")
        if case["session"] and oidc:
            check(got.get("session_state"), "no session state although session management is configured")
            # as the example in OpenID Connect Session Management has it
            browser = ops.find_cookies(out, "sman")
            check(len(browser) == 1, lambda: f"{len(browser)} cookies with the state of the browser")
            salt = got["session_state"].partition(".")[2]
            text = " ".join([c["client_id"], "/".join(ruri.split("/")[:3]), browser[0]["value"], salt])
            check(got["session_state"] == hashlib.sha256(text.encode()).hexdigest() + "." + salt, "the session state is not that of the client, its origin and the browser's state")
        if "scope" in got:
            sc = got["scope"]
            check(set(sc.split()) <= set(req["scope"].split()), lambda: f"scope {sc!r} delivered")
        sids = set()
        for k in ("code", "access_token"):
            if k in got:
                check(got[k] not in seen, f"{k} delivered before")
                seen.add(got[k])
                info = op.mngr.get_session_info_by_token(got[k], grant=True)
                check(info["user_id"] == user and info["client_id"] == c["client_id"],
                      lambda: f"{k} belongs to {info['user_id']}/{info['client_id']}, request was by {user}/{c['client_id']}")
                tok = info["grant"].get_token(got[k])
                check(tok is not None and tok.token_class == {"code": "authorization_code"}.get(k, k), "wrong kind of token")
                sids.add(op.mngr.encrypted_session_id and tuple(op.mngr.decrypt_session_id(info["session_id"])))
                sub = info["grant"].sub
                if "id_token" in got:
                    check(ops.jwt_payload(got["id_token"])["sub"] == sub, "ID token for another subject")
        check(len(sids) <= 1, "credentials of different sessions in one response")
        if "id_token" in got and oidc:
            p = ops.jwt_payload(got["id_token"])
            check(c["client_id"] in p["aud"], "ID token for another client")
            check(p.get("nonce") == o["nonce"], "ID token with another nonce")
        extra = set(got) - {"state", "scope", "code", "access_token", "token_type", "expires_in", "id_token", "iss", "client_id",
                            "session_state"}
        check(not extra, lambda: f"unexpected parameters {extra}")
        if out.raw:
            ck = ops.find_cookies(out, "oidc_op")
            if ck:
                cookies[(o["c"], o["u"])] = ck
        rec.label("ok:" + place)
        if sum(expected.values()) > 1 or any(ch in o["state"] for ch in "\"'<>&#?+%\n") or case["cids"][o["c"]]:
            rec.nontrivial()


SUBS = [Sub("responses", cases, run, quick=1600)]
