"""C24: authentication freshness and prompts are respected."""
import base64
import copy
import json
import os
import re

from hypothesis import strategies as st

from pbt import hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

from oidcmsg.oidc import AuthorizationRequest
from oidcop.exception import FailedAuthentication

RULE = ("a case draws one to four login methods with classes and lifetimes, users with arbitrary names, and a history of authorization requests (prompt, max_age, acr, login hints, id_token_hint) "
        "by two browsers at three clients, with logins, wrong passwords, revocations, removed sessions, restarts of the server and clock moves; non-trivial when a login was reused, or refused although a session cookie was presented")

ACRS = ["urn:acr:pw", "urn:acr:pw", "urn:acr:otp", "urn:acr:hw", "0", "urn:oasis:names:tc:SAML:2.0:ac:classes:InternetProtocolPassword"]
TEMPLATES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pbt", "templates")


def b64(x):
    return base64.b64encode(json.dumps(x).encode()).decode()


def cases():
    fx = st.fixed_dictionaries
    method = fx({"acr": st.integers(0, len(ACRS) - 1), "exp": st.sampled_from([0, 0, 0, 60, 600, 7200])})
    name = st.one_of(st.sampled_from(["alice", "bob", "ali", "alice2", "Alice", "@0", "@1", "@list", "@text", "a;;b", "alice;;client_0", "client_0", "bob%3B", "YWxpY2U=", "12345", "x y", "é"]), st.text(min_size=1, max_size=6))
    req = fx({"op": st.just("req"), "b": st.sampled_from([0, 0, 0, 1]), "c": st.sampled_from([0, 0, 0, 0, 1, 2]), "t": st.sampled_from([0, 1, 30, 59, 60, 61, 599, 1000, 3599, 3601]),
              "prompt": st.sampled_from(["-"] * 6 + ["login", "none", "none", "none", "consent", "select_account", "login consent", "consent login", "select_account login"]),
              "extra": st.sampled_from([None] * 6 + ["upm_answer", "upm_answer", "username", "authn", "fresh"]), "max_age": st.sampled_from(["-"] * 4 + [0, 1, 60, 600, 3600, 100000]),
              "hint": st.sampled_from(["-"] * 6 + ["mail0", "mail1", "mail2", "tel0", "tel1", "tel intl0", "mail unknown", "other"]),
              "idt": st.sampled_from(["-"] * 4 + [0, 1, 2, 3]),
              "acr": st.sampled_from(["-"] * 4 + ["values", "values", "claim value", "claim values", "claim null", "claim essential", "claim other"]),
              "acrs": st.lists(st.integers(0, len(ACRS)), min_size=1, max_size=3), "rt": st.sampled_from(["code", "code", "id_token", "code id_token"]),
              "same": st.booleans(), "again": st.sampled_from([False, False, True]), "edge": st.sampled_from(["-"] * 5 + [-1, 1, 10]), "login": st.sampled_from(["ok"] * 8 + ["wrong", "tampered", "leave", "foreign"]), "u": st.integers(0, 2), "wait": st.sampled_from([0, 0, 5, 100]),
              "how": st.sampled_from(["plain", "plain", "plain", "object"])})
    op = st.one_of(req, req, req, req, req, fx({"op": st.just("revoke"), "b": st.integers(0, 1), "what": st.sampled_from(["grant", "client", "remove", "remove", "restart"])}))
    return fx({"methods": st.lists(method, min_size=1, max_size=4), "users": st.lists(name, min_size=3, max_size=3, unique=True), "mails": st.sampled_from([None, None, "ends", "starts"]), "lookup": st.booleans(),
               "shared": st.booleans(), "skey": st.booleans(), "subject": st.sampled_from(["public", "public", "pairwise", "ephemeral"]), "ops": hist.sized_lists(op, 4, 16)})


class Sess:
    pass


def run(case, rec):
    names = []
    for i, n in enumerate(case["users"]):
        prev = names[0] if names else "alice"
        n = {"@0": b64({"uid": prev}), "@1": b64({"uid": prev, "sid": "x"}), "@list": b64([prev]), "@text": b64(prev)}.get(n, n)
        while n in names:
            n += "x"
        names.append(n)
    pw = {n: f"pw{i}" for i, n in enumerate(names)}
    methods = {f"m{i}": ACRS[m["acr"]] for i, m in enumerate(case["methods"])}
    authn = {}
    for i, m in enumerate(case["methods"]):
        kw = {"verify_endpoint": f"verify/m{i}", "template": "user_pass.jinja2", "db": {"class": "builtins.dict", "kwargs": dict(pw)}}
        if m["exp"]:
            kw["expires_in"] = m["exp"]
        authn[f"m{i}"] = {"acr": methods[f"m{i}"], "class": "oidcop.user_authn.user.UserPassJinja2", "kwargs": kw}
    conf = ops.base_conf(authn=authn)
    conf["template_dir"] = TEMPLATES
    if case["lookup"]:
        conf["login_hint_lookup"] = {"class": "oidcop.login_hint.LoginHintLookup", "kwargs": {}}
    conf["capabilities"]["request_parameter_supported"] = True
    sub_type = case["subject"]
    clients = [ops.client_conf(i, _keys=f"client{i}", **({"subject_type": sub_type} if sub_type != "public" else {}),
                               **({"redirect_uris": [("https://rp.example.com/cb", {})]} if case["shared"] else {})) for i in range(3)]
    if case["skey"]:
        conf["session_params"].pop("password")      # a key of its own for each server that is started

    # addresses may be part of one another
    mails = {"ends": ["xxu@example.com", "xu@example.com", "u@example.com"], "starts": ["u@example.com", "u@example.com.x", "u@example.com.xx"]}.get(case["mails"], [f"u{i}@example.com" for i in range(3)])
    phones = {"ends": ["900000", "90000", "9000"], "starts": ["9000", "90000", "900000"]}.get(case["mails"], [f"9000000{i}" for i in range(3)])

    def start():
        srv = ops.OP(copy.deepcopy(conf), clients=copy.deepcopy(clients))
        srv.ctx.userinfo.db = {n: {"email": mails[i], "phone_number": "+46" + phones[i]} for i, n in enumerate(names)}
        return srv, srv.ep("authorization")

    op, ep = start()
    gone = set()
    jars = [{}, {}]        # browser -> client -> (cookie, Sess)
    prev = [None, None]
    last = [None, None]    # the cookie a browser really has: the last one it got
    idts = []
    logged_out = set()
    seen = set()
    count = [0]

    def state(s):
        return None if s is None else (s.revoked, CLOCK.now - s.time)

    def settle(o, args, expect, b, c, req, fresh):
        """Look at the result of a request that was answered with success."""
        ra = args["response_args"]
        sid = args["session_id"]
        user, cid, _ = op.mngr.decrypt_session_id(sid)
        ev = op.mngr.get_authentication_event(session_id=sid)
        check((user, cid) == (names[expect.u], clients[c]["client_id"]), lambda: f"session is for {user} at {cid}, the login is by {names[expect.u]}")
        check(ev["uid"] == user, lambda: f"authentication event of {ev['uid']} in a session of {user}")
        check(ev["authn_info"] == expect.acr, lambda: f"the session records class {ev['authn_info']}, the user logged in with {expect.acr}")
        check(ev["authn_time"] == expect.time, lambda: f"the session records authentication at {ev['authn_time']}, it was at {expect.time}")
        check(ev["valid_until"] == expect.until, lambda: f"valid until {ev['valid_until']}, should be {expect.until} (now {CLOCK.now})")
        s = Sess()
        s.__dict__.update(expect.__dict__)
        s.sid = sid
        ck = [x for x in args["cookie"] if x["name"] == "oidc_op"]
        check(len(ck) == 1, "no session cookie")
        last[b] = (dict(ck[0]), s, c)
        idt = ra.get("id_token")
        if "code" in ra and o["rt"] == "code":
            x = ops.exchange(op, clients[c], ra["code"])
            check(x.ok, lambda: f"exchange: {x!r}")
            idt = x.args["id_token"]
        if idt:
            p = ops.jwt_payload(idt)
            check(p.get("auth_time", expect.time) == expect.time, lambda: f"auth_time {p['auth_time']}, login was at {expect.time}")
            check(p.get("acr", expect.acr) == expect.acr, lambda: f"acr {p['acr']}, login was with {expect.acr}")
            if o["acr"].startswith("claim") and o["acr"] != "claim other":
                check(p.get("acr") == expect.acr, lambda: f"acr {p.get('acr')} but it was asked for, login was with {expect.acr}")
            idts.append((idt, c, expect.u, p["sub"]))

    def request(o):
        CLOCK.advance(o["t"])
        b = o["b"]
        if o["edge"] != "-" and last[b] and last[b][1].until + o["edge"] > CLOCK.now:
            # just before or after the login the browser has expires
            CLOCK.now = last[b][1].until + o["edge"]
        if o["again"] and prev[b]:
            # the very same request again
            o = dict(prev[b], **{k: o[k] for k in ("login", "u", "wait")}, same=True)
        elif not o["same"]:
            count[0] += 1
        n = o.get("n", count[0])
        prev[b] = dict(o, n=n)
        c = o["c"]
        cl = clients[c]
        req = ops.auth_request(cl, response_type=o["rt"], scope=["openid"], state=f"state{n}", nonce=f"nonce{n}")
        asked = []
        pool = [ACRS[i] if i < len(ACRS) else "urn:acr:none" for i in o["acrs"]]
        if o["acr"] == "values":
            asked = pool
            req["acr_values"] = " ".join(pool)
        elif o["acr"].startswith("claim"):
            k = o["acr"][6:]
            v = {"value": {"value": pool[0]}, "values": {"values": pool}, "null": None, "essential": {"essential": True}, "other": None}[k]
            asked = {"value": pool[:1], "values": pool}.get(k, [])
            req["claims"] = json.dumps({"id_token": {"nickname": None, **({} if k == "other" else {"acr": v})}})
        if o["prompt"] != "-":
            req["prompt"] = o["prompt"]
        if o["max_age"] != "-":
            req["max_age"] = str(o["max_age"])
        if o["extra"]:  # a parameter nobody has defined changes nothing
            req[o["extra"]] = "diana" if o["extra"] == "username" else "true"
        hint_user = "-"
        if o["hint"] != "-":
            i = o["hint"][-1]
            j = int(i) if i.isdigit() else 0
            req["login_hint"] = {"mail": f"mail:{mails[j]}", "tel": f"tel:0{phones[j]}", "tel intl": f"tel:+46{phones[j]}", "mail unknow": "mail:nobody@example.com",
                                 "othe": "urn:x"}[o["hint"][:-1]]
            if case["lookup"]:
                hint_user = int(i) if i.isdigit() else None
        idt = None
        mine = [x for x in idts if x[1] == c]
        if o["idt"] != "-" and mine:
            idt = mine[o["idt"] % len(mine)]
            req["id_token_hint"] = idt[0]
        if o["how"] == "object":
            from cryptojwt.jws.jws import JWS
            d = dict(req)
            if "max_age" in d:
                d["max_age"] = int(d["max_age"])
            if "claims" in d:
                d["claims"] = json.loads(d["claims"])
            d["iss"], d["aud"] = cl["client_id"], [ops.ISSUER]
            j = JWS(json.dumps(d), alg="RS256").sign_compact(ops.keyjar(f"client{c}").get_signing_key("RSA", issuer_id=""))
            req = {k: req[k] for k in ("client_id", "response_type", "scope", "redirect_uri", "state", "nonce") if k in req}
            req["request"] = j
        s, info = None, {"headers": {}}
        if last[b]:
            info["cookie"] = [{"name": last[b][0]["name"], "value": last[b][0]["value"]}]
            if last[b][2] == c:
                s = last[b][1]
        out = op.call("authorization", req, info)
        # what should happen
        border = s is not None and CLOCK.now == s.until
        too_old = s is not None and o["max_age"] != "-" and CLOCK.now - s.time > o["max_age"]
        hint_other = s is not None and hint_user != "-" and hint_user != s.u
        idt_other = s is not None and idt is not None and idt[2] != s.u and sub_type != "ephemeral"
        reusable = s is not None and not s.revoked and CLOCK.now <= s.until and not too_old and not hint_other and not idt_other and "login" not in o["prompt"]
        why = f"prompt {o['prompt']}, max_age {o['max_age']}, session {state(s)}, valid {s and s.until - CLOCK.now} s more, hint {hint_user}, id_token_hint {idt and idt[2]}, session user {s and s.u}"
        # things that may lead to a login although the old one could do
        open_ = border or hint_user is None or o["prompt"] in ("consent", "select_account") or (s is not None and (s.u, c) in logged_out) or \
            (asked and s is not None and s.acr not in asked) or (sub_type == "ephemeral" and idt is not None)
        configured = set(methods.values())
        unmatched = asked and not (set(asked) & configured)
        page = out.ok and isinstance(out.raw.get("http_response"), str)
        if out.ok and not page:
            check(reusable, lambda: f"an old login is reused: {why}")
            settle(o, out.raw, s, b, c, req, False)
            rec.nontrivial()
            rec.label("reused")
            return
        if not out.ok:
            if unmatched and len(methods) > 1 and out.error == "access_denied":
                rec.label("class unknown")
                return
            check(out.error == "login_required", lambda: f"{out!r}: {why}")
            check(o["prompt"] == "none", lambda: f"login_required: {why}")
            check(not reusable or open_, lambda: f"login_required although the user is logged in: {why}")
            rec.label("login_required")
            if s is not None:
                rec.nontrivial()
            return
        check(o["prompt"] != "none", lambda: f"a page is shown with prompt=none: {why}")
        check(not reusable or open_, lambda: f"login page although the user is logged in: {why}")
        if s is not None:
            rec.nontrivial()
            rec.label("login again")
        m = re.search(r'action="verify/(m\d)">(.*)</form>', out.raw["http_response"])
        check(m is not None, lambda: f"not a login page: {out.raw['http_response'][:200]}")
        mid, token = m.group(1), m.group(2)
        if asked and len(methods) > 1 and not unmatched:
            check(methods[mid] in asked, lambda: f"asked for class {asked}, login page is of {methods[mid]}")
            rec.label("class chosen")
        # what the web application does
        meth = op.ctx.authn_broker[mid]["method"]
        CLOCK.advance(o["wait"])
        if o["login"] == "leave":
            return
        user = names[o["u"]]
        if o["login"] == "wrong":
            for name, word in ((user, pw[user] + "x"), (user, ""), ("nobody", "pw0"), (user, pw[names[(o["u"] + 1) % 3]])):
                try:
                    meth.verify(username=name, password=word, token=token)
                except FailedAuthentication:
                    continue
                check(False, f"{name} logged in with password {word!r}")
            rec.label("wrong password")
            return
        if o["login"] in ("tampered", "foreign"):
            h, p, sg = token.split(".")
            d = json.loads(base64.urlsafe_b64decode(p + "=" * (-len(p) % 4)))
            d["authn_class_ref"] = "urn:acr:forged"
            if o["login"] == "foreign":
                from cryptojwt.jws.jws import JWS
                d["iss"] = cl["client_id"] if o["u"] else d["iss"]
                t = JWS(json.dumps(d), alg="RS256").sign_compact(ops.keyjar(f"client{c}").get_signing_key("RSA", issuer_id=""))
            else:
                t = h + "." + base64.urlsafe_b64encode(json.dumps(d).encode()).decode().rstrip("=") + "." + sg
            try:
                meth.unpack_token(t)
            except Exception:  # noqa: B902
                rec.label(o["login"] + " refused")
                return
            check(False, f"the login page accepts a token that is {o['login']}")
        check(meth.verify(username=user, password=pw[user], token=token) == user, "verify returns another user")
        info = meth.unpack_token(token)
        check(info["authn_class_ref"] == methods[mid], lambda: f"login page of {mid} carries class {info['authn_class_ref']}, method has {methods[mid]}")
        areq = AuthorizationRequest().from_urlencoded(info["query"])
        sid = ep.create_session(areq, user, info["authn_class_ref"], info["iat"], meth)
        args = ep.authz_part2(request=areq, session_id=sid)
        check("response_args" in args and "error" not in args["response_args"], lambda: f"authorization after login: {args}")
        n = Sess()
        exp = case["methods"][int(mid[1:])]["exp"]
        # the time of the login is when the form was posted (or, at most, shown)
        n.u, n.acr, n.time, n.revoked = o["u"], methods[mid], CLOCK.now, False
        n.until = CLOCK.now + (exp or 3600)
        ev = op.mngr.get_authentication_event(session_id=sid)
        if ev["authn_time"] == info["iat"]:
            n.time = info["iat"]
            if not exp:
                n.until = n.time + 3600
        settle(o, args, n, b, c, req, True)
        rec.label("login")

    for o in case["ops"]:
        if o["op"] == "req":
            request(o)
            continue
        if not last[o["b"]]:
            continue
        ck, s, c = last[o["b"]]
        if s.sid in gone:
            continue
        if o["what"] == "grant":
            op.mngr.revoke_grant(s.sid)
            s.revoked = True
        elif o["what"] == "client":
            op.mngr.revoke_client_session(s.sid)
            for x in last:
                if x and x[1].u == s.u and x[2] == c:
                    x[1].revoked = True
            logged_out.add((s.u, c))
        elif o["what"] == "remove":
            op.mngr.remove_session(s.sid)
            gone.add(s.sid)
            for x in last:
                if x and x[1].sid == s.sid:
                    x[1].revoked = True
        elif o["what"] == "restart":
            # nothing but the browsers remember what happened so far
            op, ep = start()
            for x in last:
                if x:
                    x[1].revoked = True
                    gone.add(x[1].sid)
            logged_out.clear()
            del idts[:]
        rec.label("revoked " + o["what"])


SUBS = [Sub("logins", cases, run, quick=900, ids=True)]
