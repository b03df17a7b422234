"""C23: malformed input yields no credentials and harms nothing."""
import base64
import json
from urllib.parse import parse_qsl, unquote_plus, urlencode

from hypothesis import strategies as st

from pbt import hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

from oidcmsg.message import Message
from oidcmsg.oauth2 import ResponseMessage

RULE = ("a case sets up a server with live codes, tokens, logins, a registered client and a pushed request, and sends one to twelve mutated requests to any endpoint in the form a web "
        "application hands them over (text, form dictionary, JSON, headers, cookies); non-trivial when a request that still had its credentials or live values was refused, or one was answered")


def b64(x):
    return base64.urlsafe_b64encode(x if isinstance(x, bytes) else json.dumps(x).encode()).rstrip(b"=").decode()


ODD_JWT = [b64(h) + "." + b64(p) + "." + s for h, p, s in [
    ({"alg": "none"}, [], ""), ({"alg": "RS256"}, 5, "AAAA"), ({"alg": "ES256"}, {"aud": 5}, "*"), ([], {}, "AAAA"), ({"alg": 5}, {"iss": "client_0"}, "A" * 86), (None, None, ""),
    ({"alg": "ES256", "kid": []}, {"aud": ["client_0"], "iss": ops.ISSUER}, "A" * 86), ({"alg": "HS256"}, {"sub": "client_0", "iss": "client_0", "aud": [ops.ISSUER]}, "AAAA"),
    ({"alg": "ES256", "jwk": {"kty": "oct"}}, {"exp": "x", "aud": "client_0"}, "AAAA"), (b"\xff", b"\xfe", "AAAA"), ({}, {}, ""), ({"alg": "none"}, {"client_id": "client_0", "response_type": "code"}, "")]]
JUNK = ["", " ", "\x00", "é", "null", "{}", "[]", "[1]", "true", "0", "-1", "1e999", "9" * 25, "a.b.c", "....", "%", "%zz", "A" * 2000, "http://[", "https://rp0.example.com/cb", "https://rp1.example.com/cb",
        "javascript:alert(1)", "client_0", "client_1", "none", "code", "token", "id_token token", "code id_token", "openid", "openid openid", "offline_access openid", "login", "none login", "consent", "query",
        "fragment", "form_post", "web_message", "S256", "plain", "authorization_code", "refresh_token", "client_credentials", "urn:ietf:params:oauth:client-assertion-type:jwt-bearer",
        "urn:ietf:params:oauth:grant-type:jwt-bearer", "{\"userinfo\": 5}", "{\"userinfo\": {\"email\": 5}}", "{\"id_token\": {\"sub\": 5}}", "{\"id_token\": {\"acr\": []}}", "{\"userinfo\": []}",
        "{\"userinfo\": {\"email\": {\"value\": {}}}}", "5", "[[]]", "{\"a\": {\"b\": {}}}", "en-US sv", "diana", "𝕌", "a b", "a+b", "'\"<>&", "urn:uuid:nothing", "https://op.example.com/", "\ud7ff", "a;b", "0x1"] + ODD_JWT
LIVE = ["code", "code1", "access", "access1", "refresh", "refresh1", "id_token", "rat", "par", "secret0", "secret1", "session"]
TYPED = [None, True, False, 0, -1, 5, 1.5, 10 ** 30, [], {}, [None], [5], [[]], {"a": 1}, {"email": None}, ["code", 5], ["openid", None], [{}], ["x", "y"], {"userinfo": {"email": {"value": []}}}, {"keys": []},
         {"keys": [5]}, {"keys": [{"kty": "RSA"}]}, ["https://rp9.example.com/cb", 5], [["https://rp9.example.com/cb"]], ["https://rp9.example.com/cb#f"], [""], "x"]
PARAMS = ["client_id", "client_secret", "redirect_uri", "response_type", "scope", "state", "nonce", "response_mode", "prompt", "max_age", "claims", "request", "request_uri", "id_token_hint", "login_hint", "acr_values",
          "ui_locales", "display", "code", "code_challenge", "code_challenge_method", "code_verifier", "grant_type", "refresh_token", "client_assertion", "client_assertion_type", "access_token", "token",
          "token_type_hint", "post_logout_redirect_uri", "error", "registration", "resource", "audience", "username", "password", "dpop", "assertion", "iss", "sid", "__verified_request", "__client_id",
          "__expires_at", "authenticated", "subject_token", "jwks", "sub", "exp", "token_endpoint_auth_method", "redirect_uris", "response_types", "sector_identifier_uri", "subject_type", "contacts", "application_type",
          "id_token_signed_response_alg", "userinfo_signed_response_alg", "request_uris", "jwks_uri", "default_max_age", "client_name#sv", "logo_uri", "policy_uri", "post_logout_redirect_uris",
          "frontchannel_logout_uri", "backchannel_logout_uri", "client_id_issued_at", "resource", "rel"]
ENDPOINTS = ["authorization", "authorization", "token", "token", "refresh", "refresh", "userinfo", "introspection", "registration", "registration_read", "pushed_authorization", "par_use", "session", "discovery",
             "provider_config"]
HEADERS = ["-", "-", "-", "none", "Basic", "Basic ", "Basic x", "Basic =", "Basic 0:1", "basic0", "basic1", "Basic no colon", "Basic colons", "Basic latin", "Bearer", "Bearer ", "Bearer x", "bearer live", "Bearer two",
           "Digest x", "", "list", "DPoP", "Basic live", "Bearer code", "Bearer refresh", "Bearer id_token", "Bearer rat"]
COOKIES = ["-", "-", "-", "live", "live junk", "name only", "value junk", "other name", "two", "parts", "flip"]
# What a client may easily get wrong: something that belongs to the other client, or is live but not meant for this
NEAR = ["other", "other", "other", "secret", "redirect_uri", "scope", "code_verifier", "response_type", "id_token_hint"]
NEAR_VALUES = ["openid email phone", "email address", "https://rp0.example.com/cb/", "https://rp1.example.com/cb", "", "w" * 43, "code id_token", "token", "profile"]


def cases():
    fx = st.fixed_dictionaries
    i = st.integers(0, 12)
    val = st.one_of(st.sampled_from(JUNK), st.sampled_from(JUNK), st.sampled_from(LIVE).map(lambda x: {"live": x}), st.sampled_from(TYPED).map(lambda x: {"typed": x}), st.text(max_size=5).filter(utf8))
    muts = {"drop": st.tuples(st.just("drop"), i), "set": st.tuples(st.just("set"), i, val), "dup": st.tuples(st.just("dup"), i, val), "add": st.tuples(st.just("add"), st.sampled_from(PARAMS), val),
            "rename": st.tuples(st.just("rename"), i, st.sampled_from(PARAMS)), "swap": st.tuples(st.just("swap"), i, i), "char": st.tuples(st.just("char"), i, st.integers(0, 500), st.sampled_from("A0.-%é =&\x00")),
            "trunc": st.tuples(st.just("trunc"), i, st.integers(0, 300)), "wrap": st.tuples(st.just("wrap"), i),
            "near": st.tuples(st.just("near"), st.sampled_from(NEAR), st.sampled_from(NEAR_VALUES))}
    names = ["drop", "set", "set", "set", "dup", "add", "add", "add", "rename", "swap", "char", "char", "trunc", "wrap", "near", "near", "near"]
    req = fx({"ep": st.sampled_from(ENDPOINTS), "c": st.integers(0, 1), "muts": hist.sized_lists(st.sampled_from(names).flatmap(lambda x: muts[x]), 0, 3),
              "form": st.sampled_from(["dict", "dict", "dict", "dict", "dict", "text", "text", "url", "json", "flip", "cut", "junk", "none", "message", "lists"]), "p": st.integers(0, 3000), "ch": st.integers(0, 63),
              "hdr": st.one_of(st.just("-"), st.just("-"), st.sampled_from(HEADERS)), "cookie": st.sampled_from(COOKIES), "http": st.sampled_from(["-", "-", "-", "none", "empty", "no headers"])})
    return fx({"flavour": st.sampled_from(["oidc", "oidc", "oauth2"]), "format": st.sampled_from(["jwt", "opaque"]), "pkce": st.sampled_from([None, None, {}, {"essential": True}]),
               "deny": st.booleans(), "once": st.booleans(), "ops": hist.sized_lists(req, 1, 12)})


def utf8(s):
    try:
        s.encode()
    except UnicodeError:
        return False
    return True


class Reply:
    def __init__(self, ok, error, body, raw=None):
        self.ok, self.error, self.body, self.raw = ok, error, body, raw

    def __repr__(self):
        return f"<{'answer' if self.ok else 'error'} {self.error} {str(self.body)[:300]}>"


def web(op, name, request, http_info):
    """What the web application of the examples does with a request."""
    ep = op.ep(name)
    try:
        req = ep.parse_request(request, http_info=http_info)
    except Exception as e:
        return Reply(False, "parse " + type(e).__name__, "")
    if isinstance(req, ResponseMessage) and "error" in req:
        return Reply(False, req["error"], req.to_json())
    try:
        args = ep.process_request(req, http_info=http_info)
    except Exception as e:
        return Reply(False, "process " + type(e).__name__, "")
    try:
        "redirect_location" in args
        args = dict(args)
    except TypeError:
        return Reply(False, "no arguments", "")
    if "redirect_location" in args:
        return Reply(True, None, str(args["redirect_location"]), args)
    if "http_response" in args:
        return Reply(True, None, args["http_response"] if isinstance(args["http_response"], str) else json.dumps(args["http_response"], default=str), args)
    error = args.pop("error", "")
    ra = args.get("response_args")
    info = ep.do_response(request=req, error=error, **args)     # nothing catches what this raises
    if not error and ra is not None and "error" in ra:
        error = ra["error"]
    if error:
        return Reply(False, error, str(info.get("response")), args)
    return Reply(True, None, str(info.get("response")), args)


def flat(x):
    """Every text in a request, as it would be read."""
    if isinstance(x, Message):
        x = x.to_dict()
    if isinstance(x, dict):
        for k, v in x.items():
            yield from flat(v)
            yield str(k)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from flat(v)
    elif isinstance(x, str):
        yield x
        yield unquote_plus(x)
        if x[:6].lower() == "basic ":
            try:
                d = base64.b64decode(x[6:]).decode()
                yield d
                yield unquote_plus(d)
            except Exception:
                pass


class World:
    def __init__(self, case):
        self.case = case
        oidc = case["flavour"] == "oidc"
        conf = ops.base_conf(flavour=case["flavour"], token_format=case["format"])
        if case["once"]:    # every use of a refresh token counts
            conf["authz"]["kwargs"]["grant_config"]["usage_rules"]["refresh_token"]["max_usage"] = 1
        if case["pkce"] is not None:
            f = "oidcop.oidc.add_on.pkce.add_pkce_support"
            conf["add_on"] = {"pkce": {"function": f, "kwargs": case["pkce"]}}
        if oidc:
            conf["endpoint"]["discovery"] = {"path": ".well-known/webfinger", "class": "oidcop.oidc.discovery.Discovery", "kwargs": {}}
        if case["deny"]:
            conf["endpoint"]["authorization"]["kwargs"]["deny_unknown_scopes"] = True
        self.clients = [ops.client_conf(i, _keys=f"client{i}") for i in (0, 1)]
        self.clients[0]["post_logout_redirect_uris"] = [("https://rp0.example.com/out", "")]
        self.op = op = ops.OP(conf, clients=self.clients, flavour=case["flavour"])
        self.oidc = oidc
        self.live = {}       # name -> value
        self.tokens = []     # (kind, value, client index)
        self.verifier, self.cookie = "v" * 43, []
        scope = ["openid", "email", "offline_access"] if oidc else ["email"]
        self.scope = scope
        for n, (c, use) in enumerate([(0, False), (1, False), (0, True), (1, True)]):
            extra = {"code_challenge": self.challenge(), "code_challenge_method": "S256"} if case["pkce"] is not None else {}
            out = op.call("authorization", ops.auth_request(self.clients[c], scope=scope, state=f"S{n}", **extra), http_info={"headers": {}})
            check(out.ok and out.args.get("code"), lambda: f"set-up: {out!r}")
            if n == 2:
                self.cookie = ops.find_cookies(out)
            if not use:
                self.live["code" if c == 0 else "code1"] = out.args["code"]
                self.tokens.append(("code", out.args["code"], c))
                continue
            x = op.call("token", ops.code_request(self.clients[c], out.args["code"], **self.verifying()), issue_refresh=True)
            check(x.ok and x.args.get("refresh_token"), lambda: f"set-up: {x!r}")
            sfx = "" if c == 0 else "1"
            for kind in ("access", "refresh"):
                self.live[kind + sfx] = x.args[kind + "_token"]
                self.tokens.append((kind, x.args[kind + "_token"], c))
            if x.args.get("id_token") and c == 0:
                self.live["id_token"] = x.args["id_token"]
        self.rat = None
        if oidc:
            r = op.call("registration", json.dumps({"redirect_uris": ["https://rp7.example.com/cb"], "token_endpoint_auth_method": "client_secret_post"}))
            check(r.ok, lambda: f"set-up: {r!r}")
            self.live["rat"] = r.args["registration_access_token"]
            self.dyn = r.args["client_id"]
        p = op.call("pushed_authorization", self.par_request(0))
        check(p.ok, lambda: f"set-up: {p!r}")
        self.live["par"] = p.raw["http_response"]["request_uri"]
        for i in (0, 1):
            self.live[f"secret{i}"] = self.clients[i]["client_secret"]
        self.live["session"] = op.mngr.encrypted_session_id("diana", "client_0", op.mngr.get(["diana", "client_0"]).subordinate[0])

    def challenge(self):
        import hashlib
        return b64(hashlib.sha256(self.verifier.encode()).digest())

    def verifying(self):
        return {"code_verifier": self.verifier} if self.case["pkce"] is not None else {}

    def par_request(self, c):
        r = ops.auth_request(self.clients[c], scope=self.scope, **({"code_challenge": self.challenge(), "code_challenge_method": "S256"} if self.case["pkce"] is not None else {}))
        r.update({"client_secret": self.clients[c]["client_secret"]})
        return r

    # ------------------------------------------------------------------
    def legit(self, o):
        """endpoint, parameters, headers of a request that would be answered"""
        c = self.clients[o["c"]]
        sfx = "" if o["c"] == 0 else "1"
        ep, h = o["ep"], {}
        if ep == "authorization":
            r = self.par_request(o["c"])
            r.pop("client_secret")
        elif ep == "par_use":
            ep, r = "authorization", {"client_id": "client_0", "request_uri": self.live["par"], "response_type": "code", "redirect_uri": "https://rp0.example.com/cb", "scope": " ".join(self.scope)}
        elif ep == "token":
            r = {**ops.code_request(c, self.live["code" + sfx]), **self.verifying()}
        elif ep == "refresh":
            ep, r = "token", ops.refresh_request(c, self.live["refresh" + sfx])
        elif ep == "userinfo":
            r, h = {}, {"authorization": "Bearer " + self.live["access" + sfx]}
            if o["p"] % 2:
                r, h = {"access_token": self.live["access" + sfx]}, {}
        elif ep == "introspection":
            r = {"token": self.live["access" + sfx], "client_id": c["client_id"], "client_secret": c["client_secret"]}
        elif ep == "registration":
            r = {"redirect_uris": [f"https://rp{o['p'] % 9}.example.org/cb"], "client_name": "x", "response_types": ["code"], "grant_types": ["authorization_code"]}
        elif ep == "registration_read":
            r, h = {"client_id": getattr(self, "dyn", "x")}, {"authorization": "Bearer " + self.live.get("rat", "x")}
        elif ep == "pushed_authorization":
            r = self.par_request(o["c"])
        elif ep == "session":
            r = {"id_token_hint": self.live.get("id_token", ""), "state": "S", "post_logout_redirect_uri": "https://rp0.example.com/out"}
        elif ep == "discovery":
            r = {"resource": "acct:diana@op.example.com", "rel": "http://openid.net/specs/connect/1.0/issuer"}
        else:
            r = {}
        return ep, [[k, v] for k, v in r.items()], h

    def value(self, v):
        if isinstance(v, dict):
            return self.live.get(v["live"], "gone") if "live" in v else v["typed"]
        return v

    def build(self, o):
        ep, ps, h = self.legit(o)
        for m in o["muts"]:
            k = m[0]
            if k == "add":
                ps.append([m[1], self.value(m[2])])
                continue
            if k == "near":
                if m[1] == "other":
                    swap = {v: self.live.get(n[:-1] if n.endswith("1") else n + "1") for n, v in self.live.items() if n not in ("secret0", "secret1")}
                    ps = [[n, swap.get(v) or v if isinstance(v, str) else v] for n, v in ps]
                elif m[1] == "secret":
                    ps = [[n, self.live["secret1" if o["c"] == 0 else "secret0"] if n == "client_secret" else v] for n, v in ps]
                else:
                    ps = [p for p in ps if p[0] != m[1]] + [[m[1], m[2]]]
                continue
            if not ps:
                continue
            i = m[1] % len(ps)
            if k == "drop":
                del ps[i]
            elif k == "set":
                ps[i][1] = self.value(m[2])
            elif k == "dup":
                ps.append([ps[i][0], self.value(m[2])])
            elif k == "rename":
                ps[i][0] = m[2]
            elif k == "swap":
                j = m[2] % len(ps)
                ps[i][1], ps[j][1] = ps[j][1], ps[i][1]
            elif k == "wrap":
                ps[i][1] = [ps[i][1]]
            elif isinstance(ps[i][1], str):
                s = ps[i][1]
                p = m[2] % (len(s) + 1)
                ps[i][1] = s[:p] if k == "trunc" else s[:p] + m[3] + s[p + 1:]
        form, d = o["form"], dict(map(tuple, ps))
        if ep == "registration" or (form in ("flip", "cut", "text") and o["p"] % 3 == 0):
            text = json.dumps(d)
        else:
            text = urlencode([(k, v if isinstance(v, (str, list)) else json.dumps(v)) for k, v in ps], doseq=True)
            if form == "url":
                text = "https://op.example.com/" + ep + "?" + text
        if form == "dict":
            req = d
        elif form == "message":
            req = Message(**d)
        elif form == "lists":
            req = {k: [v] if isinstance(v, str) else v for k, v in d.items()}
        elif form == "json":
            req = json.dumps(d)
        elif form == "flip":
            p = o["p"] % (len(text) + 1)
            req = text[:p] + "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijkl&=%+{}[]\",:;#/\\ \x00\n01259é"[o["ch"] % 62] + text[p + 1:]
        elif form == "cut":
            req = text[:o["p"] % (len(text) + 1)]
        elif form == "junk":
            req = (JUNK + ["{\"redirect_uris\": ", "a=b&a=c&=&&", "?", "client_id", "\ufeff{}"])[o["p"] % (len(JUNK) + 5)]
        elif form == "none":
            req = [None, "", {}][o["p"] % 3]
        else:
            req = text
        hdr = o["hdr"]
        if hdr == "none":
            h = {}
        elif hdr == "list":
            h = {"authorization": ["Bearer x"]}
        elif hdr in ("basic0", "basic1"):
            c = self.clients[int(hdr[-1])]
            h = {"authorization": ops.basic_header(c["client_id"], c["client_secret"])}
        elif hdr == "Basic live":
            h = {"authorization": "Basic " + base64.b64encode(f"client_0:{self.live['access']}".encode()).decode()}
        elif hdr == "Basic no colon":
            h = {"authorization": "Basic " + base64.b64encode(b"client_0").decode()}
        elif hdr == "Basic colons":
            h = {"authorization": "Basic " + base64.b64encode(b":client_0::" + self.live["secret0"].encode()).decode()}
        elif hdr == "Basic latin":
            h = {"authorization": "Basic " + base64.b64encode(b"client_0:\xff\xfe").decode()}
        elif hdr == "bearer live":
            h = {"authorization": "bearer " + self.live["access1"]}
        elif hdr in ("Bearer code", "Bearer refresh", "Bearer id_token", "Bearer rat"):
            h = {"authorization": "Bearer " + self.live.get(hdr.split()[1], "x")}
        elif hdr == "Bearer two":
            h = {"authorization": "Bearer " + self.live["access"] + " " + self.live["access1"]}
        elif hdr != "-":
            h = {"authorization": hdr}
        http = {"headers": h, "method": "POST", "url": "https://op.example.com/" + ep}
        ck = o["cookie"]
        if ck == "-" and ep == "session":
            ck = "live"
        if ck != "-":
            live = self.cookie or [{"name": "oidc_op", "value": "x"}]
            v = live[0]["value"]
            p = o["p"] % len(v)
            http["cookie"] = {"live": live, "live junk": live + [{"name": "oidc_op", "value": "x"}], "name only": [{"name": "oidc_op", "value": ""}], "other name": [{"name": "sman", "value": v}],
                              "value junk": [{"name": "oidc_op", "value": JUNK[o["ch"]]}], "two": [{"name": "oidc_op", "value": JUNK[o["ch"]]}] + live, "parts": [{"name": "oidc_op", "value": "|".join(v.split("|")[: o["p"] % 4])}],
                              "flip": [{"name": "oidc_op", "value": v[:p] + "AZaz09|="[o["ch"] % 8] + v[p + 1:]}]}[ck]
        if o["http"] == "none":
            http = None
        elif o["http"] == "empty":
            http = {}
        elif o["http"] == "no headers":
            http.pop("headers")
        return ep, req, http

    # ------------------------------------------------------------------
    def state(self):
        db = {}
        for key, item in self.op.mngr.db.items():
            if hasattr(item, "issued_token"):
                db[key] = [item.revoked, [(t.value, t.token_class, t.revoked, t.used) for t in item.issued_token]]
            else:
                db[key] = [item.revoked, []]
        cdb = {cid: json.dumps({k: v for k, v in c.items() if k != "auth_method"}, sort_keys=True, default=str) for cid, c in self.op.ctx.cdb.items()}
        return {"sessions": db, "clients": cdb, "par": sorted(self.op.ctx.par_db),
                "keys": {o: len(self.op.ctx.keyjar.get_issuer_keys(o)) for o in self.op.ctx.keyjar.owners()}}


def run(case, rec):
    w = World(case)
    op = w.op
    for o in case["ops"]:
        ep, req, http = w.build(o)
        if ep not in op.server.endpoint:
            continue
        before = w.state()
        texts = set(flat([req, http or {}]))
        if isinstance(req, str):
            q = req.split("?", 1)[1] if "?" in req else req
            for k, v in parse_qsl(q, keep_blank_values=True):
                texts |= {k, v}
            try:
                texts |= set(flat(json.loads(req)))
            except ValueError:
                pass
        words = {x for t in texts for x in t.split()} | texts
        r = web(op, ep, req, http)
        after = w.state()
        issued = set()
        for k, (rev, toks) in after["sessions"].items():
            old = {t[0] for t in before["sessions"].get(k, [0, []])[1]}
            issued |= {(t[0], t[1], k) for t in toks if t[0] not in old}
        what = f"{ep} {o['form']} {o['muts']} header {o['hdr']!r} cookie {o['cookie']!r}"
        rec.label(f"{ep} {'answered' if r.ok else 'refused'}", *([] if r.ok else [f"{ep}: {r.error}"]))
        if not r.ok:
            rec.nontrivial(any(v in words for v in w.live.values()))
            for v, _, _ in issued:
                check(v not in str(r.body), f"{what}: the error {r!r} carries a credential")
            for d in ("clients", "keys"):     # whether a refused attempt spends a pushed request is left open
                check(before[d] == after[d], lambda: f"{what}: refused with {r!r} but changed {d}: {diff(before[d], after[d])}")
            for k, s in before["sessions"].items():
                a = after["sessions"].get(k)
                check(a is not None and a[0] == s[0] and a[1][:len(s[1])] == s[1], lambda: f"{what}: refused with {r!r} but changed the session {k}: {s} -> {a}")
            # a login can end with an error after the first of several values was made; nobody gets that one
            check(not issued or ep == "authorization", lambda: f"{what}: refused with {r!r} but {[(t, k) for _, t, k in issued]} was issued")
            continue
        rec.nontrivial()
        judge(w, o, ep, what, r, words, before, after, issued)
    finale(w)


def diff(a, b):
    return {k: (a.get(k) if isinstance(a, dict) else None, b.get(k) if isinstance(b, dict) else None) for k in set(a) ^ set(b)} if set(a) != set(b) else {k: (a[k], b[k]) for k in a if a[k] != b[k]}


def judge(w, o, ep, what, r, words, before, after, issued):
    """An answer: was the request entitled to it, and did it do only what it had to do?"""
    op = w.op
    creds = [i for i in (0, 1) if any(w.live[f"secret{i}"] in t for t in words)]
    touched = [k for k, s in before["sessions"].items() if after["sessions"].get(k) is None or after["sessions"][k][0] != s[0] or after["sessions"][k][1][:len(s[1])] != s[1]]
    if ep != "registration":
        check(before["clients"] == after["clients"], lambda: f"{what}: changed clients {diff(before['clients'], after['clients'])}")
    if ep not in ("token",):
        check(not touched, f"{what}: answered and changed sessions {touched}")
    if ep == "token":
        used = [(k, v, c) for k, v, c in w.tokens if k in ("code", "refresh", "refresh?") and v in words and c in creds]
        check(used, f"{what}: tokens were issued without a live code or refresh token and its client's credentials")
        ck = {t[2] for t in issued}
        was = {t[0]: t[3] for s in before["sessions"].values() for t in s[1]}
        gone = [u for u in used if any(t[0] == u[1] and t[3] > was[u[1]] for s in after["sessions"].values() for t in s[1])]
        check(len(gone) == 1, f"{what}: uses up {len(gone)} values")
        k, v, c = gone[0]
        check(len(ck) <= 1 and all(f"client_{c}" in x for x in ck | set(touched)), f"{what}: tokens for {ck}, {touched} against a {k} of client_{c}")
        w.tokens.remove(gone[0])
        if k != "code":     # whether a refresh token can be used again is C01's and C18's
            w.tokens.append(("refresh?", v, c))
        body = json.loads(r.body)
        for name, kind in (("access_token", "access"), ("refresh_token", "refresh")):
            if body.get(name):
                check(body[name] in {t[0] for t in issued}, f"{what}: the {name} was not issued")
                w.tokens.append((kind, body[name], c))
        for n, lv in list(w.live.items()):
            if lv == v:
                w.live[n] = body.get("refresh_token") or lv
    elif ep == "userinfo":
        check(any(k == "access" and v in words for k, v, _ in w.tokens), f"{what}: userinfo was answered without a live access token")
        check(not issued, f"{what}: issued {issued}")
    elif ep == "introspection":
        check(creds, f"{what}: introspection was answered without client credentials")
        if json.loads(r.body).get("active"):
            check(any(k in ("access", "refresh", "refresh?") and v in words for k, v, _ in w.tokens), f"{what}: active without a live token")
        check(not issued, f"{what}: issued {issued}")
    elif ep == "registration":
        new = set(after["clients"]) - set(before["clients"])
        check(len(new) == 1 and all(before["clients"][k] == after["clients"][k] for k in before["clients"]), lambda: f"{what}: clients {diff(before['clients'], after['clients'])}")
        c = op.ctx.cdb[list(new)[0]]
        uris = [ops.join_uri(u) for u in c.get("redirect_uris", [])]
        check(uris and all(isinstance(u, str) and ":" in u and "#" not in u for u in uris), f"{what}: registered redirect URIs {c.get('redirect_uris')}")
        check(not issued, f"{what}: issued {issued}")
    elif ep == "registration_read":
        check(any(w.live["rat"] in t for t in words), f"{what}: answered without the registration access token: {r!r}")
        check(w.dyn in r.body and w.live["rat"] in r.body, f"{what}: {r!r}")
    elif ep == "pushed_authorization":
        check(creds, f"{what}: pushed without client credentials")
        check(len(set(after["par"]) - set(before["par"])) == 1 and not issued, f"{what}: {r!r} issued {issued}")
    elif ep == "authorization":
        creds = {t[2] for t in issued}
        cid = [k.split(";;")[1] for k in creds]
        for x in cid:
            check(x in words or (x == "client_0" and w.live["par"] in words), f"{what}: issued {[(t, k) for _, t, k in issued]} for a client not named")
            reg = [ops.join_uri(u) for u in op.ctx.cdb[x]["redirect_uris"]]
            check(any(u in r.body for u in reg), f"{what}: the answer goes to {r.body[:200]}, registered {reg}")
        for v, t, k in issued:
            if t in ("authorization_code", "access_token") and v in r.body + unquote_plus(r.body):
                ci = int(k.split(";;")[1][-1]) if k.split(";;")[1] in ("client_0", "client_1") else None
                if t == "access_token" and ci is not None:
                    w.tokens.append(("access", v, ci))
        if w.live["par"] in words:
            w.live["par"] = "gone"
    else:
        check(not issued, f"{what}: issued {issued}")


def finale(w):
    """Everything that was live still is."""
    op = w.op
    for k, v, c in w.tokens:
        if k == "access":
            x = ops.introspect(op, w.clients[c], v)
            check(x.ok and x.args.get("active"), lambda: f"in the end an access token is not active: {x!r}")
            if w.oidc and "openid" in x.args.get("scope", ""):
                u = ops.userinfo(op, v)
                check(u.ok and u.args.get("sub"), lambda: f"in the end userinfo refuses an access token: {u!r}")
    for k, v, c in w.tokens:
        if k == "code":
            x = op.call("token", ops.code_request(w.clients[c], v, **w.verifying()))
            check(x.ok and x.args.get("access_token"), lambda: f"in the end a code is refused: {x!r}")
    for k, v, c in w.tokens:
        if k == "refresh":
            x = ops.refresh(op, w.clients[c], v)
            check(x.ok and x.args.get("access_token"), lambda: f"in the end a refresh token is refused: {x!r}")
    for c in (0, 1):
        r = w.par_request(c)
        r.pop("client_secret")
        if w.oidc:
            r["scope"] = "openid"
            r["prompt"] = "none"
        x = op.call("authorization", r, http_info={"headers": {}, "cookie": w.cookie} if c == 0 else {"headers": {}})
        check(x.ok and x.args.get("code"), lambda: f"in the end a login at client_{c} fails: {x!r}")
    if w.oidc:
        x = op.call("registration_read", {"client_id": w.dyn}, http_info={"headers": {"authorization": "Bearer " + w.live["rat"]}})
        check(x.ok, lambda: f"in the end the client can not read its registration: {x!r}")


SUBS = [Sub("malformed", cases, run, quick=700)]
