"""C21: introspection and userinfo answers are accurate and well protected."""
import copy
import json

from hypothesis import strategies as st

from pbt import hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

from cryptojwt.jwe.jwe import factory as jwe_factory
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import JWS
from cryptojwt.jws.jws import factory as jws_factory
from oidcop.scopes import SCOPE2CLAIMS

RULE = ("a case draws three clients with userinfo signing/encryption preferences (one registered dynamically), token format, release settings and user attributes, and a "
        "history of logins, exchanges, refreshes with narrower scope, revocations and clock moves, after which tokens are introspected by any client and presented at "
        "userinfo; non-trivial when an answer was signed or encrypted, or a token of another client, a narrowed or a dead token was asked about")

SIGN = ["-", "-", "RS256", "RS384", "PS256", "ES256", "ES384", "HS256", "HS384"]
ENC = ["-", "-", "-", "RSA-OAEP", "RSA-OAEP-256", "ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A256KW"]
ENC_ENC = ["-", "A128CBC-HS256", "A256CBC-HS512", "A128GCM", "A256GCM"]
SCOPES = ["profile", "email", "address", "phone"]
ISS = ops.ISSUER
JWT_CLAIMS = ("iss", "iat", "aud", "exp", "jti", "kid")


def cases():
    fx = st.fixed_dictionaries
    client = fx({"sign": st.sampled_from(SIGN), "enc": st.sampled_from(ENC), "enc_enc": st.sampled_from(ENC_ENC)})
    text = st.text(max_size=8)
    attr = st.one_of(text, st.integers(0, 2 ** 40), st.booleans(), st.lists(text, max_size=3), st.dictionaries(st.sampled_from(["country", "street_address", "x"]), text, max_size=3))
    names = [c for v in SCOPE2CLAIMS.values() for c in v if c != "sub"] + ["webid", "client_id", "scope", "active", "exp", "iss", "aud", "token_type", "iat"]
    user = st.dictionaries(st.sampled_from(names), attr, max_size=7)
    idx = st.integers(0, 9)
    scope = st.lists(st.sampled_from(SCOPES), max_size=3, unique=True)
    login = fx({"op": st.just("login"), "c": st.integers(0, 2), "u": st.integers(0, 1), "scope": scope, "offline": st.booleans(), "t": st.integers(0, 100),
                "rt": st.sampled_from(["code", "code", "token", "code token", "id_token token", "code id_token token"])})
    op = st.one_of(login, login, fx({"op": st.just("refresh"), "n": idx, "drop": st.integers(0, 4), "t": st.integers(0, 500)}),
                   fx({"op": st.just("tick"), "n": idx, "off": st.sampled_from([-1, 1, 60])}),
                   fx({"op": st.just("revoke"), "n": idx}),
                   fx({"op": st.just("mutant"), "n": idx, "p": st.integers(0, 1000), "ch": st.integers(0, 63)}),
                   fx({"op": st.just("introspect"), "n": idx, "by": st.integers(0, 2), "hint": st.sampled_from(["-", "access_token", "refresh_token", "nonsense"])}),
                   fx({"op": st.just("userinfo"), "n": idx, "how": st.sampled_from(["header", "body", "body-other", "header-other"])}))
    return fx({"clients": st.lists(client, min_size=3, max_size=3), "format": st.sampled_from(["jwt", "jwt", "opaque"]),
               "release": st.sampled_from(["-", "-", [], ["username"], ["username", "else"]]), "claims": st.lists(st.sampled_from(names), max_size=4, unique=True),
               "byscope": st.booleans(), "users": st.lists(user, min_size=2, max_size=2), "subject": st.sampled_from(["public", "pairwise"]),
               "first": login, "ops": hist.sized_lists(op, 1, 12)})


class Tok:
    pass


def run(case, rec):
    conf = ops.base_conf(token_format=case["format"])
    kw = conf["endpoint"]["introspection"]["kwargs"]
    if case["release"] != "-":
        kw["release"] = list(case["release"])
    if case["claims"]:
        kw["base_claims"] = {c: None for c in case["claims"]}
    if case["byscope"]:
        kw["add_claims_by_scope"] = True
    clients = []
    for i, c in enumerate(case["clients"]):
        d = {"subject_type": case["subject"]} if case["subject"] == "pairwise" else {}
        if c["sign"] != "-":
            d["userinfo_signed_response_alg"] = c["sign"]
        if c["enc"] != "-":
            d["userinfo_encrypted_response_alg"] = c["enc"]
            if c["enc_enc"] != "-":
                d["userinfo_encrypted_response_enc"] = c["enc_enc"]
        if i < 2:
            clients.append(ops.client_conf(i, _keys=f"client{i}", **d))
        else:
            dynamic = d
    op = ops.OP(conf, clients=clients)
    for i, u in enumerate(case["users"]):
        op.ctx.userinfo.db[f"user{i}"] = copy.deepcopy(u)
    o = op.call("registration", json.dumps({"redirect_uris": ["https://rp2.example.com/cb"], "jwks": ops.public_jwks("client2"), "token_endpoint_auth_method": "client_secret_post",
                                            "response_types": [t for t in ops.ALL_RESPONSE_TYPES if t != "none"], "grant_types": ["authorization_code", "implicit", "refresh_token"], **dynamic}))
    check(o.ok, lambda: f"registration failed {o!r}")
    clients.append({"client_id": o.args["client_id"], "client_secret": o.args["client_secret"], "redirect_uris": [("https://rp2.example.com/cb", {})]})
    toks, subs = [], {}

    def scope_list(v):
        return v.split() if isinstance(v, str) else list(v)

    def add(value, kind, c, u, scope, auth):
        t = Tok()
        t.value, t.kind, t.c, t.u, t.scope, t.iat, t.auth = value, kind, c, u, scope, CLOCK.now, auth
        t.exp = CLOCK.now + (600 if kind == "access_token" else 86400)
        t.revoked, t.narrow = False, False
        t.full = t.parent = scope
        toks.append(t)
        return t

    def dead(t):
        return t.revoked or CLOCK.now > t.exp

    def border(t):
        return CLOCK.now == t.exp

    def login(o):
        CLOCK.advance(o["t"])
        cl = clients[o["c"]]
        scope = ["openid"] + o["scope"] + (["offline_access"] if o["offline"] and "code" in o["rt"] else [])
        r = ops.authorize(op, cl, user=f"user{o['u']}", response_type=o["rt"], scope=scope)
        check(r.ok, lambda: f"login {o}: {r!r}")
        a = []
        auth = CLOCK.now
        if "access_token" in r.args:
            a.append(add(r.args["access_token"], "access_token", o["c"], o["u"], scope, auth))
        idt = r.args.get("id_token")
        if "code" in r.args:
            x = ops.exchange(op, cl, r.args["code"])
            check(x.ok, lambda: f"exchange: {x!r}")
            a.append(add(x.args["access_token"], "access_token", o["c"], o["u"], scope, auth))
            idt = x.args.get("id_token", idt)
            if x.args.get("refresh_token"):
                a.append(add(x.args["refresh_token"], "refresh_token", o["c"], o["u"], scope, auth))
        if idt:
            sub = ops.jwt_payload(idt)["sub"]
            k = (o["u"], o["c"])
            check(subs.setdefault(k, sub) == sub, "subject changed")
        return a

    def introspect(t, by, hint="-"):
        c = clients[by]
        req = {"token": t.value, "client_id": c["client_id"], "client_secret": c["client_secret"]}
        if hint != "-":
            req["token_type_hint"] = hint
        r = op.call("introspection", req)
        check(r.ok, lambda: f"introspection failed {r!r}")
        a = json.loads(r.http["response"])      # what goes over the wire
        if dead(t):
            check(a == {"active": False}, lambda: f"{t.kind} is dead (revoked {t.revoked}, {t.exp - CLOCK.now} s left), introspection says {a}")
            rec.nontrivial()
            return
        if border(t):
            return
        want = {"active": True, "client_id": clients[t.c]["client_id"], "iss": ISS, "iat": t.iat, "exp": t.exp}
        for k, v in want.items():
            check(a.get(k) == v, lambda: f"introspection of {t.kind}: {k} is {a.get(k)!r}, should be {v!r}")
        check(sorted(scope_list(a["scope"])) == sorted(t.scope), lambda: f"introspection of {t.kind}: scope {a['scope']!r}, token has {t.scope}")
        k = (t.u, t.c)
        check(subs.setdefault(k, a["sub"]) == a["sub"], lambda: f"introspection says sub {a['sub']}, the session has {subs[k]}")
        aud = a.get("aud") or []
        aud = [aud] if isinstance(aud, str) else aud
        if case["format"] == "jwt":
            p = ops.jwt_payload(t.value)
            paud = p.get("aud") or []
            paud = [paud] if isinstance(paud, str) else paud
            check(sorted(paud) == sorted(aud), lambda: f"aud {aud} but the token says {paud}")
            for k in ("iss", "client_id", "sub", "exp", "iat"):
                check(p.get(k, a[k]) == a[k], lambda: f"{k} {a[k]!r} but the token says {p[k]!r}")
            if "token_class" in p:
                check(p["token_class"] == t.kind, f"{t.kind} says {p['token_class']}")
        check(aud == [clients[t.c]["client_id"]], lambda: f"aud {aud}")
        check(a.get("token_class", t.kind) == t.kind, lambda: f"introspection of {t.kind} says {a}")
        check((a.get("token_type") or "").lower() == ("bearer" if t.kind == "access_token" else ""), lambda: f"introspection of {t.kind} says token_type {a.get('token_type')}")
        rel = case["release"] != "-" and "username" in case["release"]
        check(a.get("username") == (f"user{t.u}" if rel else None), lambda: f"username {a.get('username')!r}, release is {case['release']}")
        known = {"active", "client_id", "iss", "iat", "exp", "scope", "sub", "aud", "token_class", "token_type", "username"}
        allowed = set(case["claims"])
        if case["byscope"]:
            allowed |= {c for s in t.full for c in SCOPE2CLAIMS.get(s, [])}
        user = case["users"][t.u]
        for k, v in a.items():
            if k not in known:
                check(k in allowed and k in user and user[k] == v, lambda: f"introspection shows {k}={v!r}; configured {sorted(allowed)}, user has {user}")
                rec.label("user claim in introspection")
        rec.label(f"introspect {t.kind}{' narrowed' if t.narrow else ''}{' by other' if by != t.c else ''}")
        if by != t.c or t.narrow:
            rec.nontrivial()

    def opened(t, body, ctype):
        """Undo the protection the client asked for; the content."""
        c = case["clients"][t.c]
        cl = clients[t.c]
        if c["sign"] == "-" and c["enc"] == "-":
            check("json" in ctype, lambda: f"content type {ctype}")
            return json.loads(body), False
        check("jwt" in ctype, lambda: f"content type {ctype} of a signed or encrypted answer")
        rec.nontrivial()
        inner = body
        if c["enc"] != "-":
            check(body.count(".") == 4, lambda: f"client asked for encryption with {c['enc']}, got {body[:60]}")
            j = jwe_factory(body)
            hd = j.jwt.headers
            want_enc = c["enc_enc"] if c["enc_enc"] != "-" else "A128CBC-HS256"
            check((hd["alg"], hd["enc"]) == (c["enc"], want_enc), lambda: f"encrypted with {hd['alg']}/{hd['enc']}, registered {c['enc']}/{want_enc}")
            for i in range(3):
                keys = ops.keyjar(f"client{i}").get_issuer_keys("")
                try:
                    m = jwe_factory(body).decrypt(body, keys=[k for k in keys if k.kty == ("EC" if c["enc"].startswith("ECDH") else "RSA")])
                except Exception:  # noqa: B902
                    m = None
                check((m is not None) == (i == t.c), lambda: f"answer for client {t.c} {'opens' if m else 'does not open'} with the keys of client {i}")
                if m is not None:
                    inner = m.decode() if isinstance(m, bytes) else m
            rec.label("encrypted " + c["enc"])
        else:
            check(body.count(".") == 2, lambda: f"client did not ask for encryption, got {body[:60]}")
        if c["sign"] != "-":
            check(isinstance(inner, str) and inner.count(".") == 2 and not inner.startswith("{"), lambda: f"client asked for a signature with {c['sign']}, got {inner[:60]}")
            j = jws_factory(inner)
            check(j.jwt.headers["alg"] == c["sign"], lambda: f"signed with {j.jwt.headers['alg']}, registered {c['sign']}")
            if c["sign"].startswith("HS"):
                keys = [SYMKey(key=cl["client_secret"].encode(), kid=j.jwt.headers.get("kid", ""))]
            else:
                keys = [k for k in ops.keyjar("server").get_issuer_keys("") if k.kty == ("EC" if c["sign"][0] == "E" else "RSA")]
            try:
                d = JWS(alg=c["sign"]).verify_compact(inner, keys=keys, sigalg=c["sign"])
            except Exception as e:  # noqa: B902
                check(False, f"the signature of the userinfo answer does not verify: {type(e).__name__} {e}")
            rec.label("signed " + c["sign"])
        else:
            d = json.loads(inner) if isinstance(inner, str) else inner
        return d, True

    def userinfo(t, how):
        other = clients[(t.c + 1) % 3]["client_id"]
        if how.startswith("header"):
            req = {"client_id": other} if how == "header-other" else {}
            r = op.call("userinfo", req, {"headers": {"authorization": "Bearer " + t.value}})
        else:
            req = {"access_token": t.value}
            if how == "body-other":
                req["client_id"] = other
            r = op.call("userinfo", req, {"headers": {}})
        if dead(t) or t.kind != "access_token":
            check(not r.ok and not (r.http and "response" in r.http and "sub" in str(r.http["response"])), lambda: f"userinfo for a {t.kind}, dead={dead(t)}: {r!r}")
            rec.label("userinfo refused")
            rec.nontrivial()
            return
        if border(t):
            return
        if how == "body-other" and not r.ok:
            # a token presented in the name of another client may be refused
            rec.label("other client's name refused")
            return
        if not r.ok and CLOCK.now - t.auth > 3000:
            return
        check(r.ok, lambda: f"userinfo: {r!r}")
        hdr = {k.lower(): v for k, v in r.http["http_headers"]}
        d, jwt = opened(t, r.http["response"], hdr["content-type"])
        k = (t.u, t.c)
        check(subs.setdefault(k, d.get("sub")) == d.get("sub"), lambda: f"userinfo says sub {d.get('sub')}, the session has {subs[k]}")
        if jwt:
            if "iss" in d:
                check(d["iss"] == ISS, lambda: f"iss {d['iss']}")
            if "aud" in d:
                aud = d["aud"] if isinstance(d["aud"], list) else [d["aud"]]
                check(aud == [clients[t.c]["client_id"]], lambda: f"aud {aud}")
        user = case["users"][t.u]
        want = {c: user[c] for s in t.scope for c in SCOPE2CLAIMS.get(s, []) if c in user}
        # what is released is decided for the login, a refreshed token with fewer scopes may get less
        most = {c: user[c] for s in t.full for c in SCOPE2CLAIMS.get(s, []) if c in user}
        want["sub"] = most["sub"] = subs[k]
        got = {x: y for x, y in d.items() if not (jwt and x in JWT_CLAIMS) and x != "acr"}
        check(all(got.get(x) == y for x, y in want.items()) and all(x in most and most[x] == y for x, y in got.items()), lambda: f"userinfo content {got}, should be {want} (client {case['clients'][t.c]})")
        rec.label(f"userinfo {how}")

    def step(o):
        k = o["op"]
        if k == "login":
            for t in login(o):
                introspect(t, t.c)
                userinfo(t, "header")
            return
        if k == "refresh":
            rts = [t for t in toks if t.kind == "refresh_token" and not dead(t) and not border(t)]
            if not rts:
                return
            t = rts[o["n"] % len(rts)]
            CLOCK.advance(o["t"])
            if dead(t) or border(t):
                return
            scope = [s for i, s in enumerate(t.scope) if s in ("openid", "offline_access") or i != o["drop"]]
            narrow = scope != t.scope
            if not narrow:      # the scope of what the refresh token was based on
                scope = t.parent
            r = ops.refresh(op, clients[t.c], t.value, scope=scope if narrow else None)
            if not r.ok:
                return
            a = add(r.args["access_token"], "access_token", t.c, t.u, scope, t.auth)
            a.narrow, a.full = narrow, t.full
            if r.args.get("refresh_token"):
                b = add(r.args["refresh_token"], "refresh_token", t.c, t.u, scope, t.auth)
                b.narrow, b.full, b.parent = narrow, t.full, t.scope
                introspect(b, t.c)
            if narrow:
                rec.label("narrowed")
            introspect(a, t.c)
            userinfo(a, "header")
            introspect(t, t.c)
            return
        if not toks:
            return
        t = toks[o["n"] % len(toks)]
        if k == "tick":
            if t.exp + o["off"] > CLOCK.now and t.kind == "access_token":
                CLOCK.advance(t.exp + o["off"] - CLOCK.now)
            introspect(t, t.c)
            userinfo(t, "header")
        elif k == "revoke":
            info = op.mngr.get_session_info_by_token(t.value, grant=True) if not dead(t) and not border(t) else None
            if info:
                op.mngr.revoke_token(info["session_id"], t.value)
                t.revoked = True
                introspect(t, (t.c + 1) % 3)
                userinfo(t, "header")
        elif k == "mutant":
            v = t.value
            i = o["p"] % len(v)
            m = Tok()
            m.__dict__.update(t.__dict__)
            m.value = v[:i] + "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"[o["ch"]] + v[i + 1:]
            if m.value == v:
                return
            m.revoked = True
            introspect(m, t.c)
            userinfo(m, "header")
        elif k == "introspect":
            introspect(t, o["by"], o["hint"])
        else:
            userinfo(t, o["how"])

    step(case["first"])
    for o in case["ops"]:
        step(o)


SUBS = [Sub("answers", cases, run, quick=900, ids=True)]
