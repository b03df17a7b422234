"""C14: every ID token is a correct statement about its session."""
import base64
import hashlib
import json

from cryptojwt.jwe.jwe import factory as jwe_factory
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import factory
from hypothesis import strategies as st

from pbt import hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

RULE = ("a case configures algorithms, lifetime, claim release and a user whose record contains protocol claim names, and logs in up to "
        "six times with any response type, nonce, claims request and clock move, exchanging and refreshing; non-trivial when an "
        "ID token was issued to a client with a non-default or encryption algorithm, or a hostile user claim was requested")

PROTO = ["iss", "sub", "aud", "exp", "iat", "acr", "nonce", "auth_time", "at_hash", "c_hash", "sid", "jti"]
HOSTILE = PROTO + ["code", "access_token", "session_id", "usage_rules", "encrypt", "ttype", "token_class", "scope", "client_id",
                   "user_info", "lifetime", "kid", "alg", "sign", "extra_claims", "nbf"]
ALGS = [None, "RS256", "RS384", "RS512", "ES256", "ES384", "PS256", "PS384", "PS512", "HS256", "HS384", "HS512"]
ENC = [None, None, None, None, "RSA-OAEP", "RSA-OAEP-256", "ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A256KW"]
ENC_ENC = [None, "A128CBC-HS256", "A256CBC-HS512", "A128GCM", "A256GCM"]
RTS = ["code", "code", "code", "id_token", "code id_token", "id_token token", "code id_token token", "code token"]


def claims_req():
    spec = st.sampled_from([None, None, {"essential": True}, {"value": "EVIL"}, {"values": ["EVIL", "x"]}])
    return st.dictionaries(st.one_of(st.sampled_from(HOSTILE), st.sampled_from(["email", "name", "nickname"])), spec, max_size=4)


def cases():
    login = st.fixed_dictionaries({
        "c": st.integers(0, 2), "rt": st.sampled_from(RTS),
        "nonce": st.one_of(st.just("NONCE"), st.text(min_size=1, max_size=8), st.none()),
        "claims": st.one_of(st.none(), claims_req()), "scope": st.sampled_from([["openid"], ["openid", "email"], ["openid", "profile", "email", "offline_access"], ["openid", "profile"]]),
        "sso": st.booleans(), "dt": st.sampled_from([0, 0, 1, 30, 100]), "dt2": st.sampled_from([0, 0, 5, 120]),
        "refresh": st.sampled_from([0, 0, 1, 2]), "user": st.integers(0, 1)})
    return st.fixed_dictionaries({
        "algs": st.lists(st.sampled_from(ALGS), min_size=3, max_size=3),
        "enc": st.lists(st.tuples(st.sampled_from(ENC), st.sampled_from(ENC_ENC)), min_size=3, max_size=3),
        "supported": st.sampled_from([None, None, None, ["ES256", "RS256"], ["ES384", "PS256"], ["RS512"]]),
        "lifetime": st.sampled_from([300, 900, 1, 86400]),
        "idt": st.sampled_from(["none", "none", "by_scope", "base", "per_client"]),
        "logout": st.lists(st.booleans(), min_size=3, max_size=3),
        "hostile": st.lists(st.sampled_from(HOSTILE), max_size=8, unique=True),
        "by_client": st.lists(st.sampled_from(HOSTILE + ["email"]), max_size=3),
        "ops": hist.sized_lists(login, 1, 6)})


def lhash(value, alg):
    d = hashlib.new("sha" + alg[-3:], value.encode()).digest()
    return base64.urlsafe_b64encode(d[:len(d) // 2]).decode().rstrip("=")


def published(op):
    """The keys a client gets from the key endpoint."""
    return [key_from_jwk_dict(k) for k in op.ctx.keyjar.export_jwks(issuer_id="")["keys"]]


def unseal(token, i, enc, rec):
    """An ID token for client i, which registered the (alg, enc) -> the signed one inside"""
    alg, how = enc
    check(token.count(".") == (4 if alg else 2), lambda: f"client registered encryption with {alg}, got {token[:60]}")
    if not alg:
        return token
    hd = jwe_factory(token).jwt.headers
    check((hd["alg"], hd["enc"]) == (alg, how or "A128CBC-HS256"), lambda: f"encrypted with {hd['alg']}/{hd['enc']}, registered {alg}/{how}")
    inner = None
    for k in (i, (i + 1) % 3):
        keys = [x for x in ops.keyjar(f"client{k}").get_issuer_keys("") if x.kty == ("EC" if alg.startswith("ECDH") else "RSA")]
        try:
            m = jwe_factory(token).decrypt(token, keys=keys)
        except Exception:  # noqa: B902
            m = None
        check((m is not None) == (i == k), lambda: f"ID token for client {i} {'opens' if m else 'does not open'} with the keys of client {k}")
        if m is not None:
            inner = m.decode() if isinstance(m, bytes) else m
    rec.label("encrypted " + alg)
    return inner


def verify(op, token, alg, client):
    j = factory(token)
    check(j is not None, "the ID token is not a signed JWT")
    check(j.jwt.headers["alg"] == alg, lambda: f"ID token signed with {j.jwt.headers['alg']}, agreed was {alg}")
    if alg.startswith("HS"):
        key = SYMKey(key=client["client_secret"].encode(), use="sig")
        key.kid = j.jwt.headers.get("kid", "")
        keys = [key]
    else:
        keys = published(op)
    try:
        return j.verify_compact(token, keys, allow_none=False)
    except Exception as e:
        check(False, f"ID token does not verify under the published keys: {type(e).__name__} {e}")


def idtokens(case, rec):
    conf = ops.base_conf()
    kw = {"lifetime": case["lifetime"]}
    if case["supported"]:
        kw["id_token_signing_alg_values_supported"] = list(case["supported"])
    if case["idt"] == "by_scope":
        kw["add_claims_by_scope"] = True
    elif case["idt"] == "base":
        kw["base_claims"] = {k: None for k in case["by_client"]}
    elif case["idt"] == "per_client":
        kw["enable_claims_per_client"] = True
    conf["token_handler_args"]["id_token"]["kwargs"] = kw
    op = ops.OP(conf)
    for uid in op.ctx.userinfo.db:
        op.ctx.userinfo.db[uid] = dict(op.ctx.userinfo.db[uid], **{k: "EVIL" for k in case["hostile"]})
    clients, algs = [], []
    for i in range(3):
        kw = {}
        a = case["algs"][i]
        if a and case["supported"] and a not in case["supported"]:
            a = None
        if a:
            kw["id_token_signed_response_alg"] = a
        else:
            s = case["supported"]
            a = "RS256" if not s or "RS256" in s else s[0]
        if case["enc"][i][0]:
            kw["id_token_encrypted_response_alg"] = case["enc"][i][0]
            if case["enc"][i][1]:
                kw["id_token_encrypted_response_enc"] = case["enc"][i][1]
        if case["logout"][i]:
            kw["backchannel_logout_uri"] = f"https://rp{i}.example.com/bc"
        if case["idt"] == "per_client":
            kw["add_claims"] = {"always": {"id_token": list(case["by_client"])}, "by_scope": {"id_token": True}}
        c = ops.client_conf(i, _keys=f"client{i}", **kw)
        op.add_client(c)
        clients.append(c)
        algs.append(a)
    cookies, auth_times = {}, {}
    for n, o in enumerate(case["ops"]):
        CLOCK.advance(o["dt"])
        enc = case["enc"][o["c"]]
        client, alg = clients[o["c"]], algs[o["c"]]
        user = ["diana", "babs"][o["user"]]
        rt = o["rt"].split()
        scope = o["scope"]
        nonce = o["nonce"]
        if "id_token" in rt:
            nonce = nonce or "NN"
            if "openid" not in scope:
                scope = ["openid"] + scope
        kw = {}
        if o["claims"] is not None:
            kw["claims"] = json.dumps({"id_token": o["claims"]})
        key = (o["c"], o["user"])
        sso = o["sso"] and key in cookies
        out = ops.authorize(op, client, user=user, cookies=cookies[key] if sso else None, response_type=o["rt"], scope=scope,
                            nonce=nonce, state=f"S{n}", **kw)
        check(out.ok, lambda: f"authorization failed: {out!r}")
        if not sso:
            auth_times[key] = CLOCK.now
        new = ops.find_cookies(out)
        if new:
            cookies[key] = new
        tokens = []
        code, at = out.args.get("code"), out.args.get("access_token")
        if "id_token" in rt:
            tokens.append((unseal(out.args["id_token"], o["c"], enc, rec), CLOCK.now, code, at, "front"))
        uat = at
        if code:
            CLOCK.advance(o["dt2"])
            t = ops.exchange(op, client, code, issue_refresh=bool(o["refresh"]))
            check(t.ok, lambda: f"exchange failed: {t!r}")
            check("id_token" in t.args, "no id_token in the token response")
            if "id_token" in t.args:
                tokens.append((unseal(t.args["id_token"], o["c"], enc, rec), CLOCK.now, None, None, "token"))
                delivered = t.args["access_token"]
                pl = ops.jwt_payload(tokens[-1][0])
                check(pl.get("at_hash") in (None, lhash(delivered, alg)), "at_hash of another access token")
                check(pl.get("c_hash") in (None, lhash(code, alg)), "c_hash of another code")
            uat = t.args["access_token"]
            rtok = t.args.get("refresh_token")
            for _ in range(o["refresh"]):
                if not rtok:
                    break
                CLOCK.advance(7)
                r = ops.refresh(op, client, rtok)
                check(r.ok, lambda: f"refresh failed: {r!r}")
                check("id_token" in r.args, "id_token missing from the refresh answer")
                if "id_token" in r.args:
                    tokens.append((unseal(r.args["id_token"], o["c"], enc, rec), CLOCK.now, None, None, "refresh"))
                uat = r.args["access_token"]
                rec.label("refresh")
        sub = None
        if uat:
            u = ops.userinfo(op, uat)
            check(u.ok, lambda: f"userinfo failed: {u!r}")
            sub = u.args["sub"]
        for tok, now, c_, a_, where in tokens:
            rec.label(where, alg)
            p = verify(op, tok, alg, client)
            check(p == ops.jwt_payload(tok), "payload differs")
            aud = p["aud"] if isinstance(p["aud"], list) else [p["aud"]]
            check(p["iss"] == op.ctx.issuer, lambda: f"{where}: issuer {p['iss']}")
            check(aud == [client["client_id"]], lambda: f"{where}: audience {aud}")
            check(p["iat"] == now, lambda: f"{where}: iat {p['iat']} at {now}")
            check(p["exp"] == now + case["lifetime"], lambda: f"{where}: exp-iat {p['exp'] - p['iat']}, configured {case['lifetime']}")
            if sub is not None:
                check(p["sub"] == sub, lambda: f"{where}: subject {p['sub']}, userinfo says {sub}")
            sess = op.mngr.decrypt_session_id(p["sid"]) if "sid" in p else None
            if sess:
                check(sess[:2] == [user, client["client_id"]], lambda: f"{where}: sid of session {sess}")
                check(op.mngr.get(sess).sub == p["sub"], f"{where}: subject is not that of the session")
            check(p.get("nonce") == nonce, lambda: f"{where}: nonce {p.get('nonce')!r}, request had {nonce!r}")
            check(p.get("auth_time") == auth_times[key],
                  lambda: f"{where}: auth_time {p.get('auth_time')}, authenticated at {auth_times[key]}, now {now}")
            check(p.get("acr") == ops.ACR_PW, lambda: f"{where}: acr {p.get('acr')}")
            if where == "front":
                check(p.get("c_hash") == (lhash(c_, alg) if c_ else None), lambda: f"{where} {rt}: c_hash {p.get('c_hash')}")
                check(p.get("at_hash") == (lhash(a_, alg) if a_ else None), lambda: f"{where} {rt}: at_hash {p.get('at_hash')}")
            for k in PROTO + ["nbf"]:
                check(p.get(k) != "EVIL", lambda: f"{where}: user claim replaced {k}")
        if tokens:
            rec.nontrivial(alg != "RS256" or enc[0] is not None or bool(set(o["claims"] or ()) & set(case["hostile"])))


SUBS = [Sub("idtokens", cases, idtokens, 900, rule=RULE, ids=True)]
