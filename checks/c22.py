"""C22: DPoP proofs bind tokens to the key that proved itself."""
import base64
import hashlib
import json

from hypothesis import strategies as st

from pbt import hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

from cryptojwt.jwe.jwe import JWE
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import SIGNER_ALGS

RULE = ("a case draws server flavour, token format, the listed proof algorithms and a history of logins, code exchanges and refreshes, each with a proof by one of eight keys that is "
        "right or has one of some thirty defects; non-trivial when a proof was refused for a defect other than being absent, or a grant saw proofs by two keys")

ALGS = ["RS256", "RS384", "RS512", "PS256", "PS384", "ES256", "ES384", "ES512"]
URL = "https://op.example.com/token"
KEYS = [("client0", "RSA"), ("client0", "EC"), ("client1", "RSA"), ("client1", "EC"), ("client2", "EC"), ("attacker", "RSA"), ("attacker", "EC"), ("server", "P-384")]
DEFECTS = ["absent", "empty", "junk", "two parts", "jwe", "payload array", "header array", "typ missing", "typ jwt", "typ other", "jti missing", "iat missing", "iat text", "htm missing",
           "htu missing", "jwk missing", "foreign signature", "foreign jwk", "flip header", "flip payload", "flip signature", "no signature", "alg none", "alg none signed", "alg oct",
           "alg unlisted", "alg other", "htu slash", "htu host", "htu path", "htu query", "htu prefix", "htu longer", "htu http", "htu list", "htm get", "htm put", "htm post2", "htm empty",
           "htm list", "jwk oct", "jwk text", "jwk empty", "key in payload unsigned"]


def cases():
    fx = st.fixed_dictionaries
    key = st.integers(0, len(KEYS) - 1)
    attempt = fx({"op": st.just("try"), "n": st.integers(0, 9), "key": key, "other": key, "alg": st.integers(0, 5), "defect": st.sampled_from(["-", "-"] + DEFECTS),
                  "p": st.integers(0, 2000), "ch": st.integers(0, 63), "extra": st.sampled_from(["-", "-", "jwk in payload", "own claims", "alg in payload", "param"]),
                  "auth": st.sampled_from(["post", "basic"])})
    good = fx({"op": st.just("try"), "n": st.integers(0, 9), "key": key, "other": key, "alg": st.integers(0, 5), "defect": st.just("-"), "p": st.just(0), "ch": st.just(0),
               "extra": st.sampled_from(["-", "jwk in payload", "own claims", "alg in payload", "param"]), "auth": st.sampled_from(["post", "basic"])})
    login = fx({"op": st.just("login"), "c": st.integers(0, 1), "rt": st.sampled_from(["code", "code", "code token"])})
    op = st.one_of(attempt, attempt, attempt, good, login)
    return fx({"flavour": st.sampled_from(["oidc", "oidc", "oauth2"]), "format": st.sampled_from(["jwt", "jwt", "opaque"]),
               "algs": st.sampled_from([None, ["RS256"], ["ES256"], ["RS256", "ES256"], ["ES256", "ES384", "PS256"], ALGS, ALGS]), "refresh": st.booleans(),
               "ops": hist.sized_lists(op, 1, 14)})


def b64(x):
    return base64.urlsafe_b64encode(x).rstrip(b"=").decode()


def get_key(i):
    who, ty = KEYS[i]
    kj = ops.keyjar(who)
    if ty == "P-384":
        return [k for k in kj.get_signing_key("EC", issuer_id="") if k.crv == "P-384"][0]
    return [k for k in kj.get_signing_key(ty, issuer_id="") if ty == "RSA" or k.crv == "P-256"][0]


def fits(key, alg):
    if key.kty == "RSA":
        return alg[:2] in ("RS", "PS")
    return alg == {"P-256": "ES256", "P-384": "ES384"}[key.crv]


def public(key):
    d = key.serialize(private=False)
    return {k: v for k, v in d.items() if k in ("kty", "n", "e", "crv", "x", "y")}


def thumbprint(key):
    return b64(hashlib.sha256(json.dumps(public(key), sort_keys=True, separators=(",", ":")).encode()).digest())


def sign(header, payload, key, alg):
    msg = b64(json.dumps(header).encode()) + "." + b64(json.dumps(payload).encode())
    k = key.key if isinstance(key, SYMKey) else key.private_key()
    return msg + "." + b64(SIGNER_ALGS[alg].sign(msg.encode(), k))


def b64flip(s, p, ch):
    """Another value for one character, such that the decoded bytes differ."""
    if len(s) < 2:
        return s + "AA"
    i = p % (len(s) - 1)
    c = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"[ch]
    if c == s[i]:
        c = "A" if c != "A" else "B"
    return s[:i] + c + s[i + 1:]


def make(o, listed):
    """The proof; whether it is one that must be accepted; key."""
    key, other = get_key(o["key"]), get_key(o["other"])
    mine = [a for a in ALGS if fits(key, a)]
    ok_algs = [a for a in mine if a in listed]
    d = o["defect"]
    alg = ok_algs[o["alg"] % len(ok_algs)] if ok_algs else mine[0]
    good = bool(ok_algs)
    header = {"typ": "dpop+jwt", "alg": alg, "jwk": public(key)}
    payload = {"jti": f"jti{o['p']}{o['n']}", "htm": "POST", "htu": URL, "iat": CLOCK.now}
    if o["extra"] == "jwk in payload":
        payload["jwk"] = public(other)
    elif o["extra"] == "own claims":
        payload.update({"sub": "x", "cnf": {"jkt": thumbprint(other)}, "dpop_jkt": thumbprint(other)})
    elif o["extra"] == "alg in payload":
        payload.update({"alg": "ES256", "typ": "dpop+jwt"})
    if d == "-":
        return sign(header, payload, key, alg), good, key
    h, p = dict(header), dict(payload)
    if d == "absent":
        return None, False, key
    if d == "empty":
        return "", False, key
    if d == "junk":
        return ["x", "a.b.c", "....", "null", "{}", "é"][o["p"] % 6], False, key
    if d == "two parts":
        return sign(h, p, key, alg).rsplit(".", 1)[0], False, key
    if d == "jwe":
        enc = [k for k in ops.keyjar("server").get_issuer_keys("") if k.use == "enc"]
        return JWE(sign(h, p, key, alg), alg="RSA-OAEP", enc="A128CBC-HS256", cty="JWT").encrypt(keys=enc), False, key
    if d == "payload array":
        return sign(h, [p], key, alg), False, key
    if d == "header array":
        return sign([h], p, key, alg), False, key
    name, _, what = d.partition(" ")
    if name in ("typ", "jti", "iat", "htm", "htu", "jwk") and what == "missing":
        (h if name in ("typ", "jwk") else p).pop(name)
        if name in ("typ", "jwk"):
            p[name] = header[name]      # only the header counts
    elif d == "typ jwt":
        h["typ"] = "JWT"
    elif d == "typ other":
        h["typ"] = p["typ"] = ["at+jwt", "dpop", "DPOP+JWS", ""][o["p"] % 4]
    elif d == "iat text":
        p["iat"] = "now"
    elif d == "foreign signature":
        if o["key"] == o["other"] or not fits(other, alg):
            other = get_key((o["key"] + 2) % 4 if o["key"] < 4 else 3 if key.kty == "EC" else 0)
        if key.kty == "EC" and key.crv == "P-384":
            return sign(h, p, key, alg)[:-9] + "A" * 9, False, key
        return sign(h, p, other, alg), False, key
    elif d == "foreign jwk":
        # the proof was made by key, the header then replaced
        if o["key"] == o["other"]:
            other = get_key((o["key"] + 1) % len(KEYS))
        s = sign(h, p, key, alg).split(".")
        h["jwk"] = public(other)
        return b64(json.dumps(h).encode()) + "." + s[1] + "." + s[2], False, key
    elif name == "flip":
        s = sign(h, p, key, alg).split(".")
        i = ("header", "payload", "signature").index(what)
        s[i] = b64flip(s[i], o["p"], o["ch"])
        return ".".join(s), False, key
    elif d == "no signature":
        return sign(h, p, key, alg).rsplit(".", 1)[0] + ".", False, key
    elif d == "alg none":
        h["alg"] = "none"
        return b64(json.dumps(h).encode()) + "." + b64(json.dumps(p).encode()) + ".", False, key
    elif d == "alg none signed":
        s = sign(h, p, key, alg)
        h["alg"] = ["none", "None", "NONE"][o["p"] % 3]
        return b64(json.dumps(h).encode()) + "." + b64(json.dumps(p).encode()) + "." + s.rsplit(".", 1)[1], False, key
    elif d in ("alg oct", "jwk oct"):
        k = SYMKey(key=b"0123456789abcdef0123456789abcdef")
        h["alg"] = "HS256"
        h["jwk"] = {"kty": "oct", "k": b64(b"0123456789abcdef0123456789abcdef")}
        if d == "alg oct":
            h["jwk"] = public(key)
            k = SYMKey(key=json.dumps(public(key)).encode())
        return sign(h, p, k, "HS256"), False, key
    elif d == "alg unlisted":
        a = [x for x in mine if x not in listed]
        if not a:
            return sign(h, p, key, alg), good, key
        h["alg"] = a[o["p"] % len(a)]
        return sign(h, p, key, h["alg"]), False, key
    elif d == "alg other":
        # says one algorithm, made with another one
        a = [x for x in mine if x != alg]
        h["alg"] = a[o["p"] % len(a)] if a else "RS256"
        return sign(h, p, key, alg), False, key
    elif d == "htu list":
        p["htu"] = [URL, "https://rs.example.com/"][:1 + o["p"] % 2]
    elif name == "htu":
        p["htu"] = {"slash": URL + "/", "host": "https://rs.example.com/token", "path": "https://op.example.com/userinfo", "query": URL + "?x=1", "prefix": URL[:-1],
                    "longer": URL + "s", "http": URL.replace("https", "http")}[what]
    elif d == "htm list":
        p["htm"] = ["POST", "GET"][:1 + o["p"] % 2]
    elif name == "htm":
        p["htm"] = {"get": "GET", "put": "PUT", "post2": "POSTS", "empty": ""}[what]
    elif d == "jwk text":
        h["jwk"] = ["x", 5, [], [public(key)]][o["p"] % 4]
    elif d == "jwk empty":
        h["jwk"] = [{}, {"kty": key.kty}, {"kty": "XX"}][o["p"] % 3]
    elif d == "key in payload unsigned":
        # signed by the key of the payload, not by the one of the header
        if o["key"] == o["other"]:
            other = get_key((o["key"] + 1) % len(KEYS))
        a = [x for x in ALGS if fits(other, x)][0]
        p["jwk"] = public(other)
        h["alg"] = a
        return sign(h, p, other, a), False, key
    return sign(h, p, key, alg), False, key


def run(case, rec):
    flavour = case["flavour"]
    conf = ops.base_conf(flavour, token_format=case["format"])
    kw = {} if case["algs"] is None else {"dpop_signing_alg_values_supported": list(case["algs"])}
    conf["add_on"] = dict(conf.get("add_on") or {}, dpop={"function": "oidcop.oauth2.add_on.dpop.add_support", "kwargs": kw})
    listed = case["algs"] or ["RS256"]
    clients = [ops.client_conf(0), ops.client_conf(1)]
    op = ops.OP(conf, clients=clients, flavour=flavour)
    check(op.ctx.provider_info.get("dpop_signing_alg_values_supported") == listed, "the proof algorithms are not published")
    live = []       # [kind, client, value, keys seen by the grant]

    def issued():
        return sum(len(v.issued_token) for v in op.mngr.db.values() if hasattr(v, "issued_token"))

    def login(o):
        rt = o["rt"]
        scope = ["openid", "offline_access"] if flavour == "oidc" else ["profile"]
        extra = {} if flavour == "oidc" else {"nonce": None}
        r = ops.authorize(op, clients[o["c"]], response_type=rt, scope=scope, **extra)
        check(r.ok and r.args.get("code"), lambda: f"login: {r!r}")
        live.append(["code", o["c"], r.args["code"], set()])

    def attempt(o):
        if not live:
            login({"c": 0, "rt": "code"})
        e = live[o["n"] % len(live)]
        kind, c, value, seen = e
        cl = clients[c]
        proof, good, key = make(o, listed)
        req = ops.code_request(cl, value) if kind == "code" else ops.refresh_request(cl, value)
        headers = {}
        if o["auth"] == "basic":
            req.pop("client_secret")
            headers["authorization"] = ops.basic_header(cl["client_id"], cl["client_secret"])
        if o["extra"] == "param":
            req["dpop_jkt"] = thumbprint(get_key(o["other"]))
        if proof is not None:
            headers["dpop"] = proof
        n = issued()
        pk = {"issue_refresh": True} if kind == "code" and case["refresh"] else {}
        r = op.call("token", req, {"headers": headers, "url": URL, "method": "POST"}, **pk)
        if not good:
            check(not r.ok and not (r.http and "access_token" in str(r.http.get("response"))), lambda: f"{kind} served with a proof that is {o['defect']} (listed {listed}): {r!r}")
            check(issued() == n, lambda: f"tokens were issued on a refused request, proof is {o['defect']}")
            rec.label("refused: " + (o["defect"] if o["defect"] != "-" else "alg not listed"))
            if o["defect"] != "absent":
                rec.nontrivial()
            return
        check(r.ok, lambda: f"{kind} request with a proper proof is refused: {r!r}")
        jkt = thumbprint(key)
        check(str(r.args.get("token_type")).lower() == "dpop", lambda: f"token_type {r.args.get('token_type')}")
        at = r.args["access_token"]
        if case["format"] == "jwt":
            p = ops.jwt_payload(at)
            check(p.get("cnf") == {"jkt": jkt}, lambda: f"{kind}: cnf of the token is {p.get('cnf')}, the key has {jkt}")
        i = ops.introspect(op, cl, at)
        check(i.ok and i.args["active"], lambda: f"introspection {i!r}")
        check(str(i.args.get("token_type")).lower() == "dpop", lambda: f"introspection: token_type {i.args.get('token_type')}")
        if "cnf" in i.args:
            check(i.args["cnf"] == {"jkt": jkt}, lambda: f"introspection: cnf {i.args['cnf']}")
        seen.add(jkt)
        if len(seen) > 1:
            rec.nontrivial()
            rec.label("two keys in a grant")
        rec.label(f"{kind} bound")
        if kind == "code":
            live.remove(e)
        rt = r.args.get("refresh_token")
        if rt:
            if case["format"] == "jwt":
                p = ops.jwt_payload(rt)
                check(p.get("cnf", {"jkt": jkt}) == {"jkt": jkt}, lambda: f"cnf of the refresh token is {p.get('cnf')}, the key has {jkt}")
            if kind == "refresh":
                live.remove(e)
            live.append(["refresh", c, rt, seen])
        elif kind == "refresh":
            live.remove(e)

    for o in case["ops"]:
        if o["op"] == "login":
            login(o)
        else:
            attempt(o)


SUBS = [Sub("proofs", cases, run, quick=900, ids=True)]
