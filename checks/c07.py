"""C07: only a client that proves itself is authenticated."""
import base64
import json
from urllib.parse import quote_plus

from cryptojwt.jwe.jwe import JWE
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import JWS
from hypothesis import strategies as st

from pbt import hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

RULE = ("a case is an endpoint with a set of authentication methods, clients with various secrets, keys and expiry, and "
        "a sequence of requests whose credentials are right, wrong, foreign, expired, replayed, misaddressed or mixed; "
        "non-trivial when the case holds a request that must be refused although its credentials look like a proof, or a "
        "correct proof of a secret with special characters; sub 'other': bearer tokens, request objects and secrets mixed at five endpoints, non-trivial when something was presented")

METHODS = ["client_secret_post", "client_secret_basic", "client_secret_jwt", "private_key_jwt"]
HS = ["HS256", "HS384", "HS512"]
PK = ["RS256", "PS256", "ES256", "RS512"]
JWT_BEARER = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
ENDPOINTS = ["token", "introspection", "pushed_authorization"]
SKEW = 15  # clock skew the JWT layer tolerates
SECRETS = ["s3cret-%d-0123456789abcdef0123456789abcdef", "col:on-%d-0123456789abcdef0123456789ab",
           "per%%cent+plus sp-%d-0123456789abcdef01", "ünïcödé-%d-0123456789abcdef0123456789ab",
           "a=b&c=d-%d-0123456789abcdef0123456789abc"]


JWT_MUTS = [("signer", ["next", "attacker", "server"]), ("iss", ["next", "unknown", "none"]), ("sub", ["next"]),
            ("aud", ["other", "both", "issuer", "foreign", "evil-prefix", "none"]), ("exp", [-1, -16, -100, -100000]),
            ("jti", ["old"]), ("sig", ["none", "strip", "flip", "payload", "jwk", "jwe", "jwe-cty"])]


def cred():
    return st.one_of(
        st.fixed_dictionaries({"k": st.just("secret"), "via": st.sampled_from(["post", "basic"]),
                               "who": st.integers(0, 2),
                               "mut": st.sampled_from(["ok", "ok", "ok", "ok", "ok", "other", "trunc", "case", "empty", "ext", "space",
                                                       "absent", "b64junk", "unknown"])}),
        st.builds(lambda base, muts: dict(base, **dict(muts)),
                  st.fixed_dictionaries({
                      "k": st.just("jwt"), "who": st.integers(0, 2), "signer": st.just("self"),
                      "kind": st.sampled_from(["HS", "PK", "PK"]), "alg": st.integers(0, 3), "iss": st.just("self"),
                      "sub": st.just("self"), "aud": st.sampled_from(["here", "here", "list", "both"]),
                      "exp": st.sampled_from([300, 60, 5000, 100000]), "jti": st.just("fresh"), "sig": st.just("ok")}),
                  st.lists(st.one_of(*[st.tuples(st.just(k), st.sampled_from(v)) for k, v in JWT_MUTS]), max_size=2)),
        st.fixed_dictionaries({"k": st.just("replay"), "n": st.integers(0, 5), "other_ep": st.booleans()}),
    )


def cases():
    return st.fixed_dictionaries({
        "flavour": st.sampled_from(["oidc", "oidc", "oauth2"]),
        "ep": st.sampled_from(ENDPOINTS),
        "unset": st.sampled_from([False, False, False, True]),
        "methods": st.one_of(st.permutations(METHODS), st.lists(st.sampled_from(METHODS), min_size=1, max_size=4, unique=True)),
        "expiry": st.lists(st.sampled_from([None, None, 0, 1000, 1000, 5, -5]), min_size=3, max_size=3),
        "secrets": st.lists(st.integers(0, len(SECRETS) - 1), min_size=3, max_size=3),
        "keys": st.lists(st.sampled_from([True, True, True, False]), min_size=3, max_size=3),
        # the same assertion again, after some time and other requests
        "again": st.one_of(st.none(), st.tuples(st.sampled_from([0, 1, 299, 301, 601, 3601, 4900]), st.booleans(), st.booleans()).map(list)),
        "ops": hist.sized_lists(st.fixed_dictionaries({
            "op": st.sampled_from(["req", "req", "req", "req", "req", "advance"]), "dt": st.sampled_from([1, 10, 400, 2000]),
            "creds": st.lists(cred(), min_size=0, max_size=2), "cid": st.sampled_from(["own", "own", "own", "next", "absent"])}), 1, 7)})


def script(case):
    again = case["again"]
    good = {"k": "jwt", "who": 0, "signer": "self", "kind": "HS", "alg": 0, "iss": "self", "sub": "self", "aud": "both", "exp": 5000, "jti": "fresh", "sig": "ok"}
    one = {"op": "req", "dt": 1, "creds": [good], "cid": "own"}
    if again is None:
        return case["ops"]
    out = [one, {"op": "advance", "dt": again[0], "creds": [], "cid": "own"}]
    if again[1]:
        out += [one]
    return out + [{"op": "req", "dt": 1, "creds": [{"k": "replay", "n": 0, "other_ep": again[2]}], "cid": "own"}] + case["ops"]


def b64(b):
    return base64.urlsafe_b64encode(b).decode().rstrip("=")


def build_jwt(case, c, clients, ep_url, other_url, op, jtis, n):
    me = clients[c["who"]]
    names = [f"client{i}" for i in range(3)]
    src = {"self": c["who"], "next": (c["who"] + 1) % 3}
    cid = {"self": me["client_id"], "next": clients[(c["who"] + 1) % 3]["client_id"], "unknown": "nobody"}
    now = CLOCK.now
    pl = {"iat": int(now), "exp": int(now) + c["exp"]}
    if c["iss"] != "none":
        pl["iss"] = cid[c["iss"]]
    pl["sub"] = cid[c["sub"]]
    aud = {"here": ep_url, "list": ["https://x.example", ep_url], "both": [other_url, ep_url], "other": other_url, "issuer": op.ctx.issuer,
           "foreign": "https://evil.example/token", "evil-prefix": ep_url + "/x", "none": None}[c["aud"]]
    if aud is not None:
        pl["aud"] = aud
    fresh = True
    if c["jti"] == "old" and jtis:
        pl["jti"] = jtis[0]
        fresh = (pl.get("iss"), pl["jti"]) not in case["_seen"]
        c = dict(c, _maybe=(pl.get("iss"), pl["jti"]) in case["_maybe"])
    else:
        pl["jti"] = f"jti-{n}"
    jtis.append(pl["jti"])
    if c["kind"] == "HS":
        alg = HS[c["alg"] % 3]
        if c["signer"] in src:
            k = SYMKey(key=clients[src[c["signer"]]]["client_secret"].encode())
            k.alg = alg
        else:
            k = SYMKey(key=b"attacker-secret-0123456789abcdef-0123456789abcdef0123456789abcdef")
        keys = [k]
    else:
        alg = PK[c["alg"] % 4]
        nm = names[src[c["signer"]]] if c["signer"] in src else c["signer"]
        keys = [k for k in ops.keyjar(nm).get_signing_key(
            "EC" if alg.startswith("ES") else "RSA", issuer_id="")]
    hdr = {}
    if c["sig"] == "jwk":
        akey = ops.keyjar("attacker").get_signing_key("RSA", issuer_id="")
        alg, keys = "RS256", akey
        hdr = {"jwk": ops.public_jwks("attacker")["keys"][0]}
    body = json.dumps(pl)
    if c["sig"] == "none":
        tok = b64(json.dumps({"alg": "none"}).encode()) + "." + b64(body.encode()) + "."
    elif c["sig"].startswith("jwe"):
        # encrypted to the server's public key, not signed by anybody
        ek = [k for k in ops.keyjar("server").get_encrypt_key("RSA", issuer_id="")]
        tok = JWE(body.encode(), alg="RSA-OAEP", enc="A128CBC-HS256",
                  **({"cty": "JWT"} if c["sig"] == "jwe-cty" else {})).encrypt(keys=ek)
    else:
        tok = JWS(body, alg=alg, **hdr).sign_compact(keys=keys)
        if c["sig"] == "strip":
            tok = tok.rsplit(".", 1)[0] + "."
        elif c["sig"] == "flip":
            h, p, s = tok.split(".")
            raw = bytearray(base64.urlsafe_b64decode(s + "=" * (-len(s) % 4)))
            raw[len(raw) // 2] ^= 1
            tok = ".".join([h, p, b64(bytes(raw))])
        elif c["sig"] == "payload":
            h, p, s = tok.split(".")
            tok = ".".join([h, b64(json.dumps(dict(pl, extra="1")).encode()), s])
    method = "client_secret_jwt" if c["kind"] == "HS" and c["sig"] != "jwk" else "private_key_jwt"
    signer_ok = c["signer"] == "self" and c["sig"] == "ok"
    if method == "private_key_jwt" and not case["keys"][c["who"]]:
        signer_ok = False
    if c["iss"] == "next" and c["signer"] == "next" and c["sig"] == "ok":
        # a complete proof by the other client (its subject may differ)
        who = (c["who"] + 1) % 3
        signer_ok = method != "private_key_jwt" or case["keys"][who]
        iss_ok = True
    else:
        who = c["who"]
        iss_ok = c["iss"] == "self"
    # (what names the other endpoint is a proof there)
    there = bool(signer_ok and iss_ok and c["aud"] in ("other", "both") and c["exp"] >= -SKEW and fresh)
    proof = bool(signer_ok and iss_ok and c["aud"] in ("here", "list", "both") and c["exp"] >= -SKEW and fresh)
    # iss and sub must both be the client; a foreign subject is left open
    sure = proof and pl["sub"] == pl.get("iss") and not c.get("_maybe")
    return tok, method, who, proof, sure, (pl.get("iss"), pl["jti"]), int(now) + c["exp"], there


def run(case, rec):
    case = dict(case, _seen=set(), _maybe=set())
    if case["ep"] == "token" and case["unset"]:
        case["methods"] = sorted(METHODS)
    conf = ops.base_conf(flavour=case["flavour"])
    for e in ENDPOINTS:
        if e == "token" and case["unset"]:
            # the default
            conf["endpoint"][e]["kwargs"].pop("client_authn_method", None)
        else:
            conf["endpoint"][e]["kwargs"]["client_authn_method"] = list(case["methods"])
    clients = []
    start = CLOCK.now
    for i in range(3):
        kw = {"client_secret": SECRETS[case["secrets"][i]] % i}
        if case["expiry"][i] is not None:
            e = case["expiry"][i]
            kw["client_secret_expires_at"] = int(start) + e if e else 0
        if case["keys"][i]:
            kw["_keys"] = f"client{i}"
        clients.append(ops.client_conf(i, **kw))
    op = ops.OP(conf=conf, clients=clients, flavour=case["flavour"])
    ep = case["ep"]
    url = op.ep(ep).full_path
    other_name = ENDPOINTS[(ENDPOINTS.index(ep) + 1) % 3]
    other = op.ep(other_name).full_path
    sent, jtis = [], []
    victim = op.call("authorization", ops.auth_request(clients[0]), respond=False)
    check(victim.ok, lambda: f"authorization refused: {victim!r}")

    def allowed(t):
        return METHODS if t == "token" and case["unset"] else case["methods"]

    def alive(i):
        e = case["expiry"][i]
        return not e or int(start) + e >= CLOCK.now

    for n, o in enumerate(script(case)):
        if o["op"] == "advance":
            CLOCK.advance(o["dt"])
            victim = op.call("authorization", ops.auth_request(clients[0]), respond=False)
            check(victim.ok, lambda: f"authorization refused: {victim!r}")
            continue
        first = o["creds"][0] if o["creds"] else None
        who0 = (first.get("who", 0) if first else 0)
        req, hdrs = {}, {}
        proofs, sures, tried, special = set(), set(), 0, False
        target = ep
        for c in o["creds"]:
            if c["k"] == "secret":
                me = clients[c["who"]]
                s, cid = me["client_secret"], me["client_id"]
                good = c["mut"] == "ok"
                if c["mut"] == "other":
                    s = clients[(c["who"] + 1) % 3]["client_secret"]
                elif c["mut"] == "trunc":
                    s = s[:-1]
                elif c["mut"] == "case":
                    s = s.swapcase()
                elif c["mut"] == "empty":
                    s = ""
                elif c["mut"] == "ext":
                    s += "x"
                elif c["mut"] == "space":
                    s += " "
                elif c["mut"] == "unknown":
                    cid = "nobody"
                tried += 1
                if c["via"] == "post":
                    if "client_id" in req or "client_secret" in req:
                        continue
                    req["client_id"] = cid
                    if c["mut"] == "b64junk":
                        s = base64.b64encode(s.encode()).decode()
                    if c["mut"] != "absent":
                        req["client_secret"] = s
                    m = "client_secret_post"
                else:
                    if "authorization" in hdrs:
                        continue
                    if c["mut"] == "b64junk":
                        hdrs["authorization"] = "Basic %%%" + s.encode("ascii", "replace").decode()
                    elif c["mut"] == "absent":
                        hdrs["authorization"] = "Basic " + base64.b64encode(quote_plus(cid).encode()).decode()
                    else:
                        hdrs["authorization"] = "Basic " + base64.b64encode(
                            f"{quote_plus(cid)}:{quote_plus(s)}".encode()).decode()
                    m = "client_secret_basic"
                if good and m in allowed(target):
                    if alive(c["who"]):
                        proofs.add(c["who"])
                        sures.add(c["who"])
                        special = special or case["secrets"][c["who"]] > 0
            elif c["k"] == "jwt":
                if "client_assertion" in req:
                    continue
                tok, m, who, proof, sure, key, exp, open_ = build_jwt(case, c, clients, url, other, op, jtis, n)
                req["client_assertion"] = tok
                req["client_assertion_type"] = JWT_BEARER
                tried += 1
                sent.append((tok, m, who, proof, open_, key, exp))
                if proof and m in allowed(target) and alive(who):
                    proofs.add(who)
                    if sure and exp > CLOCK.now:
                        sures.add(who)
                case["_last"] = (key, m)
            elif c["k"] == "replay" and sent and "client_assertion" not in req:
                tok, m, who, proof, open_, key, exp = sent[c["n"] % len(sent)]
                req["client_assertion"] = tok
                req["client_assertion_type"] = JWT_BEARER
                tried += 1
                if o["creds"][0] is c and c["other_ep"]:
                    target = other_name
                    here = open_
                else:
                    here = proof
                if here and key not in case["_seen"] and m in allowed(target) and alive(who) and exp >= CLOCK.now - SKEW:
                    proofs.add(who)
                case["_last"] = (key, m)
        if "client_id" not in req and o["cid"] != "absent":
            req["client_id"] = clients[who0 if o["cid"] == "own" else (who0 + 1) % 3]["client_id"]
        if target == "token":
            req.update({"grant_type": "authorization_code", "code": victim.args["code"],
                        "redirect_uri": "https://rp0.example.com/cb"})
        elif target == "introspection":
            req["token"] = "whatever"
        else:
            base = ops.auth_request(clients[min(sures) if sures else who0])
            base.pop("client_id")
            req = dict(base, **req)
        conflicting = len(set(
            [x for x in (req.get("client_id"),) if x] + [clients[p]["client_id"] for p in sures])) > 1
        out = op.parse(target, req, {"headers": hdrs})
        if isinstance(out, ops.Outcome):
            got = None
            exc = out.exception
        else:
            got, exc = out.get("client_id"), None
        who = next((i for i, c in enumerate(clients) if c["client_id"] == got), None)
        seen_note = case.pop("_last", None)
        if got is not None:
            check(who is not None and who in proofs,
                  f"{target}: request was taken to come from {got!r} which proved nothing (proved: {sorted(proofs)})")
            rec.label("accepted")
            if special:
                rec.nontrivial()
            if target == "token":
                # a code of client 0 has been parsed; nothing is consumed before it is processed
                res = op.process(target, out, {"headers": hdrs})
                if who == 0:
                    rec.label("token-as-owner")
                    if res.ok:
                        victim = op.call("authorization", ops.auth_request(clients[0]), respond=False)
                        check(victim.ok, lambda: f"authorization refused: {victim!r}")
                else:
                    check(not res.ok, "a client redeemed the code of another one")
        else:
            if len(sures) == 1 and not conflicting and tried == 1:
                # one correct proof, nothing else: must be accepted as far as authentication goes
                if not (target == "token" and 0 not in sures):
                    check(False, f"{target}: correct proof of client {sorted(sures)} refused: "
                                 f"{out.error} {out.exception!r} {out.args}")
            if tried:
                rec.nontrivial()
            rec.label("refused:" + (type(exc).__name__ if exc else str(out.error)))
        if seen_note is not None:
            case["_maybe"].add(seen_note[0])
            if got is not None and tried == 1:
                case["_seen"].add(seen_note[0])


# ------------------------------------------------- bearer tokens and request objects as what identifies a client
OTHER_EPS = ["introspection", "pushed_authorization", "token", "registration_read", "userinfo"]
OTHER_METHODS = ["bearer_header", "bearer_body", "request_param", "client_secret_post", "client_secret_basic"]


def other_cases():
    fx = st.fixed_dictionaries
    i = st.integers(0, 1)
    bearer = fx({"k": st.just("bearer"), "via": st.sampled_from(["header", "body"]), "tok": st.sampled_from(["at", "rat", "rat", "garbage", "empty", "code", "id"]), "who": i})
    ro = fx({"k": st.just("object"), "who": i, "signer": st.sampled_from(["self", "self", "self", "self", "next", "attacker", "none", "jwe", "jwe-cty", "secret", "attacker-secret", "nested"]),
             "iss": st.sampled_from(["self", "self", "self", "next", "none"]), "aud": st.sampled_from(["-", "issuer", "issuer", "here", "list", "foreign", "other"]),
             "exp": st.sampled_from([100, 100, 100, None, -100]), "jti": st.sampled_from([None, "new", "old"])})
    sec = fx({"k": st.just("secret"), "who": i, "ok": st.booleans()})
    cred = st.sampled_from(["bearer", "bearer", "object", "object", "secret"]).flatmap(lambda n: {"bearer": bearer, "object": ro, "secret": sec}[n])
    op = fx({"creds": st.lists(cred, min_size=0, max_size=2), "cid": st.sampled_from(["own", "own", "next", "absent"])})
    return fx({"ep": st.sampled_from(OTHER_EPS), "methods": st.lists(st.sampled_from(OTHER_METHODS), min_size=1, max_size=4, unique=True), "ops": hist.sized_lists(op, 1, 6)})


def run_other(case, rec):
    ep, methods = case["ep"], case["methods"]
    conf = ops.base_conf()
    conf["endpoint"]["registration_api" if ep == "registration_read" else ep]["kwargs"]["client_authn_method"] = list(methods)
    static = [ops.client_conf(i, _keys=f"client{i}") for i in (0, 1)]
    op = ops.OP(conf=conf, clients=static)
    cid = [c["client_id"] for c in static]
    tok, spent = {"garbage": ["no-such-token", "a.b.c"], "empty": ["", ""], "rat": [], "at": [], "code": [], "id": []}, {}
    dyn = []
    for i, c in enumerate(static):
        r = op.call("registration", json.dumps({"redirect_uris": [f"https://rp{i}.example.org/cb"]}))
        check(r.ok, lambda: f"registration refused: {r!r}")
        dyn.append(r.args["client_id"])
        tok["rat"].append(r.args["registration_access_token"])
        a = op.call("authorization", ops.auth_request(c, response_type="code id_token token"))
        check(a.ok, lambda: f"authorization refused: {a!r}")
        for k, n in (("at", "access_token"), ("code", "code"), ("id", "id_token")):
            tok[k].append(a.args[n])
    names = dyn if ep == "registration_read" else cid
    if ep == "registration_read":
        static = [{"client_id": d, "client_secret": op.ctx.cdb[d]["client_secret"]} for d in dyn]
    for n, o in enumerate(case["ops"]):
        req, hdrs, proofs, sure, tried, keep, rats = {}, {}, set(), None, 0, None, []
        first = o["creds"][0]["who"] if o["creds"] else 0
        cidx = {"own": first, "next": 1 - first}.get(o["cid"])
        if cidx is not None:
            req["client_id"] = names[cidx]
        for c in o["creds"]:
            w, me = c["who"], static[c["who"]]
            if c["k"] == "bearer":
                t = tok[c["tok"]][w]
                if c["via"] == "header":
                    hdrs["authorization"] = "Bearer " + t
                else:
                    req["access_token"] = t
                good = ep == "userinfo" and c["tok"] == "at" and ("bearer_" + c["via"]) in methods
                if ep == "registration_read" and c["tok"] == "rat" and ("bearer_" + c["via"]) in methods:
                    rats.append(w)      # goes with what the request says in the end
                sure = w if good else sure
                # whose token it is is known before its kind is judged
                good = good or (ep == "userinfo" and c["tok"] in ("code", "id") and ("bearer_" + c["via"]) in methods)
            elif c["k"] == "secret":
                req.update(client_id=names[w], client_secret=me["client_secret"] if c["ok"] else static[1 - w]["client_secret"])
                cidx = w
                good = c["ok"] and "client_secret_post" in methods and ep not in ("userinfo", "registration_read")
                sure = w if good else sure
                good = c["ok"] and "client_secret_post" in methods
            else:
                if "request" in req:
                    continue
                now = int(CLOCK.now)
                iss = {"self": names[w], "next": names[1 - w], "none": None}[c["iss"]]
                body = {"client_id": names[w], "response_type": "code", "scope": "openid", "redirect_uri": f"https://rp{w}.example.com/cb", "nonce": "n", "state": "s", "iat": now}
                if iss:
                    body["iss"] = iss
                if c["exp"] is not None:
                    body["exp"] = now + c["exp"]
                jti = {None: None, "new": f"j{n}", "old": min(spent)[1] if spent else "j-"}[c["jti"]]
                if jti:
                    body["jti"] = jti
                aud = {"-": None, "issuer": ops.ISSUER, "here": op.ep(ep).full_path, "list": ["https://rs.example.org", ops.ISSUER], "foreign": "https://other.example.org", "other": "https://op.example.com.evil.org/"}[c["aud"]]
                if aud:
                    body["aud"] = aud if isinstance(aud, list) else [aud]
                text = json.dumps(body)
                sg = c["signer"]
                if sg in ("self", "next", "attacker", "nested"):
                    kn = {"self": f"client{w}", "nested": f"client{w}", "next": f"client{1 - w}", "attacker": "attacker"}[sg]
                    jw = JWS(text, alg="RS256").sign_compact(ops.keyjar(kn).get_signing_key("RSA", issuer_id=""))
                elif sg in ("secret", "attacker-secret"):
                    jw = JWS(text, alg="HS256").sign_compact([SYMKey(key=me["client_secret"].encode() if sg == "secret" else b"attacker-secret-0123456789abcdef-0123456789abcdef0123456789abcdef")])
                elif sg == "none":
                    jw = b64(json.dumps({"alg": "none"}).encode()) + "." + b64(text.encode()) + "."
                else:
                    jw = None
                if sg.startswith("jwe") or sg == "nested":
                    ek = list(ops.keyjar("server").get_encrypt_key("RSA", issuer_id=""))
                    jw = JWE((jw or text).encode(), alg="RSA-OAEP", enc="A128CBC-HS256", **({} if sg == "jwe" else {"cty": "JWT"})).encrypt(keys=ek)
                req["request"] = jw
                for k in ("response_type", "scope", "redirect_uri", "nonce"):
                    req.setdefault(k, body[k])
                has_keys = ep != "registration_read"    # clients that registered themselves have no other keys than their secret
                signer = None
                if (sg in ("self", "nested") and has_keys) or sg == "secret":
                    signer = w if c["iss"] == "self" else None
                elif sg == "next" and has_keys and c["iss"] == "next":
                    signer = 1 - w
                good = signer is not None and c["aud"] not in ("foreign", "other") and c["exp"] != -100 and spent.get((signer, jti)) is not True and "request_param" in methods
                if good:
                    proofs.add(signer)
                    if sg == "self" and c["iss"] == "self" and ep in ("introspection", "pushed_authorization") and c["aud"] in ("issuer", "-") and cidx in (None, w) and (signer, jti) not in spent:
                        sure = w
                if signer is not None and jti:
                    keep = (signer, jti)
                good = False
            tried += 1
            if good:
                proofs.add(w)
        for w in rats:
            if req.get("client_id") == names[w]:
                proofs.add(w)
                sure = w
        if ep == "token":
            req.update(grant_type="authorization_code", code=tok["code"][0], redirect_uri="https://rp0.example.com/cb")
        elif ep == "introspection":
            req["token"] = "whatever"
        elif ep == "pushed_authorization":
            for k, v in {"response_type": "code", "scope": "openid", "redirect_uri": f"https://rp{cidx if cidx is not None else first}.example.com/cb", "nonce": "n", "state": "s"}.items():
                req.setdefault(k, v)
        out = op.parse(ep, req, {"headers": hdrs})
        if isinstance(out, ops.Outcome):
            got = None
        else:
            got = out.get("client_id") or None
        who = names.index(got) if got in names else None
        if got is not None:
            check(who is not None and who in proofs, lambda: f"{ep} with {methods}: request was taken to come from {got!r} which proved nothing (proved: {sorted(proofs)})")
            rec.label("accepted")
            rec.nontrivial()
            if ep == "registration_read":
                res = op.process(ep, out, {"headers": hdrs})
                check(not res.ok or not res.args or res.args.get("client_id") in (None, got), lambda: f"what was registered for another client is shown: {res.args.get('client_id')}")
        else:
            rec.label("refused")
            if tried:
                rec.nontrivial()
            if tried == 1 and sure is not None:
                check(False, lambda: f"{ep} with {methods}: the proof of {names[sure]!r} is refused: {out!r}")
        if keep and "request_param" in methods:
            # with something else in the request that may be what was looked at
            spent[keep] = spent.get(keep) is True or (got is not None and tried == 1)


SUBS = [Sub("authn", cases, run, quick=2000, ids=True), Sub("other", other_cases, run_other, quick=600)]
