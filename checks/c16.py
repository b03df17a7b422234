"""C16: client registration accepts only sound metadata and stores what it answers."""
import json
from urllib.parse import parse_qs, urlsplit

from hypothesis import strategies as st

from pbt import hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

RULE = ("a case configures what the server offers and sends up to six registration requests built from sound and unsound members "
        "(plus members only the server may set), reads back with right and wrong registration access tokens, logs the clients in "
        "and moves the clock; non-trivial when a refused registration and an accepted one, or two clients, were compared")

RURIS_WEB = ["https://rp.example.org/cb", "https://rp.example.org/cb?a=1&b=2&a=3", "https://rp.example.org:8443/x/y?k=%20z&e=",
             "HTTPS://rp.example.org/cb", "https://localhost/cb", "https://rp.example.org/cb2?next=https%3A%2F%2Fx"]
RURIS_HTTP = ["http://rp.example.org/cb", "http://localhost/cb", "Http://rp.example.org/cb?x=1"]
RURIS_NATIVE = ["com.example.app:/cb", "com.example.app://cb?x=y", "http://localhost:7000/cb", "http://127.0.0.1/cb", "http://localhost/cb?q=1"]
RURIS_BAD = ["https://rp.example.org/cb#frag", "https://rp.example.org/cb#", "com.example.app:/cb#x", "http://localhost/#a"]
RURIS_ODD = ["cb", "/cb", "//rp.example.org/cb", "http://localhost.evil.org/cb", "http://localhost@evil.org/cb", "http://127.0.0.1.evil.org/",
             "http://localhostx/cb", "http://127.0.0.1@evil.org:80/cb", "http://localhost:80@evil.org/cb", "http://localhost.", "http://evil.org/localhost",
             "https://localhost.evil.org/cb", "http://evil.org/?localhost", "http://127.0.0.10/cb", "http://[::1]/cb", "https://", "http:///localhost/cb",
             "ftp://rp.example.org/cb", "http://0.0.0.0/cb", "http://10.0.0.1/cb", "https://127.0.0.1/cb"]
SIG = ["RS256", "RS384", "RS512", "ES256", "ES384", "HS256", "HS384", "PS256", "PS512"]
ALGPARAMS = {
    "id_token_signed_response_alg": ("id_token_signing_alg_values_supported", SIG + ["none", "XX256", "rs256"]),
    "userinfo_signed_response_alg": ("userinfo_signing_alg_values_supported", SIG + ["none", "RS25"]),
    "request_object_signing_alg": ("request_object_signing_alg_values_supported", SIG + ["none", "S256"]),
    "token_endpoint_auth_signing_alg": ("token_endpoint_auth_signing_alg_values_supported", SIG + ["none"]),
    "token_endpoint_auth_method": ("token_endpoint_auth_methods_supported",
                                   ["client_secret_post", "client_secret_basic", "client_secret_jwt", "private_key_jwt", "none",
                                    "tls_client_auth", "client_secret"]),
    "subject_type": ("subject_types_supported", ["public", "pairwise", "other", "pair"]),
    "id_token_encrypted_response_alg": ("id_token_encryption_alg_values_supported", ["RSA-OAEP", "A128KW", "RSA1_5", "dir"]),
    "userinfo_encrypted_response_alg": ("userinfo_encryption_alg_values_supported", ["RSA-OAEP", "ECDH-ES", "RSA1_5"]),
    "request_object_encryption_alg": ("request_object_encryption_alg_values_supported", ["RSA-OAEP", "RSA1_5"]),
    "id_token_encrypted_response_enc": ("id_token_encryption_enc_values_supported", ["A128GCM", "A128CBC-HS256", "XX"]),
    "userinfo_encrypted_response_enc": ("userinfo_encryption_enc_values_supported", ["A256GCM", "XX"]),
    "request_object_encryption_enc": ("request_object_encryption_enc_values_supported", ["A256GCM", "YY"]),
}
RTYPES = ["code", "token", "id_token", "code token", "id_token code", "code id_token", "id_token token", "code id_token token", "none",
          "code code2", "device"]
GTYPES = ["authorization_code", "implicit", "refresh_token", "password", "client_credentials", "urn:ietf:params:oauth:grant-type:jwt-bearer"]
RESTRICT = {
    "id_token_signing_alg_values_supported": ["RS256", "ES256"],
    "userinfo_signing_alg_values_supported": ["ES256"],
    "request_object_signing_alg_values_supported": ["RS256"],
    "token_endpoint_auth_signing_alg_values_supported": ["ES256", "HS256"],
    "subject_types_supported": ["public"],
    "response_types_supported": ["code", "code id_token"],
    "grant_types_supported": ["authorization_code"],
    "token_endpoint_auth_methods_supported": ["client_secret_basic"],
}
EXTRA = {"client_secret": "chosen-by-client-0123456789", "client_secret_expires_at": 9999999999, "client_id_issued_at": 1, "client_salt": "mine",
         "registration_access_token": "mine-too", "registration_client_uri": "https://evil.example.org/", "allowed_scopes": ["admin"],
         "scopes_to_claims": {"admin": ["secret"]}, "add_claims": {"always": {"userinfo": ["secret"]}}, "token_usage_rules": {},
         "si_redirects": ["https://x"], "sector_id": "https://x", "auth_method": {}, "pkce_essential": False, "foo": "bar",
         "client_id": "client_9", "sub_func": "x"}
SAFE = {"contacts": ["ops@example.org"], "client_name": "Näme", "client_uri": "https://rp.example.org/home", "default_max_age": 3600,
        "require_auth_time": True, "initiate_login_uri": "https://rp.example.org/init", "post_logout_redirect_uri": "https://rp.example.org/plo?x=1",
        "frontchannel_logout_uri": "https://rp.example.org/fc", "frontchannel_logout_session_required": True,
        "backchannel_logout_uri": "https://rp.example.org/bc", "request_uris": ["https://rp.example.org/r#h1", "https://rp.example.org/r2"],
        "logo_uri": "https://rp.example.org/logo.png", "policy_uri": "https://rp.example.org/pol", "tos_uri": "https://rp.example.org/tos",
        "organization_name": "Org"}
PAGES = ["logo_uri", "policy_uri", "tos_uri"]
ELSEWHERE = ["https://rp.example.org:8443/p", "http://rp.example.org/p", "https://evil.example/p", "https://rp.example.org.evil.example/p", "https://xrp.example.org/p", "https://evil@rp.example.org/p", "//rp.example.org/p",
             "https://rp.example.org@evil.example/p"]
SECTORS = ["https://sector.example.org/good.json", "https://sector.example.org/bad.json", "https://sector.example.org/gone.json",
           "https://sector.example.org/garbage.json", "https://sector.example.org/near.json"]
# documents that almost list the redirect URIs of the request
NEAR = {"prefix": lambda us: [u[:-1] for u in us], "longer": lambda us: [u + "x" for u in us], "case": lambda us: [u.swapcase() for u in us],
        "slash": lambda us: [u + "/" for u in us], "base": lambda us: [u.split("?")[0] for u in us], "all but one": lambda us: us[:-1],
        "other path": lambda us: [u.rsplit("/", 1)[0] + "/elsewhere" for u in us], "empty": lambda us: [], "more": lambda us: ["https://other/cb"] + us}


def cases():
    def uris(pool):
        mixed = st.sampled_from([pool] * 6 + [RURIS_WEB, RURIS_NATIVE, RURIS_HTTP, RURIS_BAD, RURIS_ODD]).flatmap(st.sampled_from)
        good = st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True)
        odd = st.tuples(good, st.sampled_from(RURIS_ODD)).map(lambda x: x[0] + [x[1]])
        return st.one_of(good, good, good, odd, st.lists(mixed, min_size=1, max_size=3, unique=True))

    app = st.sampled_from([(None, RURIS_WEB), (None, RURIS_WEB), ("web", RURIS_WEB), ("native", RURIS_NATIVE), ("native", RURIS_NATIVE),
                           ("web", RURIS_WEB + RURIS_HTTP), ("desktop", RURIS_WEB)])
    appuris = app.flatmap(lambda x: st.tuples(st.just(x[0]), uris(x[1])))
    simple = [k for k in sorted(ALGPARAMS) if "crypt" not in k]
    algs = st.lists(st.sampled_from(simple * 3 + sorted(ALGPARAMS)).flatmap(
        lambda k: st.tuples(st.just(k), st.sampled_from(ALGPARAMS[k][1][:2] * 6 + ALGPARAMS[k][1][:5] * 2 + ALGPARAMS[k][1]))),
        max_size=2).map(dict)
    reg = st.fixed_dictionaries({
        "k": st.just("reg"), "sound": st.sampled_from([True, True, False]), "one": st.sampled_from([True, False, False]), "appuris": appuris, "algs": algs,
        "rts": st.one_of(st.none(), st.just(["code"]), st.none(), st.sampled_from([["id_token"], ["code id_token"], ["code", "id_token"]]), st.lists(st.sampled_from(RTYPES[:5] + RTYPES), min_size=1, max_size=3)),
        "gts": st.one_of(st.none(), st.none(), st.just(["authorization_code", "refresh_token"]), st.lists(st.sampled_from(GTYPES), min_size=1, max_size=3)),
        "acr": st.sampled_from([None] * 8 + [[ops.ACR_PW]] * 3 + [["urn:unknown"], [ops.ACR_PW, "urn:unknown"]]),
        "extra": st.lists(st.sampled_from(sorted(EXTRA)), max_size=3, unique=True),
        "page": st.sampled_from([SAFE["logo_uri"]] * 4 + ELSEWHERE), "safe": st.lists(st.sampled_from(sorted(SAFE)), max_size=4, unique=True),
        "sector": st.sampled_from([None] * 10 + SECTORS[:1] * 3 + SECTORS + SECTORS[4:] * 2), "near": st.sampled_from(sorted(NEAR)),
        "jwks": st.sampled_from([None] * 6 + ["client0", "client1"] * 2 + ["broken"])})
    read = st.fixed_dictionaries({"k": st.just("read"), "t": st.integers(0, 5), "c": st.integers(0, 5),
                                  "how": st.sampled_from(["ok", "ok", "cross", "cross", "wrong", "none", "prefix", "secret", "access"]), "via": st.sampled_from(["header", "header", "body"])})
    use = st.fixed_dictionaries({"k": st.just("use"), "c": st.integers(0, 5), "s": st.integers(0, 5)})
    tick = st.fixed_dictionaries({"k": st.just("tick"), "dt": st.sampled_from([1, 60, 499, 500, 501, 86400, 2592000])})
    return st.fixed_dictionaries({
        "body": st.booleans(), "restrict": st.lists(st.sampled_from(sorted(RESTRICT)), max_size=3, unique=True),
        "expires": st.sampled_from([None, 500, 500, "never"]),
        "ops": hist.sized_lists(st.one_of(reg, reg, reg, read, use, use, tick), 2, 14)})


def uri_key(u):
    p = urlsplit(u)
    return p.scheme, p.netloc, p.path, parse_qs(p.query, keep_blank_values=True)


def uri_ok(u, app, code_only):
    """Does this redirect URI obey the application type rules? None: left open"""
    if "#" in u:
        return False
    p = urlsplit(u)
    if app == "native":
        if not p.scheme:
            return False
        if p.scheme == "http":
            return p.hostname in ("localhost", "127.0.0.1")
        if p.scheme == "https":
            return False if p.hostname not in ("localhost", "127.0.0.1") else None
        return True
    if p.scheme == "https":
        return True if p.netloc else None
    if p.scheme == "http":
        return code_only
    return False


def judge(o, req, offered):
    """-> True accept, False refuse, None left open"""
    verdict = True
    app = req.get("application_type", "web")
    if app not in ("web", "native"):
        return False
    rts = req.get("response_types", ["code"])
    code_only = set(rts) == {"code"}
    for u in req["redirect_uris"]:
        ok = uri_ok(u, app, code_only)
        if ok is False:
            return False
        if ok is None or (urlsplit(u).scheme == "http" and app == "web" and "response_types" not in req) or (code_only and len(rts) > 1):
            verdict = None
    for k, (prov, _) in ALGPARAMS.items():
        if k in req and req[k] not in offered.get(prov, []):
            return False
    if req.get("subject_type") not in (None, "public", "pairwise"):
        return False
    have = [set(x.split()) for x in offered["response_types_supported"]]
    if any(set(x.split()) not in have for x in rts):
        return False
    if not set(req.get("grant_types", [])) <= set(offered["grant_types_supported"]):
        return False
    if not set(req.get("default_acr_values", [])) <= set(offered["acr_values_supported"]):
        return False
    for p in ("id_token_encrypted_response", "userinfo_encrypted_response", "request_object_encryption"):
        if p + "_enc" in req and p + "_alg" not in req:
            return False
        if p + "_alg" in req and p + "_enc" not in req and "A128CBC-HS256" not in offered[p.replace("_encrypted_response", "_encryption") + "_enc_values_supported"]:
            verdict = None
    s = req.get("sector_identifier_uri")
    if s == SECTORS[4]:
        if not set(req["redirect_uris"]) <= set(NEAR[o["near"]](req["redirect_uris"])):
            return False
    elif s and s != SECTORS[0]:
        return False
    hosts = {(urlsplit(u).scheme, urlsplit(u).netloc) for u in req["redirect_uris"]}
    for k in ("logo_uri", "policy_uri", "tos_uri"):
        if k in req and (urlsplit(req[k]).scheme, urlsplit(req[k]).netloc) not in hosts:
            return False  # pages on an origin the client doesn't use
    if isinstance(req.get("jwks"), dict) and not isinstance(req["jwks"].get("keys"), list):
        verdict = None
    return verdict


def soundest(o, req, offered):
    """Leave out what makes the request unsound."""
    r = {"redirect_uris": req["redirect_uris"]}
    for k, v in req.items():
        t = dict(r)
        t[k] = v
        if k == "application_type" or judge(o, t, offered) is not False:
            r = t
    if judge(o, r, offered) is False:
        r.pop("application_type", None)
    if judge(o, r, offered) is False:
        r["redirect_uris"] = RURIS_WEB[:1]
    return r


def registration(case, rec):
    conf = ops.base_conf()
    # the registration access token can be allowed to come in the body too
    conf["endpoint"]["registration_api"]["kwargs"]["client_authn_method"] = ["bearer_header", "bearer_body"] if case["body"] else ["bearer_header"]
    for r in case["restrict"]:
        v = RESTRICT[r]
        if r in ("id_token_signing_alg_values_supported",):
            conf["token_handler_args"]["id_token"]["kwargs"][r] = list(v)
        elif r == "token_endpoint_auth_methods_supported":
            conf["endpoint"]["token"]["kwargs"]["client_authn_method"] = list(v)
        else:
            conf["capabilities"][r] = list(v)
    kw = {}
    if case["expires"] == "never":
        kw["client_secret_expires"] = False
    elif case["expires"]:
        kw["client_secret_expires_in"] = case["expires"]
    conf["endpoint"]["registration"]["kwargs"].update(kw)
    op = ops.OP(conf)
    op.add_client(ops.client_conf(9))
    op.httpc.pages = {SECTORS[0]: json.dumps(RURIS_WEB + RURIS_HTTP + RURIS_NATIVE + RURIS_BAD + RURIS_ODD), SECTORS[1]: json.dumps(["https://other/cb"]),
                      SECTORS[3]: "<html>"}
    offered = dict(op.ctx.provider_info)
    clients, refused = [], 0

    def state():
        return (sorted(op.ctx.cdb), sorted(op.ctx.registration_access_token.items()), sorted(k for k in op.ctx.keyjar.owners() if len(op.ctx.keyjar.get_issuer_keys(k))))

    for n, o in enumerate(case["ops"]):
        if o["k"] == "tick":
            CLOCK.advance(o["dt"])
            continue
        if o["k"] == "reg":
            req = {"redirect_uris": list(o["appuris"][1])}
            if o["appuris"][0]:
                req["application_type"] = o["appuris"][0]
            req.update(o["algs"])
            for k, m in (("rts", "response_types"), ("gts", "grant_types"), ("acr", "default_acr_values"), ("sector", "sector_identifier_uri")):
                if o[k]:
                    req[m] = o[k] if isinstance(o[k], str) else list(o[k])
            for k in o["safe"]:
                req[k] = SAFE[k]
                if k in PAGES and o["page"] != SAFE["logo_uri"]:
                    req[k] = o["page"]
                elif k in PAGES and not any(u.startswith("https://rp.example.org/") for u in req["redirect_uris"]):
                    del req[k]
            if o["jwks"]:
                req["jwks"] = {"keys": "x"} if o["jwks"] == "broken" else ops.public_jwks(o["jwks"])
            if o["one"]:
                # nothing unsound about it, perhaps, but its redirect URIs
                req = dict(soundest(o, dict(req, redirect_uris=RURIS_NATIVE[:1] if req.get("application_type") == "native" else RURIS_WEB[:1]), offered),
                           redirect_uris=req["redirect_uris"])
            elif o["sound"]:
                req = soundest(o, req, offered)
            sent = dict(req)
            for k in o["extra"]:
                sent[k] = EXTRA[k]
            before = state()
            old = {c: json.dumps(op.ctx.cdb[c], sort_keys=True, default=str) for c in op.ctx.cdb}
            verdict = judge(o, req, offered)
            op.httpc.pages[SECTORS[4]] = json.dumps(NEAR[o["near"]](list(req["redirect_uris"])))
            out = op.call("registration", json.dumps(sent))
            for c in old:
                check(json.dumps(op.ctx.cdb.get(c), sort_keys=True, default=str) == old[c], lambda: "a registration changed another client")
            if not out.ok:
                check(verdict is not True, lambda: f"sound registration refused: {out!r}")
                check(state() == before, lambda: f"a refused registration left something behind: {[len(x) for x in state()]} was {[len(x) for x in before]}")
                rec.label("refused")
                refused += 1
                continue
            check(verdict is not False, lambda: f"unsound registration accepted: {req}, offered {case['restrict']}")
            rec.label("accepted", req.get("application_type", "web"))
            a = out.args.to_dict()
            cid = a["client_id"]
            check(cid and cid not in old and cid != EXTRA["client_id"], lambda: f"client id {cid} is not fresh")
            check(a.get("client_secret") and a["client_secret"] not in [c["client_secret"] for c in clients] + [EXTRA["client_secret"]],
                  "no fresh secret")
            exp = a.get("client_secret_expires_at")
            if case["expires"] == "never":
                check(not exp, lambda: f"secret expires {exp}, configured not to")
            else:
                check(exp == CLOCK.now + (case["expires"] or 2592000), lambda: f"secret expires {exp}, now {CLOCK.now}")
            check(a.get("client_id_issued_at") == CLOCK.now, "client_id_issued_at")
            check(a.get("registration_access_token") not in [None, "mine-too"] + [c["registration_access_token"] for c in clients],
                  "registration access token")
            check(urlsplit(a["registration_client_uri"]).netloc == "op.example.com" and
                  parse_qs(urlsplit(a["registration_client_uri"]).query) == {"client_id": [cid]}, "registration_client_uri")
            for k, v in req.items():
                got = a.get(k)
                if k in ("redirect_uris", "request_uris"):
                    ok = got is not None and [uri_key(x) + (urlsplit(x).fragment,) for x in got] == [uri_key(x) + (urlsplit(x).fragment,) for x in v]
                elif k == "post_logout_redirect_uri":
                    ok = got is not None and uri_key(got) == uri_key(v)
                else:
                    ok = got == v
                check(ok, lambda: f"registered {k} as {got!r}, asked for {v!r}")
            allowed = set(req) | {"client_id", "client_secret", "client_secret_expires_at", "client_id_issued_at", "registration_access_token",
                                  "registration_client_uri", "application_type", "response_types"}
            allowed |= {p.replace("_alg", "_enc") for p in req if p.endswith("_alg")}
            check(set(a) <= allowed, lambda: f"the answer has members nobody asked for: {sorted(set(a) - allowed)}")
            check(a["application_type"] == req.get("application_type", "web") and a["response_types"] == req.get("response_types", ["code"]),
                  "defaults")
            for k in o["extra"]:
                check(op.ctx.cdb[cid].get(k) != EXTRA[k] and a.get(k) != EXTRA[k], lambda: f"the client set its own {k}")
            a["_req"] = req
            clients.append(a)
            rec.nontrivial(refused > 0 or len(clients) > 1)
            continue
        if not clients:
            continue
        c = clients[o["c"] % len(clients)]
        if o["k"] == "read":
            t = clients[o["t"] % len(clients)]
            tok = {"ok": c["registration_access_token"], "cross": t["registration_access_token"], "wrong": "x" * 43, "none": None,
                   "prefix": c["registration_access_token"][:-1], "secret": c["client_secret"], "access": c["client_id"]}[o["how"]]
            hi, q, via = {"headers": {}}, {"client_id": c["client_id"]}, o.get("via", "header")
            if tok is not None and via == "body":
                q["access_token"] = tok
            elif tok is not None:
                hi["headers"]["authorization"] = "Bearer " + tok
            r = op.call("registration_read", q, http_info=hi)
            right = tok == c["registration_access_token"] and (via == "header" or case["body"])
            rec.label("read" if right else "misread")
            check(r.ok == right, lambda: f"reading with {o['how']} token: {r!r}")
            if right:
                d = r.args.to_dict()
                want = {k: v for k, v in c.items() if k != "_req"}
                check(d == want, lambda: f"read back {({k: (d.get(k), want.get(k)) for k in set(d) | set(want) if d.get(k) != want.get(k)})}")
            else:
                blob = repr(r.raw) + repr(r.args)
                check(c["client_secret"] not in blob, "a secret was disclosed")
            if clients[-1] is not c and len(clients) > 1:
                rec.nontrivial(True)
            continue
        # use: log in and redeem with the secret of client s
        req = c["_req"]
        m = req.get("token_endpoint_auth_method", "client_secret_basic")
        offered_m = offered["token_endpoint_auth_methods_supported"]
        if "client_secret_basic" not in offered_m or "code" not in req.get("response_types", ["code"]) or req.get("userinfo_encrypted_response_alg") or \
                req.get("id_token_encrypted_response_alg") or m not in ("client_secret_basic", "client_secret_post") or m not in offered_m:
            continue
        if req.get("request_object_signing_alg") or req.get("request_object_encryption_alg"):
            continue
        exp = c.get("client_secret_expires_at")
        expired = bool(exp) and CLOCK.now > exp
        if exp and CLOCK.now == exp:
            continue
        client = {"client_id": c["client_id"], "redirect_uris": [req["redirect_uris"][0]], "client_secret": c["client_secret"]}
        out = ops.authorize(op, client, redirect_uri=req["redirect_uris"][0], state=f"S{n}")
        if expired:
            rec.label("expired")
            if not out.ok:
                continue
        check(out.ok, lambda: f"a registered client can not log in: {out!r}")
        s = clients[o["s"] % len(clients)]
        rq = ops.code_request(client, out.args["code"], redirect_uri=req["redirect_uris"][0], client_secret=None)
        hi = {"headers": {}}
        if m == "client_secret_post":
            rq["client_secret"] = s["client_secret"]
        else:
            hi = {"headers": {"authorization": ops.basic_header(c["client_id"], s["client_secret"])}}
        t = op.call("token", rq, http_info=hi)
        check(t.ok == (s is c and not expired), lambda: f"secret {'of another client' if s is not c else ''} expired={expired}: {t!r}")
        rec.label("used")
        rec.nontrivial(s is not c)


SUBS = [Sub("registration", cases, registration, 1800, rule=RULE)]
