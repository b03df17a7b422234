"""C19: pushed requests and request objects cannot be altered, swapped or replayed."""
import base64
import copy
import json
from urllib.parse import urlencode

from cryptojwt.jwe.jwe import JWE
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import JWS
from hypothesis import strategies as st
from oidcmsg.oauth2 import JWTSecuredAuthorizationRequest

from pbt import hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

RULE = ("a case configures three clients (registered request locations, signing algorithms) and pushes generated authorization requests, uses their references (again, late, "
        "altered, by another client, with other parameters outside), and sends request objects by value and by location, signed by the client, others, nobody, encrypted or altered; "
        "what comes out is compared with the same parameters sent directly; non-trivial when a reference or an object was used, rightly or wrongly, apart from a plain first use")

VERIFIER = "a-code-verifier-a-code-verifier-a-code-verifier-0123456789"
CHALLENGE = base64.urlsafe_b64encode(__import__("hashlib").sha256(VERIFIER.encode()).digest()).decode().rstrip("=")
CLAIMS = [None, None, {"id_token": {"email": None}}, {"userinfo": {"email": {"essential": True}, "phone_number": None}, "id_token": {"given_name": None}}]
SCOPES = [["openid"], ["openid", "profile"], ["openid", "email", "profile"], ["openid", "profile", "offline_access"], ["profile"]]
STATES = ["s1", "a b&c=d%", "åß☃", "x" * 300]
RTS = ["code", "code", "code", "code id_token", "id_token", "id_token token", "code token", "token"]


def cases():
    idx = st.integers(0, 9)
    fx = st.fixed_dictionaries
    params = fx({"rt": st.sampled_from(RTS), "scope": st.integers(0, len(SCOPES) - 1), "state": st.integers(0, 3), "nonce": st.sampled_from(["n1", "n2", "n3", None]),
                 "uri": st.sampled_from([0, 0, 0, 0, 1, 1, 1, 2, 3]), "prompt": st.sampled_from([None, None, None, "login", "consent", "none", "none login"]),
                 "max_age": st.sampled_from([None, None, 3600, 10 ** 6]), "claims": st.integers(0, len(CLAIMS) - 1), "mode": st.sampled_from([None, None, "query", "fragment", "form_post"]),
                 "pkce": st.booleans(), "acr": st.sampled_from([None, None, ops.ACR_PW, "other"]), "loc": st.sampled_from([None, "sv en"])})
    push = fx({"op": st.just("push"), "c": st.integers(0, 2), "p": params, "how": st.sampled_from(["form", "form", "basic", "object"]),
               "bad": st.sampled_from([None] * 8 + ["noauth", "wrongsecret", "uri", "uri-urn", "unsigned", "othersigned"])})
    use = fx({"op": st.just("use"), "n": idx, "by": st.sampled_from([None] * 6 + [0, 1, 2]), "ref": st.sampled_from(["it"] * 8 + ["unknown", "case", "suffix"]),
              "outer": params, "twist": st.booleans(), "wait": st.sampled_from([0] * 9 + [9, 11, 58, 60, 119, 121, 3599, 3601])})
    obj = fx({"op": st.just("obj"), "c": st.integers(0, 2), "p": params, "outer": params, "twist": st.sampled_from([False, True, True]),
              "via": st.sampled_from(["value", "value", "uri"]),
              "signer": st.sampled_from(["own"] * 8 + ["own-other-alg", "other", "attacker", "none", "rawjson", "jwe-json", "jwe-none", "jwe-own", "jwe-own", "payload", "hs-pub"]),
              "alg": st.sampled_from(["RS256", "ES256", "HS256", "PS256"]), "iss": st.sampled_from(["own", "own", "own", "other", None]),
              "cid": st.sampled_from(["own", "own", "own", "own", "other", None]),
              "loc": st.sampled_from(["reg", "reg", "reg", "frag", "other", "path", "query", "http", "nobody"])})
    tick = fx({"op": st.just("tick"), "dt": st.sampled_from([1, 30, 119, 121, 4000])})
    s = {"push": push, "use": use, "obj": obj, "tick": tick}
    step = st.sampled_from(["push"] * 2 + ["use"] * 5 + ["obj"] * 4 + ["tick"]).flatmap(lambda n: s[n])
    client = fx({"uris": st.sampled_from([True, True, False]), "alg": st.sampled_from([None, None, "RS256", "ES256", "HS256"])})
    return fx({"flavour": st.sampled_from(["oidc", "oidc", "oidc", "oauth2", "jar"]), "clients": st.lists(client, min_size=3, max_size=3), "ttl": st.sampled_from([None, 120, 10, 59]),
               "require": st.booleans(), "offer": st.sampled_from([None, None, ["RS256", "ES256"], ["RS256", "PS256"], ["ES256", "PS256", "HS256"]]), "pkce": st.booleans(), "pre": st.lists(push.map(lambda p: dict(p, bad=None)), min_size=1, max_size=2), "ops": hist.sized_lists(step, 2, 9)})


def b64(x):
    return base64.urlsafe_b64encode(x).decode().rstrip("=")


def run(case, rec):
    oidc = case["flavour"] == "oidc"
    fl = "oidc" if oidc else "oauth2"
    conf = ops.base_conf(flavour=fl)
    if case["flavour"] == "jar":
        conf["endpoint"]["authorization"]["kwargs"]["request_cls"] = JWTSecuredAuthorizationRequest
    if case["offer"]:
        conf["capabilities"]["request_object_signing_alg_values_supported"] = list(case["offer"])
    if case["ttl"]:
        conf["endpoint"]["pushed_authorization"]["kwargs"]["ttl"] = case["ttl"]
    if case["pkce"]:
        conf["add_on"] = {"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {"essential": False, "code_challenge_methods": ["S256"]}}}
    clients = []
    for i, k in enumerate(case["clients"]):
        kw = {"_keys": f"client{i}", "redirect_uris": [(f"https://rp{i}.example.com/cb", {}), (f"https://rp{i}.example.com/cb2", {"k": ["v"]})]}
        if i == 2:
            kw["response_types"] = ["code", "code id_token"]
        if k["uris"]:
            kw["request_uris"] = [(f"https://rp{i}.example.com/req", ""), (f"https://rp{i}.example.com/req2", "f")]
        if k["alg"]:
            kw["request_object_signing_alg"] = k["alg"]
        clients.append(ops.client_conf(i, **kw))
    op = ops.OP(conf, clients=clients, flavour=fl)
    if case["require"]:
        op.ctx.provider_info["require_request_uri_registration"] = True
    # the twin gets the same parameters directly
    tconf = copy.deepcopy(conf)
    tconf["endpoint"]["authorization"]["kwargs"].pop("request_cls", None)
    twin = ops.OP(tconf, clients=clients, flavour=fl)
    for o in (op, twin):
        ops.set_user(o, "diana")
    gets = []

    def fetch(url, **kw):
        gets.append(url)
        r = type("R", (), {})()
        first = gets.count(url) == 1
        r.status_code = r.status = 200
        r.text = pages[url][0 if first else 1] if url in pages else "nothing"
        if url not in pages:
            r.status_code = r.status = 404
        return r

    pages = {}
    op.httpc.get = fetch

    def params(p, c):
        scope = list(SCOPES[p["scope"]])
        if not oidc:
            scope = [s for s in scope if s != "openid"] or ["profile"]
        d = {"client_id": clients[c]["client_id"], "response_type": p["rt"], "scope": " ".join(scope), "state": STATES[p["state"]],
             "redirect_uri": [f"https://rp{c}.example.com/cb", f"https://rp{c}.example.com/cb2?k=v", f"https://rp{(c + 1) % 3}.example.com/cb", f"https://rp{c}.example.com/cb/"][p["uri"]]}
        if not oidc and "id_token" in p["rt"]:
            d["response_type"] = "code"
        for k, v in (("nonce", p["nonce"]), ("prompt", p["prompt"]), ("max_age", p["max_age"]), ("response_mode", p["mode"]), ("acr_values", p["acr"]), ("ui_locales", p["loc"])):
            if v is not None:
                d[k] = v
        if "offline_access" in scope and not p["prompt"]:
            d["prompt"] = "consent"
        if CLAIMS[p["claims"]] and oidc:
            d["claims"] = CLAIMS[p["claims"]]
        if p["pkce"] and case["pkce"]:
            d["code_challenge"], d["code_challenge_method"] = CHALLENGE, "S256"
        return d

    def form(d):
        return {k: (json.dumps(v) if isinstance(v, dict) else v if isinstance(v, str) else str(v)) for k, v in d.items()}

    def view(o, out, c):
        """Everything the client and user get to see, without what must differ between two runs."""
        if not out.ok:
            return "refused"
        a = out.args.to_dict() if hasattr(out.args, "to_dict") else dict(out.args or {})
        v = {"keys": sorted(a), "state": a.get("state"), "scope": a.get("scope"), "uri": (out.raw or {}).get("return_uri"), "shown": sorted(k for k in out.raw or {} if k != "response_args"),
             "expires_in": a.get("expires_in"), "error": a.get("error")}
        if isinstance(out.http, dict):
            r = out.http.get("response")
            v["placed"] = [out.http.get("response_placement"), str(r).split("?")[0].split("#")[0][:40] if r else None, "#" in str(r)]
        idts, ats = [], []
        if a.get("id_token"):
            idts.append(a["id_token"])
        if a.get("access_token"):
            ats.append(a["access_token"])
        if a.get("code"):
            g = None
            try:
                g = o.mngr.get_session_info_by_token(a["code"], grant=True)["grant"].authorization_request
            except Exception:
                pass
            check(g is not None, "a code without a session")
            r = ops.exchange(o, clients[c], a["code"], redirect_uri=g.get("redirect_uri"), code_verifier=VERIFIER if g.get("code_challenge") else None)
            v["exchange"] = r.ok
            if r.ok:
                b = r.args.to_dict() if hasattr(r.args, "to_dict") else dict(r.args)
                v["tokens"] = [sorted(b), b.get("scope"), b.get("expires_in")]
                if b.get("id_token"):
                    idts.append(b["id_token"])
                if b.get("access_token"):
                    ats.append(b["access_token"])
        drop = ("jti", "c_hash", "at_hash", "sid")
        v["id_tokens"] = [{k: x for k, x in ops.jwt_payload(t).items() if k not in drop} for t in idts]
        v["access"] = []
        for t in ats:
            i = ops.introspect(o, clients[c], t)
            x = dict(i.args) if i.ok else None
            v["access"].append(x and {k: y for k, y in x.items() if k not in drop})
            if oidc:
                u = ops.userinfo(o, t)
                v["access"].append(dict(u.args) if u.ok else "refused")
        return json.loads(json.dumps(v, default=str, sort_keys=True))

    def direct(d, c):
        return view(twin, twin.call("authorization", urlencode(form(d))), c)

    def same(got, want, what):
        if got != want and isinstance(got, dict) and isinstance(want, dict):
            diff = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)}
        else:
            diff = (got, want)
        check(got == want, lambda: f"{what}: other than the same request sent directly (got, wanted): {diff}")

    def sign(d, c, how, alg):
        body = json.dumps(d)
        other = (c + 1) % 3

        def keys(i):
            if alg[0] == "H":
                return [SYMKey(key=clients[i]["client_secret"].encode())]
            return ops.keyjar(f"client{i}").get_signing_key("EC" if alg[0] == "E" else "RSA", issuer_id="")

        if how == "rawjson":
            return body
        if how == "none":
            return b64(b'{"alg":"none"}') + "." + b64(body.encode()) + "."
        if how in ("jwe-json", "jwe-none", "jwe-own"):
            inner = body if how == "jwe-json" else sign(d, c, how[4:], alg)
            rsa = [k for k in ops.keyjar("server").get("enc", "RSA", "")] or [k for k in ops.keyjar("server").get_issuer_keys("") if k.kty == "RSA"]
            return JWE(inner, alg="RSA-OAEP", enc="A128CBC-HS256").encrypt(keys=rsa)
        if how == "attacker":
            return JWS(body, alg="RS256").sign_compact(ops.keyjar("attacker").get_signing_key("RSA", issuer_id=""))
        if how == "hs-pub":
            pub = json.dumps(ops.public_jwks(f"client{c}")["keys"][0]).encode()
            return JWS(body, alg="HS256").sign_compact([SYMKey(key=pub)])
        t = JWS(body, alg=alg).sign_compact(keys(other if how == "other" else c))
        if how == "payload":
            h, p, g = t.split(".")
            t = h + "." + b64(json.dumps(dict(d, state="altered")).encode()) + "." + g
        return t

    refs = []

    def push(o):
        c = o["c"]
        d = params(o["p"], c)
        body, hi = form(d), None
        if o["how"] == "object":
            alg = case["clients"][c]["alg"] or (case["offer"] or ["ES256"])[0]
            body = {k: v for k, v in form(d).items() if k in ("client_id", "response_type", "redirect_uri", "scope")}
            body["request"] = sign(dict(d, iss=clients[c]["client_id"], aud=op.ctx.issuer), c, {"unsigned": "none", "othersigned": "other"}.get(o["bad"], "own"), alg)
        elif o["bad"] in ("unsigned", "othersigned"):
            return
        if o["how"] == "basic":
            hi = {"headers": {"authorization": ops.basic_header(clients[c]["client_id"], clients[c]["client_secret"])}}
        else:
            body["client_secret"] = clients[c]["client_secret"]
        if o["bad"] == "noauth":
            body.pop("client_secret", None)
            hi = None
        elif o["bad"] == "wrongsecret":
            body["client_secret"] = clients[(c + 1) % 3]["client_secret"]
            hi = None
        elif o["bad"] == "uri":
            body["request_uri"] = f"https://rp{c}.example.com/req"
        elif o["bad"] == "uri-urn":
            body["request_uri"] = refs[-1]["ref"] if refs else "urn:uuid:00000000-0000-0000-0000-000000000000"
        n = len(op.ctx.par_db)
        out = op.call("pushed_authorization", urlencode(body), http_info=hi, respond=False)
        want = direct(d, c)
        if o["bad"]:
            check(not out.ok, lambda: f"push accepted although {o['bad']}: {o}")
            check(len(op.ctx.par_db) == n, "a refused push left a trace")
            rec.nontrivial()
            rec.label("push " + o["bad"])
            return
        if want != "refused":
            check(out.ok, lambda: f"push refused, though the same request is accepted directly: {d} {out!r}")
        if not out.ok:
            return
        r = out.raw["http_response"]
        check(r["expires_in"] == (case["ttl"] or 3600), lambda: f"{r}")
        check(all(x["ref"] != r["request_uri"] for x in refs), "a reference was given twice")
        refs.append({"ref": r["request_uri"], "c": c, "d": d, "at": CLOCK.now, "exp": CLOCK.now + r["expires_in"], "used": False, "open": False})

    def use(o):
        if not refs:
            return
        CLOCK.advance(o["wait"])
        x = refs[o["n"] % len(refs)]
        by = x["c"] if o["by"] is None else o["by"]
        d = x["d"] if not o["twist"] else params(dict(o["outer"], uri=0, rt="code", nonce="outer", prompt=None, scope=min(o["outer"]["scope"], 2)), by)
        outer = form(dict(d, client_id=clients[by]["client_id"]))
        if by != x["c"] and not o["twist"]:
            outer["redirect_uri"] = f"https://rp{by}.example.com/cb"
        outer.pop("claims", None)
        if o["twist"] or x["c"] != by:
            outer["response_type"] = "code"
        # the outside has to be well-formed by itself
        outer.setdefault("nonce", "outer")
        outer.pop("prompt", None)
        outer["scope"] = "openid" if oidc else "profile"
        ref = {"it": x["ref"], "unknown": "urn:uuid:9d4a9f3c-4b0f-4d0e-b2ab-0f0e8a2b1f00", "case": x["ref"].upper().replace("URN:UUID", "urn:uuid"), "suffix": x["ref"] + "#a"}[o["ref"]]
        if ref == x["ref"] and o["ref"] != "it":
            return
        outer["request_uri"] = ref
        out = op.call("authorization", urlencode(outer))
        if o["ref"] != "it" or by != x["c"] or x["used"] or CLOCK.now > x["exp"]:
            why = o["ref"] if o["ref"] != "it" else "other client" if by != x["c"] else "used" if x["used"] else "expired"
            check(not out.ok, lambda: f"reference accepted, though {why}: {out!r}")
            if o["ref"] == "it":
                x["open"] = True  # whether this attempt spends the reference is left open
            rec.nontrivial()
            rec.label("reference " + why)
            return
        want = direct(x["d"], x["c"])
        got = view(op, out, x["c"])
        if got == "refused" and x["open"]:
            return
        x["used"] = True
        if o["twist"]:
            rec.nontrivial()
        rec.label("reference " + ("ok" if want != "refused" else "refused"))
        same(got, want, "pushed request")

    def obj(o):
        if case["flavour"] == "oauth2" and o["via"] == "value":
            return  # not a parameter of that endpoint
        c = o["c"]
        other = (c + 1) % 3
        me = clients[c]
        d = params(o["p"], c)
        reg = case["clients"][c]["alg"]
        alg = reg or o["alg"]
        good = True
        how = o["signer"]
        if how == "own-other-alg":
            if not reg:
                return
            alg = next(a for a in ("ES256", "RS256") if a != reg)
            good = False
            how = "own"
        elif how not in ("own", "jwe-own"):
            good = False
        inner = dict(d)
        left_open = False
        if case["offer"] and alg not in case["offer"]:
            if reg:
                left_open = True
            else:
                good = False
        if o["iss"]:
            inner["iss"] = clients[c if o["iss"] == "own" else other]["client_id"]
            good = good and o["iss"] == "own"
        else:
            left_open = True
        inner["aud"] = op.ctx.issuer
        if o["cid"] == "other":
            inner["client_id"] = clients[other]["client_id"]
            inner["redirect_uri"] = f"https://rp{other}.example.com/cb"
            good = False
        elif o["cid"] is None:
            inner.pop("client_id")
            left_open = True
        outer = d
        if o["twist"]:
            outer = params(dict(o["outer"], uri=0, nonce="outer", prompt=None, scope=min(o["outer"]["scope"], 2), rt=o["outer"]["rt"] if c != 2 else "code"), c)
            outer = {k: v for k, v in outer.items() if k in d}
        outer = form(outer)
        t = sign(inner, c, how, alg)
        gets.clear()
        pages.clear()
        if o["via"] == "value":
            outer["request"] = t
        else:
            outer.pop("claims", None)
            outer.setdefault("nonce", "outer") if "nonce" in inner else outer.pop("nonce", None)
            base = f"https://rp{c}.example.com/req"
            url = {"reg": base, "frag": base + "#abc", "other": f"https://rp{other}.example.com/req", "path": base + "/x", "query": base + "?a=b", "http": base.replace("https", "http"),
                   "nobody": "https://evil.example.net/req"}[o["loc"]]
            second = sign(dict(inner, state="second", scope="openid" if oidc else "email"), c, how, alg)
            pages[url] = (t, second)
            outer["request_uri"] = url
            has = case["clients"][c]["uris"]
            if has and o["loc"] not in ("reg", "frag"):
                good = False
            if not has:
                if case["require"]:
                    good = False
                else:
                    left_open = True
        out = op.call("authorization", urlencode(outer))
        if not good:
            check(not out.ok, lambda: f"request object accepted ({o['via']}): signer {o['signer']} alg {alg} (registered {reg}) iss {o['iss']} client_id {o['cid']} at {o['loc']} "
                                      f"(registered {case['clients'][c]['uris']}, required {case['require']}): {out!r}")
            if o["via"] == "uri" and case["clients"][c]["uris"] and o["loc"] not in ("reg", "frag"):
                check(not gets, lambda: f"fetched {gets}")
            rec.nontrivial()
            rec.label("object refused")
            return
        want = direct(d, c)
        got = view(op, out, c)
        if got == "refused" and (left_open or alg == "HS256" or (how == "jwe-own")):
            rec.label("object left open")
            return
        if want == "refused" or got == "refused":
            same(got, want, f"request object ({o['via']}), {inner} {out!r}")
            return
        same(got, want, f"request object by {o['via']}")
        rec.nontrivial()
        rec.label("object ok" + (" jwe" if how == "jwe-own" else ""))

    for o in case["pre"] + case["ops"]:
        if o["op"] == "tick":
            CLOCK.advance(o["dt"])
        else:
            {"push": push, "use": use, "obj": obj}[o["op"]](o)


SUBS = [Sub("requests", cases, run, quick=900, ids=True)]
