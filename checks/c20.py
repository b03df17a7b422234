"""C20: provider metadata tells the truth about the server."""
import concurrent.futures
import copy
import json

from hypothesis import strategies as st

from pbt import ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

from cryptojwt.jws.jws import JWS
from cryptojwt.jwk.hmac import SYMKey
from oidcmsg.oidc import ProviderConfigurationResponse
from oidcop.scopes import SCOPE2CLAIMS

RULE = ("a case draws an issuer, a subset and order of endpoints with their paths and options, explicit capabilities, scope settings, authentication methods and "
        "add-ons, and probes what the endpoints accept; non-trivial when at least one setting differs from the defaults and at least one probe of something "
        "listed and one of something not listed (or switched off) was made")

SIGN = ["RS256", "RS384", "ES256", "ES384", "PS256", "HS256"]
ENC_ALG = ["RSA-OAEP", "RSA-OAEP-256", "ECDH-ES", "A128KW", "ECDH-ES+A128KW"]
ENC_ENC = ["A128CBC-HS256", "A256GCM", "A128GCM", "A256CBC-HS512"]
RTYPES = [t for t in ops.ALL_RESPONSE_TYPES if t != "none"]
MODES = ["query", "fragment", "form_post"]
METHODS = ["client_secret_post", "client_secret_basic", "client_secret_jwt", "private_key_jwt"]
ACRS = [ops.ACR_PW, ops.ACR_2FA, "urn:example:acr:gold", "silver"]
ISSUERS = ["https://op.example.com", "https://op.example.com/", "https://op.example.com/tenant", "https://op.example.com/tenant/", "https://op.example.com:8443",
           "https://id.example.org/a/b/"]
ENDPOINT_NAME = {"authorization": "authorization_endpoint", "token": "token_endpoint", "userinfo": "userinfo_endpoint",
                 "introspection": "introspection_endpoint", "registration": "registration_endpoint", "session": "end_session_endpoint",
                 "pushed_authorization": "pushed_authorization_request_endpoint"}
# configuration key -> name of the endpoint
KEYS = {"authorization": "authorization", "token": "token", "introspection": "introspection", "registration": "registration",
        "registration_api": "registration_read", "userinfo": "userinfo", "session": "session", "pushed_authorization": "pushed_authorization",
        "provider_info": "provider_config"}
HOME = {
    "response_types_supported": "authorization", "response_modes_supported": "authorization", "claims_parameter_supported": "authorization",
    "request_parameter_supported": "authorization", "request_uri_parameter_supported": "authorization",
    "request_object_signing_alg_values_supported": "authorization", "request_object_encryption_alg_values_supported": "authorization",
    "request_object_encryption_enc_values_supported": "authorization",
    "userinfo_signing_alg_values_supported": "userinfo", "userinfo_encryption_alg_values_supported": "userinfo",
    "userinfo_encryption_enc_values_supported": "userinfo",
    "token_endpoint_auth_signing_alg_values_supported": "token",
    "frontchannel_logout_supported": "session", "backchannel_logout_supported": "session",
    "frontchannel_logout_session_supported": "session", "backchannel_logout_session_supported": "session",
    "id_token_signing_alg_values_supported": "id_token", "id_token_encryption_alg_values_supported": "id_token",
    "id_token_encryption_enc_values_supported": "id_token",
}
DEFAULTS = {"response_types_supported": RTYPES, "response_modes_supported": MODES, "claims_parameter_supported": True, "request_parameter_supported": True,
            "request_uri_parameter_supported": True, "frontchannel_logout_supported": True, "frontchannel_logout_session_supported": True,
            "backchannel_logout_supported": True, "backchannel_logout_session_supported": True}
UI_ALG = {"userinfo_signed_response_alg": "userinfo_signing_alg_values_supported", "id_token_signed_response_alg": "id_token_signing_alg_values_supported",
          "request_object_signing_alg": "request_object_signing_alg_values_supported",
          "token_endpoint_auth_signing_alg": "token_endpoint_auth_signing_alg_values_supported"}


def cases():
    fx = st.fixed_dictionaries
    opt = lambda s, n=2: st.sampled_from([0] * n + [1]).flatmap(lambda i: s if i else st.just("-"))
    some = lambda xs: st.lists(st.sampled_from(xs), min_size=1, max_size=len(xs), unique=True)
    val = {}
    for k in HOME:
        if k.endswith("_supported") and k in DEFAULTS and isinstance(DEFAULTS[k], bool):
            val[k] = st.booleans()
        elif k == "response_types_supported":
            val[k] = some(RTYPES)
        elif k == "response_modes_supported":
            val[k] = some(MODES)
        elif "signing_alg" in k:
            val[k] = some(SIGN)
        elif "encryption_alg" in k:
            val[k] = some(ENC_ALG)
        else:
            val[k] = some(ENC_ENC)
    # a capability is configured nowhere, with its endpoint, or among the capabilities
    place = fx({k: st.one_of(st.just("-"), st.just("-"), st.tuples(st.sampled_from(["ep", "ep", "cap"]), v).map(list)) for k, v in val.items()})
    seg = st.sampled_from(["x", "oauth2", "v2.0", "op", "a-b", "userinfo"])
    scope_map = st.dictionaries(st.sampled_from(["openid", "profile", "email", "research", "scope_a", "phone"]),
                                st.lists(st.sampled_from(["name", "email", "nickname", "eduperson_scoped_affiliation", "webid", "phone_number"]), max_size=3, unique=True),
                                min_size=1, max_size=4).map(lambda d: {**d, "openid": ["sub"]})
    scopes = fx({"allowed": opt(some(["openid", "profile", "email", "address", "phone", "scope_a", "offline_access"]).map(lambda l: sorted(set(l) | {"openid"}))),
                 "map": opt(scope_map, 1), "advertised": opt(some(["openid", "profile", "email", "random", "research"]), 3),
                 "cap": opt(some(["openid", "profile", "email", "random"]), 5), "claims": opt(some(["sub", "name", "email", "webid"]), 4)})
    authn = st.lists(st.sampled_from(ACRS), min_size=1, max_size=3)
    return fx({
        "issuer": st.sampled_from(ISSUERS),
        "order": st.permutations(sorted(KEYS)).map(list), "drop": st.lists(st.sampled_from(sorted(set(KEYS) - {"provider_info"})), max_size=4, unique=True),
        "paths": st.lists(st.lists(seg, max_size=2), min_size=9, max_size=9), "uri_path": st.sampled_from(["static/jwks.json", "jwks.json", "keys/op/jwks"]),
        "place": place, "scopes": scopes, "authn": authn, "methods": opt(some(METHODS), 1),
        "grants": opt(some(["authorization_code", "implicit", "refresh_token"]), 1),
        "subjects": opt(some(["public", "pairwise"]), 1),
        "iframe": st.sampled_from(["-", "-", "check_session", "https://elsewhere.example.com/csi"]),
        "custom": opt(st.dictionaries(st.sampled_from(["research", "club"]), st.lists(st.sampled_from(["webid", "nickname", "name"]), max_size=2, unique=True),
                                      min_size=1, max_size=2), 4),
        "dpop": opt(some(["RS256", "ES256"]), 4), "flavour": st.sampled_from(["oidc", "oidc", "oidc", "oauth2"]), "resource": st.text(max_size=20), "threads": st.sampled_from([0, 0, 0, 1]),
        "bad": opt(st.tuples(st.sampled_from(sorted(k for k in HOME if "_alg_" in k or "_enc_" in k)), st.sampled_from(["XX256", "RS255", "rs256", "A128GCM ", "PBES9"]), st.booleans()).map(list), 3),
        "pick": st.lists(st.integers(0, 50), min_size=12, max_size=12),
    })


def configure(case):
    fl = case["flavour"]
    conf = ops.base_conf(flavour=fl, issuer=case["issuer"])
    ep = conf["endpoint"]
    if fl == "oauth2":
        ep["provider_info"] = {"path": "", "class": "oidcop.oidc.provider_config.ProviderConfiguration", "kwargs": {}}
    order = [k for k in case["order"] if k in ep and k not in case["drop"]]
    new = {}
    for k in order:
        spec = ep[k]
        seg = case["paths"][sorted(KEYS).index(k)]
        spec["path"] = "/".join(seg + [k])
        new[k] = spec
    new["disco"] = {"path": ".well-known/webfinger", "class": "oidcop.oidc.discovery.Discovery", "kwargs": {}}
    conf["endpoint"] = new
    caps = conf["capabilities"]
    caps.pop("grant_types_supported")
    caps["grant_types_supported"] = case["grants"] if case["grants"] != "-" else ["authorization_code", "implicit", "refresh_token"]
    caps["subject_types_supported"] = case["subjects"] if case["subjects"] != "-" else ["public", "pairwise"]
    for attr, p in case["place"].items():
        if p == "-":
            continue
        where, v = p
        if where == "cap" and HOME[attr] != "id_token":
            caps[attr] = list(v) if isinstance(v, list) else v
        elif HOME[attr] == "id_token":
            if fl == "oidc":
                conf["token_handler_args"]["id_token"]["kwargs"][attr] = list(v)
        elif HOME[attr] in new:
            new[HOME[attr]]["kwargs"][attr] = list(v) if isinstance(v, list) else v
    if "session" in new:
        kw = new["session"]["kwargs"]
        for a in ("frontchannel_logout_supported", "frontchannel_logout_session_supported", "backchannel_logout_supported",
                  "backchannel_logout_session_supported"):
            if case["place"][a] == "-" or case["place"][a][0] == "cap":
                kw.pop(a, None)
        if case["iframe"] != "-":
            kw["check_session_iframe"] = case["iframe"]
    s = case["scopes"]
    if s["allowed"] != "-":
        conf["allowed_scopes"] = list(s["allowed"])
    if s["map"] != "-":
        conf["scopes_to_claims"] = copy.deepcopy(s["map"])
    if s["cap"] != "-":
        caps["scopes_supported"] = list(s["cap"])
    elif s["advertised"] != "-":
        conf["scopes_supported"] = list(s["advertised"])
    if s["claims"] != "-":
        caps["claims_supported"] = list(s["claims"])
    conf["authentication"] = {("anon" if i == 0 else f"m{i}"): {"acr": a, "class": "oidcop.user_authn.user.NoAuthn", "kwargs": {"user": "diana"}} for i, a in enumerate(case["authn"])}
    if "token" in new:
        if case["methods"] != "-":
            new["token"]["kwargs"]["client_authn_method"] = list(case["methods"])
        else:
            new["token"]["kwargs"].pop("client_authn_method")
    conf["keys"]["uri_path"] = case["uri_path"]
    add = {}
    if case["custom"] != "-":
        add["custom_scopes"] = {"function": "oidcop.oidc.add_on.custom_scopes.add_custom_scopes", "kwargs": copy.deepcopy(case["custom"])}
    if case["dpop"] != "-" and "token" in new:
        add["dpop"] = {"function": "oidcop.oauth2.add_on.dpop.add_support", "kwargs": {"dpop_signing_alg_values_supported": list(case["dpop"])}}
    if add:
        conf["add_on"] = add
    return conf


def expected(case, conf):
    """What the metadata must say; values are compared as sets, None means must be absent."""
    base = case["issuer"].rstrip("/")
    exp = {"issuer": case["issuer"], "jwks_uri": base + "/" + case["uri_path"]}
    for k, spec in conf["endpoint"].items():
        n = ENDPOINT_NAME.get(KEYS.get(k))
        if n:
            exp[n] = base + "/" + spec["path"]
    caps = conf["capabilities"]
    for attr, home in HOME.items():
        kw = None
        if home == "id_token":
            if case["flavour"] == "oidc":
                kw = conf["token_handler_args"]["id_token"]["kwargs"]
        elif home in conf["endpoint"]:
            kw = conf["endpoint"][home]["kwargs"]
        if case["flavour"] == "oauth2" and attr == "response_types_supported" and attr not in caps:
            if kw is not None:
                exp[attr] = kw.get(attr, ["code", "token", "code token"])
            continue
        if attr in caps:
            exp[attr] = caps[attr]
        elif kw is not None:
            if attr in kw:
                exp[attr] = kw[attr]
            elif attr in DEFAULTS:
                exp[attr] = DEFAULTS[attr]
        else:
            exp[attr] = None
    exp["grant_types_supported"] = caps["grant_types_supported"]
    exp["subject_types_supported"] = caps["subject_types_supported"]
    exp["acr_values_supported"] = case["authn"]
    if "token" in conf["endpoint"]:
        exp["token_endpoint_auth_methods_supported"] = conf["endpoint"]["token"]["kwargs"].get("client_authn_method", METHODS)
    else:
        exp["token_endpoint_auth_methods_supported"] = None
    if "session" in conf["endpoint"] and case["iframe"] != "-":
        exp["check_session_iframe"] = case["iframe"] if case["iframe"].startswith("https:") else base + "/" + case["iframe"]
    else:
        exp["check_session_iframe"] = None
    s = case["scopes"]
    mapping = s["map"] if s["map"] != "-" else SCOPE2CLAIMS
    allowed = s["allowed"] if s["allowed"] != "-" else list(mapping)
    listed = conf["capabilities"].get("scopes_supported") or conf.get("scopes_supported") or allowed
    claims = s["claims"] if s["claims"] != "-" else sorted({c for x in listed if x in allowed for c in mapping.get(x, [])})
    if case["custom"] != "-":
        listed = sorted(set(listed) | set(case["custom"]))
        claims = sorted(set(claims) | {c for v in case["custom"].values() for c in v})
    exp["scopes_supported"] = listed
    exp["claims_supported"] = claims
    if case["dpop"] != "-" and "token" in conf["endpoint"]:
        exp["dpop_signing_alg_values_supported"] = case["dpop"]
    else:
        exp["dpop_signing_alg_values_supported"] = None
    return exp


def norm(v):
    return sorted(v) if isinstance(v, list) else v


def read(op):
    o = op.call("provider_config", {})
    check(o.ok, lambda: f"metadata could not be read: {o!r}")
    info = o.http
    check(isinstance(info, dict) and "response" in info, lambda: f"metadata response {info}")
    return json.loads(info["response"]), info["response"]


def impossible(case, conf, rec):
    """A configuration that names an algorithm nobody can do: no server, or one that does not advertise it."""
    attr, alg, alone = case["bad"]
    conf = copy.deepcopy(conf)
    kw = conf["token_handler_args"].get("id_token") if HOME[attr] == "id_token" else conf["endpoint"].get(HOME[attr])
    if kw is None:
        return
    kw = kw["kwargs"]
    known = SIGN if "signing" in attr else ENC_ALG if "encryption_alg" in attr else ENC_ENC
    kw[attr] = [alg] if alone else [known[0], alg]
    rec.label("impossible " + attr)
    try:
        op = ops.OP(conf, flavour=case["flavour"])
    except (ValueError, KeyError):
        return
    md, _ = read(op)
    check(alg not in md.get(attr, []), lambda: f"the metadata offers {attr} {md.get(attr)}; there is no {alg}")


def run(case, rec):
    conf = configure(case)
    if case.get("bad", "-") != "-":
        impossible(case, conf, rec)
    eps = conf["endpoint"]
    client = ops.client_conf(1, allowed_scopes=None, _keys="client1")
    users = copy.deepcopy(ops.USERS)
    op = ops.OP(copy.deepcopy(conf), clients=[client], flavour=case["flavour"])
    op.ctx.userinfo.db = users
    exp = expected(case, conf)
    md, raw = read(op)

    def same_as_before(after):
        m, r = read(op)
        check(m == md, lambda: f"metadata changed after {after}: " + str({k: (md.get(k), m.get(k)) for k in set(m) | set(md) if m.get(k) != md.get(k)}))

    for k, v in exp.items():
        if v == []:
            check(not md.get(k), lambda: f"{k} published as {md[k]!r}, configured as empty")
        elif v is None:
            # the specification's default may be spelled out
            check(k not in md or md[k] == ProviderConfigurationResponse.c_default.get(k), lambda: f"{k} published as {md[k]!r} though nothing provides it")
        else:
            check(norm(md.get(k)) == norm(v) or (k == "acr_values_supported" and set(md.get(k, [])) == set(v)), lambda: f"{k} published as {md.get(k)!r}, configured {v!r}")
    urls = {k for k in md if k.endswith("_endpoint")}
    check(urls == {k for k in exp if k.endswith("_endpoint")}, lambda: f"published endpoints {sorted(urls)}")
    for k, v in md.items():
        if k.endswith("_alg_values_supported") and exp.get(k) is None:
            check(v and "none" not in v and "RSA1_5" not in v, lambda: f"default {k}: {v}")
    for k, spec in eps.items():
        n = KEYS.get(k)
        if n:
            check(op.ep(n).full_path == case["issuer"].rstrip("/") + "/" + spec["path"], lambda: f"endpoint {k} at {op.ep(n).full_path}")
    same_as_before("a read")
    if case["threads"]:
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for r in list(ex.map(lambda _: read(op)[1], range(8))):
                check(json.loads(r) == md, "concurrent reads differ")
        rec.label("concurrent")
    # ------------------------------------------------ discovery
    o = op.call("discovery", {"resource": "acct:" + case["resource"] + "@example.org", "rel": "http://openid.net/specs/connect/1.0/issuer"}, respond=False)
    check(o.ok or o.raw, lambda: f"discovery failed {o!r}")
    d = op.ep("discovery").do_response(**o.raw)
    jrd = json.loads(d["response"])
    check(jrd["subject"] == "acct:" + case["resource"] + "@example.org" and [(l["rel"], l["href"]) for l in jrd["links"]] == [("http://openid.net/specs/connect/1.0/issuer", case["issuer"])],
          lambda: f"discovery answered {jrd}")
    same_as_before("discovery")
    # ------------------------------------------------ what is accepted
    pick = case["pick"]
    listed = unlisted = 0
    # registration
    if "registration" in eps:
        def register(**kw):
            # what has a default in the specification is asked for among what is listed
            req = {"redirect_uris": ["https://new.example.com/cb"], "application_type": "web", "jwks": ops.public_jwks("client2")}
            for p, a in [("response_types", "response_types_supported"), ("grant_types", "grant_types_supported"),
                         ("token_endpoint_auth_method", "token_endpoint_auth_methods_supported"), ("id_token_signed_response_alg", "id_token_signing_alg_values_supported")]:
                if exp.get(a, md.get(a)):
                    req[p] = md[a][:1] if p.endswith("types") else md[a][0]
            req.update(kw)
            return op.call("registration", json.dumps(req))
        for i, (par, attr, universe, many) in enumerate([
                ("response_types", "response_types_supported", RTYPES, True), ("subject_type", "subject_types_supported", ["public", "pairwise"], False),
                ("grant_types", "grant_types_supported", ["authorization_code", "implicit", "refresh_token"], True),
                ("token_endpoint_auth_method", "token_endpoint_auth_methods_supported", METHODS, False)] +
                [(p, a, SIGN, False) for p, a in UI_ALG.items()]):
            if exp.get(attr, md.get(attr)) is None:
                continue
            v = universe[pick[i] % len(universe)]
            o = register(**{par: [v] if many else v})
            # response types are compared as sets of words
            is_listed = v in md[attr]
            rec.label(f"register {par} {'listed' if is_listed else 'unlisted'}")
            if is_listed:
                listed += 1
                check(o.ok, lambda: f"registration with {par}={v}, which is listed: {o!r}")
                got = o.args[par]
                check(got == ([v] if many else v), lambda: f"registered {par}={v}, answered {got}")
            else:
                unlisted += 1
                got = o.args.get(par) if o.ok else None
                check(got is None or (v not in got if many else got != v), lambda: f"registration with {par}={v}, which is not listed, accepted")
    # authorization and token endpoint
    if "authorization" in eps:
        oidc = case["flavour"] == "oidc"
        sc = ["openid"] if oidc else ["profile"]
        for rt, mode in [("code", "query"), ("token", "fragment"), ("code", "form_post")]:
            o = ops.authorize(op, client, response_type=rt, response_mode=mode, scope=sc)
            is_listed = mode in md["response_modes_supported"]
            rec.label(f"response mode {'listed' if is_listed else 'unlisted'}")
            listed, unlisted = listed + is_listed, unlisted + (not is_listed)
            check(bool(o.ok and (o.args.get("code") or o.args.get("access_token"))) == is_listed, lambda: f"response mode {mode} for {rt}, listed: {md['response_modes_supported']}: {o!r}")
        if oidc:
            flag = md["request_parameter_supported"]
            alg = ["RS256", "RS384", "ES256", "PS256"][pick[11] % 4]
            key = ops.keyjar("client1").get_signing_key("EC" if alg[0] == "E" else "RSA", issuer_id="")
            tok = JWS(json.dumps({"iss": "client_1", **ops.auth_request(client, nonce="N2")}), alg=alg).sign_compact(key)
            o = ops.authorize(op, client, request=tok)
            hs = alg in md["request_object_signing_alg_values_supported"]
            rec.label(f"request object {flag} {hs}")
            listed, unlisted = listed + bool(flag and hs), unlisted + (not (flag and hs))
            check(bool(o.ok and o.args.get("code")) == bool(flag and hs),
                  lambda: f"{alg} request object, supported={flag}, algs={md['request_object_signing_alg_values_supported']}: {o!r}")
            if not md["request_uri_parameter_supported"]:
                o = ops.authorize(op, client, request_uri="https://rp1.example.com/ro")
                check(not (o.ok and o.args.get("code")) and not op.httpc.gets, lambda: f"request_uri served though not supported: {o!r}")
                unlisted += 1
        o = ops.authorize(op, client, scope=sc)
        check(o.ok and o.args.get("code"), lambda: f"plain code flow: {o!r}")
        if "token" in eps:
            ms = md["token_endpoint_auth_methods_supported"]
            for m in ("client_secret_post", "client_secret_basic", "client_secret_jwt"):
                o = ops.authorize(op, client, scope=sc)
                r = {"grant_type": "authorization_code", "code": o.args["code"], "redirect_uri": "https://rp1.example.com/cb", "client_id": "client_1"}
                hi = {"headers": {}}
                good = m in ms
                if m == "client_secret_post":
                    r["client_secret"] = client["client_secret"]
                elif m == "client_secret_basic":
                    hi = {"headers": {"authorization": ops.basic_header("client_1", client["client_secret"])}}
                else:
                    alg = ["HS256", "HS384"][pick[10] % 2]
                    good = good and alg in md["token_endpoint_auth_signing_alg_values_supported"]
                    r["client_assertion_type"] = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
                    r["client_assertion"] = JWS(json.dumps({"iss": "client_1", "sub": "client_1", "aud": [md["token_endpoint"]], "jti": f"j{m}",
                                                            "iat": CLOCK.now, "exp": CLOCK.now + 300}), alg=alg).sign_compact(
                        [SYMKey(key=client["client_secret"].encode())])
                if case["dpop"] != "-":
                    continue
                t = op.call("token", r, hi)
                rec.label(f"{m} {'listed' if good else 'unlisted'}")
                listed, unlisted = listed + good, unlisted + (not good)
                check(bool(t.ok and t.args.get("access_token")) == good, lambda: f"{m} at the token endpoint, listed {ms}: {t!r}")
        if oidc and "userinfo" in eps:
            mapping = dict(case["scopes"]["map"] if case["scopes"]["map"] != "-" else SCOPE2CLAIMS)
            if case["custom"] != "-":
                mapping = {**SCOPE2CLAIMS, **case["custom"]}
            explicit = case["scopes"]["cap"] != "-" or case["scopes"]["advertised"] != "-"
            allsc = ["openid", "profile", "email", "phone", "research", "scope_a", "club"]
            if case["custom"] != "-" and case["scopes"]["map"] != "-":
                allsc = ["openid"]     # which of the two mappings counts is left open
            o = ops.authorize(op, client, response_type="token", scope=allsc, claims={"userinfo": {"address": None}})
            u = ops.userinfo(op, o.args["access_token"])
            if u.ok:
                got = set(u.args)
                want, no = set(), set()
                for s in allsc:
                    cl = {c for c in mapping.get(s, []) if c in users["diana"]}
                    if s in md["scopes_supported"] and (not explicit or s in (case["scopes"]["allowed"] if case["scopes"]["allowed"] != "-" else mapping)):
                        want |= cl
                    else:
                        no |= cl
                if not explicit or case["custom"] == "-":
                    check(want <= got, lambda: f"scopes {md['scopes_supported']} are listed, asked for {allsc}, claims {sorted(want - got)} not released")
                    if not explicit:
                        bad = (no - want - {"sub"}) & got
                        check(not bad, lambda: f"claims {sorted(bad)} released for scopes that are not listed {md['scopes_supported']}")
                        unlisted += bool(no)
                addr = "address" in got
                if "address" not in want:
                    check(addr == md["claims_parameter_supported"], lambda: f"claims parameter honoured={addr}, published {md['claims_parameter_supported']}")
            else:
                check(False, lambda: f"userinfo failed {u!r}")
    same_as_before("traffic")
    rec.label(f"flavour {case['flavour']}")
    rec.nontrivial(bool(listed and unlisted))


SUBS = [Sub("metadata", cases, run, quick=900)]
