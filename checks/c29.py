"""C29: the server that runs is the one that was configured."""
import copy
import json
import os
import types

from hypothesis import strategies as st

from pbt import boot, hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

import yaml
from oidcmsg.configure import Configuration, create_from_config_file
from oidcop.configure import ASConfiguration, OPConfiguration
from oidcop.server import Server

RULE = ("settings: a case draws which settings are given and with what values, relative or absolute file names, placeholders, the form (dictionary, JSON file, YAML file, part of a larger file) and a class, "
        "and compares every setting of the result with a reference; non-trivial when at least three settings are given, two are left out and a path or placeholder had to be completed. "
        "servers: a case builds one server from the drawn form and one from a plain dictionary with everything spelled out and runs the same requests at both; non-trivial when a code was exchanged at both")

FILES = ["server_key", "server_cert", "filename", "template_dir", "private_path", "public_path", "db_file", "jwks_file"]
RULES_DEFAULT = {"authorization_code": {"supports_minting": ["access_token", "refresh_token", "id_token"], "max_usage": 1}, "access_token": {},
                 "refresh_token": {"supports_minting": ["access_token", "refresh_token"], "expires_in": -1}}
SCOPES = {
    "openid": ["sub"],
    "profile": ["name", "given_name", "family_name", "middle_name", "nickname", "profile", "picture", "website", "gender", "birthdate", "zoneinfo", "locale", "updated_at", "preferred_username"],
    "email": ["email", "email_verified"], "address": ["address"], "phone": ["phone_number", "phone_number_verified"], "offline_access": []}
#: what the documentation and configure.py promise for a setting that is left out
DEFAULTS = {
    "capabilities": {"subject_types_supported": ["public", "pairwise"], "grant_types_supported": ["authorization_code", "implicit", "refresh_token"]},
    "cookie_handler": {"class": "oidcop.cookie_handler.CookieHandler", "kwargs": {
        "keys": {"private_path": "private/cookie_jwks.json", "key_defs": [{"type": "OCT", "use": ["enc"], "kid": "enc"}, {"type": "OCT", "use": ["sig"], "kid": "sig"}], "read_only": False},
        "name": {"session": "oidc_op", "register": "oidc_op_rp", "session_management": "sman"}}},
    "claims_interface": {"class": "oidcop.session.claims.ClaimsInterface", "kwargs": {}},
    "authz": {"class": "oidcop.authz.AuthzHandling", "kwargs": {"grant_config": {"usage_rules": RULES_DEFAULT, "expires_in": 43200}}},
    "httpc_params": {"verify": False, "timeout": 4},
    "issuer": "https://{domain}:{port}",
    "template_dir": "templates",
    "token_handler_args": {"jwks_file": "private/token_jwks.json", "code": {"kwargs": {"lifetime": 600}}, "token": {"class": "oidcop.token.jwt_token.JWTToken", "kwargs": {"lifetime": 3600}},
                           "refresh": {"class": "oidcop.token.jwt_token.JWTToken", "kwargs": {"lifetime": 86400}}, "id_token": {"class": "oidcop.token.id_token.IDToken", "kwargs": {}}},
    "scopes_to_claims": SCOPES,
}
NO_DEFAULT = ["add_on", "allowed_scopes", "authentication", "base_url", "client_db", "endpoint", "keys", "scopes_supported", "session_params", "userinfo"]
OP_ONLY = ["id_token", "login_hint2acrs", "login_hint_lookup", "sub_func"]


# ---------------------------------------------------------------------------------------- values
def path(name):
    """A file below the base path (relative) or with its full name (`@` stands for the directory of the case)."""
    return st.sampled_from([name, "private/" + name, "@/elsewhere/" + name])


def settings_strategy():
    fx = st.fixed_dictionaries
    life = st.sampled_from([30, 100, 700, 5000])
    cls = st.sampled_from(["opaque", "jwt", "jwt"])

    def stated(spec, lifetime, where):
        """The lifetime stated among the arguments, next to them, next to no arguments at all, or not at all."""
        if where == "in":
            spec["kwargs"]["lifetime"] = lifetime
        elif where == "next":
            spec["lifetime"] = lifetime
        else:
            if where == "bare":
                spec["lifetime"] = lifetime
            if not spec["kwargs"]:
                del spec["kwargs"]
        return spec

    where = st.sampled_from(["in", "in", "next", "bare", "bare", "not"])

    def token(kind):
        def build(t):
            c, lifetime, w = t
            if c == "jwt":
                return stated({"class": "oidcop.token.jwt_token.JWTToken", "kwargs": {"aud": ["https://rs.example.org"]} if w == "in" else {}}, lifetime, w)
            return stated({"kwargs": {}, "password": kind + "-password-0123456789abcde"}, lifetime, w)
        return st.tuples(cls, life, where).map(build)

    def rules(t):
        code, at, rt, exp = t
        r = {"authorization_code": {"max_usage": 1, "supports_minting": ["access_token", "refresh_token", "id_token"]}, "access_token": {}, "refresh_token": {"supports_minting": ["access_token", "refresh_token"]}}
        for k, v in (("authorization_code", code), ("access_token", at), ("refresh_token", rt)):
            if v:
                r[k]["expires_in"] = v
        gc = {"usage_rules": r}
        if exp:
            gc["expires_in"] = exp
        return {"class": "oidcop.authz.AuthzHandling", "kwargs": {"grant_config": gc}}

    opt = st.one_of(st.none(), life)
    names = fx({"session": st.sampled_from(["oidc_op", "ses"]), "register": st.just("oidc_op_rp"), "session_management": st.sampled_from(["sman", "sm2"])})
    return {
        "capabilities": st.sampled_from([
            {"subject_types_supported": ["public"], "grant_types_supported": ["authorization_code"]},
            {"subject_types_supported": ["pairwise", "public"], "grant_types_supported": ["authorization_code", "refresh_token"], "response_types_supported": ["code", "id_token"]},
            {"response_types_supported": ["code", "code id_token"], "scopes_supported": ["openid", "email"], "request_uri_parameter_supported": False, "claims_supported": ["sub", "email"]}]),
        "cookie_handler": st.tuples(path("ck.json"), names).map(lambda t: {"class": "oidcop.cookie_handler.CookieHandler", "kwargs": {
            "keys": {"private_path": t[0], "key_defs": [{"type": "OCT", "use": ["enc"], "kid": "enc"}, {"type": "OCT", "use": ["sig"], "kid": "sig"}], "read_only": False}, "name": t[1]}}),
        "claims_interface": st.sampled_from([{"class": "oidcop.session.claims.ClaimsInterface", "kwargs": {}}, {"class": "oidcop.session.claims.OAuth2ClaimsInterface", "kwargs": {}}]),
        "authz": st.tuples(opt, opt, opt, opt).map(rules),
        "httpc_params": st.sampled_from([{"verify": True, "timeout": 9}, {"verify": False}, {"timeout": 2}]),
        "issuer": st.sampled_from(["https://one.example.org/", "https://two.example.org/op", "https://{domain}:{port}/three", "https://{domain}/four", "https://{domain}:{port}"]),
        "base_url": st.sampled_from(["https://five.example.org", "https://{domain}:{port}"]),
        "template_dir": st.sampled_from(["tmpl", "other/tmpl", "@/elsewhere/tmpl"]),
        "token_handler_args": fx({"jwks_file": path("tk.json"), "code": st.tuples(life, where).map(lambda t: stated({"kwargs": {}}, *t)), "token": token("token"), "refresh": token("refresh"),
                                  "id_token": st.tuples(life, where).map(lambda t: stated({"class": "oidcop.token.id_token.IDToken", "kwargs": {}}, *t))}),
        "scopes_to_claims": st.sampled_from([{"openid": ["sub"], "offline_access": [], "email": ["email"], "research": ["name", "webid"]}, {"openid": ["sub"], "profile": ["nickname"], "email": ["email_verified"], "empty": []}]),
        "allowed_scopes": st.lists(st.sampled_from(["openid", "email", "profile", "offline_access", "research"]), min_size=1, max_size=4, unique=True).map(lambda x: sorted({"openid"} | set(x))),
        "scopes_supported": st.lists(st.sampled_from(["openid", "email", "profile", "offline_access", "research"]), min_size=1, max_size=4, unique=True),
        "session_params": st.sampled_from([{"password": "p4ssw0rd", "salt": "s4lt"}, {"password": "hemligt", "salt": "havssalt", "sub_func": {"public": {"class": "oidcop.session.manager.PublicID", "kwargs": {"salt": "mysalt"}},
                                                                                                                                            "pairwise": {"class": "oidcop.session.manager.PairWiseID", "kwargs": {"filename": "salt.txt"}}}}]),
        "add_on": st.sampled_from([{"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {"essential": False, "code_challenge_method": ["S256", "S384"]}}},
                                   {"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {"essential": True, "code_challenge_method": ["S256"]}}}]),
        "id_token": st.just({"class": "oidcop.token.id_token.IDToken", "kwargs": {"base_claims": {"email": None}}}),
        "login_hint2acrs": st.sampled_from([{"class": "oidcop.login_hint.LoginHint2Acrs", "kwargs": {"scheme_map": {"email": ["urn:a"]}}}, {"class": "oidcop.login_hint.LoginHint2Acrs", "kwargs": {"scheme_map": {"tel": ["urn:b"], "email": []}}}]),
        "login_hint_lookup": st.one_of(st.just({}), st.just({"db": {"zoe": {"email": "zoe@hint.example"}}}), path("hints.json").map(lambda p: {"db_file": p})).map(
            lambda kw: {"class": "oidcop.login_hint.LoginHintLookup", "kwargs": {"userinfo": {"class": "oidcop.user_info.UserInfo", "kwargs": kw}} if kw else {}}),
        "sub_func": st.just({"public": {"class": "oidcop.session.manager.PublicID", "kwargs": {"salt": "mysalt"}}}),
        "userinfo": st.one_of(path("users.json").map(lambda p: {"class": "oidcop.user_info.UserInfo", "kwargs": {"db_file": p}}), st.just({"class": "oidcop.user_info.UserInfo", "kwargs": {"db": {"diana": {"name": "D", "email": "d@x.org"}}}})),
        "authentication": st.one_of(st.sampled_from(["urn:acr:1", "urn:acr:2"]).map(lambda a: {"anon": {"acr": a, "class": "oidcop.user_authn.user.NoAuthn", "kwargs": {"user": "diana"}}}),
                                    path("passwd.json").map(lambda p: {"anon": {"acr": "urn:acr:1", "class": "oidcop.user_authn.user.NoAuthn", "kwargs": {"user": "diana"}},
                                                                       "user": {"acr": "urn:acr:3", "class": "oidcop.user_authn.user.UserPassJinja2", "kwargs": {
                                                                           "verify_endpoint": "verify/user", "template": "login.jinja2", "db": {"class": "oidcop.util.JSONDictDB", "kwargs": {"filename": p}}}}})),
        "keys": st.tuples(path("jwks.json"), st.sampled_from(["jwks.json", "static/jwks.json"])).map(lambda t: {"uri_path": t[1], "private_path": t[0], "public_path": "static/jwks.json", "read_only": False,
                                                                                                           "key_defs": [{"type": "EC", "crv": "P-256", "use": ["sig"]}]}),
        "client_db": st.just({"class": "oidcmsg.storage.abfile.AbstractFileSystem", "kwargs": {"fdir": "@/elsewhere/afs", "value_conv": "oidcmsg.util.JSON"}}),
    }


ENDPOINT_SETS = [
    {"authorization": {"path": "authorization", "class": "oidcop.{f}.authorization.Authorization", "kwargs": {}},
     "token": {"path": "token", "class": "oidcop.{f}.token.Token", "kwargs": {"client_authn_method": ["client_secret_post", "client_secret_basic"]}},
     "introspection": {"path": "introspection", "class": "oidcop.oauth2.introspection.Introspection", "kwargs": {"client_authn_method": ["client_secret_post"]}},
     "provider_info": {"path": ".well-known/openid-configuration", "class": "oidcop.oidc.provider_config.ProviderConfiguration", "kwargs": {}},
     "userinfo": {"path": "userinfo", "class": "oidcop.oidc.userinfo.UserInfo", "kwargs": {}}},
    {"authorization": {"path": "a/authz", "class": "oidcop.{f}.authorization.Authorization", "kwargs": {"response_types_supported": ["code", "id_token"], "request_parameter_supported": False}},
     "token": {"path": "a/token", "class": "oidcop.{f}.token.Token", "kwargs": {"client_authn_method": ["client_secret_post"]}},
     "introspection": {"path": "a/introspect", "class": "oidcop.oauth2.introspection.Introspection", "kwargs": {"client_authn_method": ["client_secret_post"], "enable_claims_per_client": False}},
     "provider_info": {"path": ".well-known/openid-configuration", "class": "oidcop.oidc.provider_config.ProviderConfiguration", "kwargs": {}},
     "userinfo": {"path": "me", "class": "oidcop.oidc.userinfo.UserInfo", "kwargs": {"claim_types_supported": ["normal"]}}},
]
FORMS = ["dict", "dict", "json", "yaml", "nested dict", "nested json", "nested yaml"]
HOSTS = [None, None, ["op.example.net", 8443], ["as.example.com", 80]]


def spec(always=()):
    pool = settings_strategy()
    req = {k: pool[k] for k in pool if k in always}
    rest = {k: pool[k] for k in pool if k not in always}
    # every setting is left out in a third of the cases
    return st.fixed_dictionaries({**req, **{k: st.sampled_from([0, 1, 1]).flatmap(lambda i, v=v: v if i else st.none()) for k, v in rest.items()}}).map(lambda d: {k: v for k, v in d.items() if v is not None})


def settings_cases():
    fx = st.fixed_dictionaries
    one = fx({"cls": st.sampled_from(["OP", "OP", "AS"]), "set": spec(), "ends": st.sampled_from([None, 0, 1]), "form": st.sampled_from(FORMS), "base": st.sampled_from(["@/base", "@/base", "@/base/deeper", ""]),
              "inner": st.sampled_from(HOSTS), "args": st.sampled_from(HOSTS)})
    return fx({"confs": st.lists(one, min_size=1, max_size=3)})


def server_cases():
    fx = st.fixed_dictionaries
    one = fx({"cls": st.sampled_from(["OP", "OP", "AS"]), "set": spec(always=("userinfo", "authentication", "keys")), "ends": st.sampled_from([0, 1]), "form": st.sampled_from(FORMS),
              "base": st.sampled_from(["@/base", "@/base/deeper"]), "inner": st.sampled_from(HOSTS), "args": st.just(None)})
    return fx({"conf": one, "scope": st.lists(st.sampled_from(["email", "profile", "offline_access", "research", "address"]), max_size=4, unique=True), "rt": st.sampled_from(["code", "code", "code id_token", "id_token"]),
               "pkce": st.sampled_from([None, "S256", "S384"]), "wait": st.sampled_from([0, 0, 50, 150, 1000])})


# ------------------------------------------------------------------------------------- reference
def at(x, root):
    """Replace the directory marker."""
    if isinstance(x, dict):
        return {k: at(v, root) for k, v in x.items()}
    if isinstance(x, list):
        return [at(v, root) for v in x]
    return root + x[1:] if isinstance(x, str) and x.startswith("@/") else x


def complete(x, base, host):
    """What a part of the configuration looks like once file names and placeholders are completed."""
    out = {}
    for k, v in x.items():
        if k in FILES and isinstance(v, str) and v and not v.startswith("/"):
            v = os.path.join(base, v)
        elif k in ("issuer", "base_url") and isinstance(v, str):
            v = v.replace("{domain}", host[0]).replace("{port}", str(host[1]))
        elif isinstance(v, dict):
            v = complete(v, base, host)
        out[k] = v
    return out


def reference(given, cls, base, host):
    keys = list(DEFAULTS) + NO_DEFAULT + (OP_ONLY if cls == "OP" else [])
    want = {}
    for k in keys:
        if given.get(k):
            want[k] = given[k]
        elif k in DEFAULTS:
            want[k] = DEFAULTS[k]
            if k == "claims_interface" and cls == "AS":
                want[k] = {"class": "oidcop.session.claims.OAuth2ClaimsInterface", "kwargs": {}}
    want = complete(copy.deepcopy(want), base, host)
    want["template_dir"] = os.path.abspath(want["template_dir"])
    if "keys" in want:
        want["key_conf"] = want.pop("keys")
    return want


# ------------------------------------------------------------------------------------- building
def given_conf(c, root):
    g = at(copy.deepcopy(c["set"]), root)
    if c["cls"] == "AS":
        for k in OP_ONLY:
            g.pop(k, None)
    if c["ends"] is not None:
        f = "oidc" if c["cls"] == "OP" else "oauth2"
        g["endpoint"] = json.loads(json.dumps(ENDPOINT_SETS[c["ends"]]).replace("{f}", f))
    return g


def build(c, given, root, n=0):
    """The configuration object, made from the drawn form. Returns it, the domain and port it has to use, and what the caller passed."""
    cls = OPConfiguration if c["cls"] == "OP" else ASConfiguration
    base = at(c["base"], root)
    host = ["127.0.0.1", 80]
    conf = copy.deepcopy(given)
    kw = {}
    if c["inner"]:
        host = c["inner"]
    if c["args"]:
        kw = {"domain": c["args"][0], "port": c["args"][1]}
        host = c["args"]
    nested = c["form"].startswith("nested")
    if nested:
        conf = {"op": {"server_info": conf}, "webserver": {"port": 1}}
    if c["inner"]:
        # a larger configuration states them at the top
        conf["domain"], conf["port"] = c["inner"]
    before = copy.deepcopy(conf)
    target = Configuration if nested else cls
    if nested:
        kw["entity_conf"] = [{"class": cls, "attr": "op", "path": ["op", "server_info"]}]
    kind = c["form"].split()[-1]
    if kind == "dict":
        obj = target(conf, base_path=base, **kw)
        if not nested:
            check(conf == before, lambda: f"building {cls.__name__} changed the caller's dictionary: {json.dumps(before)[:300]} -> {json.dumps(conf)[:300]}")
    else:
        fn = os.path.join(root, f"conf{n}.{kind}")
        with open(fn, "w") as fp:
            fp.write(json.dumps(conf) if kind == "json" else yaml.safe_dump(conf))
        obj = create_from_config_file(target, filename=fn, base_path=base, **kw)
    return (obj["op"] if nested else obj), base, host, nested


def show(v):
    return json.dumps(v, default=repr, sort_keys=True)[:300]


def data(v):
    """A setting as plain data."""
    if isinstance(v, dict):
        return {k: data(x) for k, x in v.items()}
    return [data(x) for x in v] if isinstance(v, (list, tuple)) else v


def compare(c, given, obj, base, host, nested, rec):
    want = reference(given, c["cls"], base, host)
    have = {k: data(obj[k]) for k in obj.keys() if not k.startswith("_") and k not in ("conf", "domain", "port")}
    completed = False
    for k, v in want.items():
        raw = given.get("keys" if k == "key_conf" else k)
        completed |= v != raw
        if k not in have:
            check(False, lambda: f"{c['cls']} from {c['form']}: {k} is missing, expected {show(v)}")
        if have[k] != v:
            msg = f"{c['cls']} from {c['form']}, base {base!r}, host {host}: {k} is {show(have[k])}, expected {show(v)} (given: {show(raw)})"
            # the class does not hand domain and port to the library when it is used on its own (a shipped test relies on it)
            other = reference(given, c["cls"], base, c["inner"] or ["127.0.0.1", 80])
            if c["args"] and not nested and k in ("issuer", "base_url") and raw and have[k] == other[k]:
                rec.find("domain-port-arguments", msg)
            else:
                check(False, msg)
    extra = [k for k in have if k not in want and (k in NO_DEFAULT or k in OP_ONLY) and have[k]]
    check(not extra, lambda: f"{c['cls']} from {c['form']}: settings nobody gave: {extra}")
    return completed


def run_settings(case, rec):
    root = boot.scratch()
    objs = []
    for n, c in enumerate(case["confs"]):
        given = given_conf(c, root)
        obj, base, host, nested = build(c, given, root, n)
        completed = compare(c, given, obj, base, host, nested, rec)
        missing = [k for k in DEFAULTS if k not in given]
        rec.nontrivial(len(given) >= 3 and len(missing) >= 2 and completed)
        rec.label(c["form"], c["cls"])
        objs.append((c, given, obj, base, host, nested))
        # whoever owns a configuration may change it; nobody else's changes with it
        if n + 1 < len(case["confs"]):
            scribble(obj)
    c, given, obj, base, host, nested = objs[-1]
    compare(c, given, obj, base, host, nested, rec)


def scribble(x):
    for k in list(x.keys()):
        v = x[k]
        if isinstance(v, dict) and type(v) is dict:
            scribble(v)
            v["scribble"] = 1
        elif isinstance(v, list):
            v.append("scribble")


# --------------------------------------------------------------------------------------- servers
class Running:
    """The calls of ops.OP over a server that has been built elsewhere."""

    def __new__(cls, server, conf, flavour, client):
        op = ops.OP.__new__(ops.OP)
        op.flavour, op.raw_conf, op.config = flavour, conf, conf
        op.httpc = server.endpoint_context.httpc if hasattr(server.endpoint_context, "httpc") else None
        op.server, op.ctx = server, server.endpoint_context
        op.mngr = op.ctx.session_manager
        if client:
            op.add_client(client)
        return op


VOLATILE = {"code", "sid", "jti", "at_hash", "c_hash", "s_hash", "session_state", "access_token", "refresh_token", "id_token", "kid"}


def tidy(x):
    if isinstance(x, dict):
        return {k: tidy(v) for k, v in sorted(x.items()) if k not in VOLATILE} | {k: "..." for k in x if k in VOLATILE}
    if isinstance(x, (list, tuple)):
        x = [tidy(v) for v in x]
        return sorted(x, key=repr)
    return x


def plain(msg):
    return tidy(msg.to_dict() if hasattr(msg, "to_dict") else dict(msg)) if msg else None


def script(op, case, client):
    """The requests of a case, and what came back."""
    out = {}
    CLOCK.reset()
    out["provider info"] = tidy({k: v for k, v in op.ctx.provider_info.items()})
    p = op.call("provider_config", {})
    out["discovery"] = (p.ok, plain(p.args))
    out["jwks_uri"] = op.ctx.jwks_uri
    out["http"] = tidy(op.ctx.httpc_params)
    out["cookie names"] = tidy(op.ctx.cookie_handler.name)
    h = op.ctx.login_hint2acrs
    out["hints"] = [h("email:a@b"), h("tel:1")] if h else None
    out["lookups"] = None
    if op.ctx.login_hint_lookup:
        out["lookups"] = {}
        for m in ("zoe@hint.example", "fay@hint.example", "diana@example.org", "d@x.org"):
            try:
                out["lookups"][m] = op.ctx.login_hint_lookup("mail:" + m)
            except KeyError:
                out["lookups"][m] = None
    kw = {}
    if case["pkce"]:
        import hashlib
        import base64
        ver = "v" * 50
        kw = {"code_challenge_method": case["pkce"],
              "code_challenge": base64.urlsafe_b64encode(getattr(hashlib, "sha" + case["pkce"][1:])(ver.encode()).digest()).decode().rstrip("=")}
    scope = case["scope"] if op.flavour == "oauth2" else ["openid"] + case["scope"]
    if "offline_access" in scope:
        kw["prompt"] = "consent"
    ops.set_user(op, "diana")
    rt = case["rt"] if op.flavour == "oidc" else "code"
    a = op.call("authorization", ops.auth_request(client, scope=scope, response_type=rt, **kw))
    out["authorization"] = (a.ok, a.error, plain(a.args))
    out["code"] = a.args.get("code") if a.args else None
    out["sid"] = a.raw.get("session_id") if isinstance(a.raw, dict) else None
    if a.args and a.args.get("id_token"):
        out["front id token"] = tidy(ops.jwt_payload(a.args["id_token"]))
    code = a.args.get("code") if a.args else None
    if not code:
        return out, False
    CLOCK.advance(case["wait"])
    x = ops.exchange(op, client, code, issue_refresh=True, **({"code_verifier": "v" * 50} if case["pkce"] else {}))
    out["exchange"] = (x.ok, x.error, plain(x.args))
    if not x.ok:
        return out, False
    if "id_token" in x.args:
        out["id token"] = tidy(ops.jwt_payload(x.args["id_token"]))
    for what in ("access_token", "refresh_token"):
        if what in x.args:
            i = ops.introspect(op, client, x.args[what])
            out["introspect " + what] = (i.ok, plain(i.args))
    if op.flavour == "oidc":
        u = ops.userinfo(op, x.args["access_token"])
        out["userinfo"] = (u.ok, plain(u.args))
    CLOCK.advance(case["wait"])
    if "refresh_token" in x.args:
        r = ops.refresh(op, client, x.args["refresh_token"])
        out["refresh"] = (r.ok, r.error, plain(r.args))
    i = ops.introspect(op, client, x.args["access_token"])
    out["later"] = (i.ok, plain(i.args))
    return out, True


def no_sub(x):
    if isinstance(x, dict):
        return {k: "..." if k == "sub" and isinstance(v, str) else no_sub(v) for k, v in x.items()}
    return type(x)(no_sub(v) for v in x) if isinstance(x, (list, tuple)) else x


def issuer_of(want):
    return want["issuer"]


def kids(server, iss):
    return sorted(k.kid for k in server.endpoint_context.keyjar.get_issuer_keys(iss))


def effects(case, given, want, got, rec):
    """What the configuration says has to be seen in the answers."""
    gc = want["authz"]["kwargs"]["grant_config"]
    th = want["token_handler_args"]
    grant_life = gc.get("expires_in", 10 ** 9)

    def own(kind):
        return th[kind].get("lifetime") or th[kind].get("kwargs", {}).get("lifetime", 1800 if "JWTToken" in th[kind].get("class", "") else 300)

    def life(kind, rule):
        r = gc["usage_rules"].get(rule, {})
        if "expires_in" in r:
            return r["expires_in"] if r["expires_in"] >= 0 else 10 ** 9
        return own(kind)

    names = want["cookie_handler"]["kwargs"]["name"]
    check(got["cookie names"] == tidy(names), lambda: f"cookie names {got['cookie names']}, configured {names}")
    for k, v in want["httpc_params"].items():
        check(got["http"].get(k) == v, lambda: f"http client parameters {got['http']}, configured {want['httpc_params']}")
    acr = want["authentication"]["anon"]["acr"]
    for t in ("front id token", "id token"):
        if t in got:
            check(got[t]["acr"] == acr, lambda: f"{t} has acr {got[t]['acr']}, configured {acr}")
            lt = own("id_token")
            check(got[t]["exp"] - got[t]["iat"] == lt, lambda: f"{t} lives for {got[t]['exp'] - got[t]['iat']}, configured {lt}")
            check(got[t]["iss"] == want["issuer"], lambda: f"{t} has issuer {got[t]['iss']}")
    if want.get("login_hint2acrs"):
        m = want["login_hint2acrs"]["kwargs"]["scheme_map"]
        check(got["hints"] == [m.get("email", []), m.get("tel", [])], lambda: f"hints are mapped to {got['hints']}, configured {m}")
    if want.get("login_hint_lookup"):
        spec = want["login_hint_lookup"]["kwargs"].get("userinfo") or want["userinfo"]
        people = spec["kwargs"].get("db") or (HINTS if spec["kwargs"]["db_file"].endswith("hints.json") else ops.USERS)
        for m, u in got["lookups"].items():
            who = next((n for n, a in people.items() if a.get("email") == m), None)
            check(u == who, lambda: f"login hint for {m} is taken as {u}, it is {who} in the configured users {spec}")
    pkce = (want.get("add_on") or {}).get("pkce")
    auth = got["authorization"]
    if pkce:
        if pkce["kwargs"]["essential"] and not case["pkce"]:
            check(auth[1], lambda: f"PKCE is configured to be essential, but a request without challenge is answered {auth}")
        if case["pkce"] and case["pkce"] not in pkce["kwargs"]["code_challenge_method"]:
            check(auth[1], lambda: f"{case['pkce']} is not among the configured PKCE methods but accepted: {auth}")
    if "exchange" not in got:
        return
    if case["wait"] in (life("code", "authorization_code"), grant_life):
        return  # the very second things end is open
    ok = case["wait"] < min(life("code", "authorization_code"), grant_life)
    check(got["exchange"][0] == ok, lambda: f"code presented after {case['wait']} s: {got['exchange']}; code lives for {life('code', 'authorization_code')}, grant for {grant_life}")
    if ok:
        at = life("token", "access_token")
        check(got["exchange"][2].get("expires_in", at) == at, lambda: f"access token expires in {got['exchange'][2].get('expires_in')}, configured {at}")
        if case["wait"] == at or 2 * case["wait"] == grant_life:
            return
        active = case["wait"] < at and 2 * case["wait"] < grant_life
        check(got["later"][1]["active"] == active, lambda: f"access token {case['wait']} s after it was issued, {2 * case['wait']} s after the login: {got['later']}; configured: {at}, {grant_life}")
        rec.label("active" if active else "inactive")


def files(root):
    return sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs)


HINTS = {"fay": {"email": "fay@hint.example"}}


def prepare(want):
    """The files a configuration refers to and that the server does not make itself."""
    def walk(x):
        for k, v in x.items():
            if k in FILES and isinstance(v, str) and v:
                os.makedirs(os.path.dirname(v), exist_ok=True)
                if k == "db_file":
                    with open(v, "w") as fp:
                        json.dump(HINTS if v.endswith("hints.json") else ops.USERS, fp)
                elif v.endswith("passwd.json"):
                    with open(v, "w") as fp:
                        json.dump({"diana": "krall"}, fp)
                elif k == "template_dir":
                    os.makedirs(v, exist_ok=True)
            elif isinstance(v, dict):
                walk(v)
    walk(want)


def made_files(want):
    """The key and salt files a server makes."""
    out = []
    for part, steps in (("cookie_handler", ["kwargs", "keys", "private_path"]), ("token_handler_args", ["jwks_file"]), ("key_conf", ["private_path"])):
        v = want.get(part)
        for s in steps:
            v = (v or {}).get(s)
        if v:
            out.append(v)
    return out


def settings_of(v):
    """A copy of the plain data in a configuration."""
    if isinstance(v, dict):
        return {k: settings_of(x) for k, x in dict.items(v)}
    return [settings_of(x) for x in v] if isinstance(v, (list, tuple)) else v


def changes(a, b):
    return show({k: [a.get(k), b.get(k)] for k in set(a) | set(b) if a.get(k) != b.get(k)}) if isinstance(a, dict) and isinstance(b, dict) else show([a, b])


def run_server(case, rec):
    root = boot.scratch()
    cwd = os.path.join(root, "cwd")
    os.makedirs(cwd, exist_ok=True)
    back = os.getcwd()
    c = case["conf"]
    given = given_conf(c, root)
    flavour = "oidc" if c["cls"] == "OP" else "oauth2"
    obj, base, host, nested = build(c, given, root)
    want = reference(given, c["cls"], base, host)
    prepare(want)
    client = ops.client_conf(0, id_token_signed_response_alg="ES256")
    client.pop("allowed_scopes")
    os.chdir(cwd)
    try:
        boot.reseed(1)
        settings = settings_of(obj)
        server = Server(obj, cwd=cwd)
        check(settings_of(obj) == settings, lambda: f"starting a server changed the configuration it was given: {changes(settings, settings_of(obj))}")
        for fn in made_files(want):
            check(os.path.exists(fn), lambda: f"{c['cls']} from {c['form']}: the key file {fn} of the configuration was not used; files: {files(root)}")
        boot.reseed(7)
        restart = Server(build(c, given, root)[0], cwd=cwd)
        if "client_db" in given:
            # the clients are kept in files: they are still known after a restart
            Running(server, obj, flavour, client)
            boot.reseed(1)
            server = Server(build(c, given, root)[0], cwd=cwd)
            check(client["client_id"] in server.endpoint_context.cdb.keys(), lambda: f"the client is gone from the client database after a restart: {files(root)}")
            server.endpoint_context.keyjar.add_symmetric(client["client_id"], client["client_secret"])
        # the very same configuration spelled out; its own directory
        root2 = root + "-plain"
        given2 = given_conf(c, root2)
        want2 = reference(given2, c["cls"], at(c["base"], root2), host)
        prepare(want2)
        want2.pop("client_db", None)
        if "key_conf" in want2:
            want2["keys"] = want2["key_conf"]
        cwd2 = os.path.join(root2, "cwd")
        os.makedirs(cwd2, exist_ok=True)
        os.chdir(cwd2)
        spelled = copy.deepcopy(want2)
        boot.reseed(1)
        server2 = Server(spelled, cwd=cwd2)
        # what is made of a configuration doesn't end up in it: the next one to use it finds what was written
        check(settings_of(spelled) == settings_of(want2), lambda: f"starting a server changed the configuration it was given: {changes(settings_of(want2), settings_of(spelled))}")
        os.chdir(cwd)
        got, full = script(Running(server, obj, flavour, None if "client_db" in given else client), case, client)
        os.chdir(cwd2)
        exp, full2 = script(Running(server2, spelled, flavour, client), case, client)
    finally:
        os.chdir(back)
        import shutil
        shutil.rmtree(root + "-plain", ignore_errors=True)
    if "session_params" not in given:
        # the salt is random then
        got, exp = no_sub(got), no_sub(exp)
    effects(case, given, want, got, rec)
    if "session_params" in given and got["sid"]:
        for other in (server, server2):
            try:
                who = other.endpoint_context.session_manager.decrypt_session_id(got["sid"])
            except Exception as e:  # noqa: B902
                who = repr(e)
            check(who[:2] == ["diana", client["client_id"]], lambda: f"the session password is configured, but a session identifier of one server means {who} at another one")
    again = restart
    for iss in ("", issuer_of(want)):
        check(kids(server, iss) == kids(again, iss), lambda: f"keys of {iss!r} changed over a restart: {kids(server, iss)} {kids(again, iss)}")
    name = want["cookie_handler"]["kwargs"]["name"]["session"]
    c1 = server.endpoint_context.new_cookie(name=name, sub="x", sid="y")
    back_ = again.endpoint_context.cookie_handler.parse_cookie(cookies=[c1], name=name)
    check(back_ and json.loads(back_[0]["value"]) == {"sub": "x", "sid": "y"}, lambda: f"a cookie is not understood after a restart: {back_}")
    if got["code"]:
        # codes are protected with a key of the key file
        try:
            sid = again.endpoint_context.session_manager.token_handler.info(got["code"])["sid"]
        except Exception as e:  # noqa: B902
            sid = repr(e)
        check(sid == got["sid"], lambda: f"a code is not understood after a restart: {sid}")
    for k in ("sid", "code"):
        got.pop(k), exp.pop(k)
    for k in exp:
        check(got.get(k) == exp[k], lambda: f"{c['cls']} from {c['form']}: {k} differs from the server with the same configuration spelled out: {show(got.get(k))} != {show(exp[k])}")
    check(set(got) == set(exp), lambda: f"{sorted(set(got) ^ set(exp))} answered at one server only")
    issuer = want["issuer"]
    check(got["provider info"].get("issuer") == issuer, lambda: f"issuer {issuer} configured, {got['provider info'].get('issuer')} published")
    check(sorted(f for f in files(root) if f.startswith("cwd")) == [] or not given, lambda: f"files were made in the working directory instead of the base path: {files(root)}")
    for name in ("authorization", "token", "userinfo", "introspection"):
        e = server.server_get("endpoint", name)
        p = given["endpoint"][name]["path"]
        check(e.full_path == issuer.rstrip("/") + "/" + p, lambda: f"endpoint {name} is at {e.full_path}, configured: issuer {issuer}, path {p}")
    rec.nontrivial(full and full2)
    rec.label(c["form"], c["cls"], "exchanged" if full else "refused")


SUBS = [Sub("settings", settings_cases, run_settings, quick=400), Sub("servers", server_cases, run_server, quick=300)]
