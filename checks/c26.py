"""C26: servers, clients and configurations do not leak into each other."""
import copy
import json
import sys
import types

from hypothesis import strategies as st

from pbt import boot, hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import JWS
from oidcmsg.message import Message

from checks.c15 import MAPS, POINTS

RULE = ("a case configures two servers (separately, from one dictionary or from one configuration object) and two clients at each, draws a history of logins, exchanges, refreshes, userinfo, "
        "introspection, registration and pushed requests of four client-user pairs at both, and runs it twice: only the requests of one pair at a fresh first server, and everything; "
        "non-trivial when the pair got at least three answers and at least three unrelated requests ran in between")

CLAIMS = ["name", "nickname", "email", "address", "webid", "phone_number", "updated_at", "eduperson_scoped_affiliation"]
SCOPES = ["profile", "email", "offline_access", "address", "phone", "offline_access", "research", "dept"]
RULES = [None, {"authorization_code": {"max_usage": 1, "supports_minting": ["access_token", "refresh_token", "id_token"], "expires_in": 100}, "access_token": {"expires_in": 50},
                "refresh_token": {"expires_in": 5000, "supports_minting": ["access_token", "refresh_token"]}},
         {"authorization_code": {"max_usage": 1, "supports_minting": ["access_token", "id_token"], "expires_in": 400}, "access_token": {}, "refresh_token": {}}, {}]
CLIENT_RULES = [None, None, {"access_token": {"expires_in": 33}}, {"refresh_token": {"supports_minting": ["access_token"], "expires_in": 77}, "authorization_code": {"expires_in": 44, "max_usage": 1, "supports_minting": ["access_token", "refresh_token", "id_token"]}},
                {"authorization_code": {"supports_minting": ["access_token"], "max_usage": 1}}]
RANDOM = {"code", "jti", "at_hash", "c_hash", "s_hash", "session_state", "client_secret", "registration_access_token", "registration_client_uri", "request_uri", "kid", "refresh_token", "client_id_issued_at"}
REQUESTS = [None, None, {"userinfo": {"nickname": None, "webid": {"essential": True}}}, {"id_token": {"email": {"value": "x"}, "name": None}}, {"userinfo": {"email": None}, "id_token": {"auth_time": {"essential": True}, "nickname": None}},
            {"introspection": {"name": None}}]


def cases():
    fx = st.fixed_dictionaries
    spec = st.lists(st.sampled_from(CLAIMS), max_size=3, unique=True)
    point = fx({"base": spec, "by_scope": st.booleans(), "per_client": st.booleans(), "always": spec})
    server = fx({"format": st.sampled_from(["jwt", "opaque"]), "rules": st.integers(0, len(RULES) - 1), "points": fx({p: point for p in POINTS}), "map": st.integers(0, len(MAPS) - 1), "custom": st.booleans(),
                 "pkce": st.sampled_from([None, None, {}]), "lifetime": st.sampled_from([100, 3600]), "deny": st.booleans(), "same_issuer": st.booleans(), "issue_refresh": st.sampled_from([True, True, False]),
                 "methods": st.sampled_from([None, None, ["client_secret_basic"], ["client_secret_post", "client_secret_jwt"]]), "default_acr": st.booleans()})
    client = fx({"rules": st.integers(0, len(CLIENT_RULES) - 1), "always": st.dictionaries(st.sampled_from(POINTS), spec, max_size=3), "by_scope": st.dictionaries(st.sampled_from(POINTS), st.booleans(), max_size=3),
                 "map": st.integers(0, len(MAPS) - 1), "allowed": st.one_of(st.none(), st.lists(st.sampled_from(SCOPES), max_size=5, unique=True)), "alg": st.sampled_from([None, None, "ES256", "HS256"]),
                 "ui": st.sampled_from([None, None, "RS256"]), "subject": st.sampled_from([None, "pairwise", "public"])})
    who = st.sampled_from([0, 0, 0, 1, 2, 3])
    login = fx({"op": st.just("login"), "s": st.sampled_from([0, 0, 0, 1]), "who": who, "rt": st.sampled_from(["code", "code", "code", "code id_token token", "id_token token", "token"]),
                "scope": st.lists(st.sampled_from(SCOPES), max_size=5, unique=True), "claims": st.integers(0, len(REQUESTS) - 1), "par": st.sampled_from([0, 0, 1]), "cookie": st.booleans()})
    use = fx({"op": st.sampled_from(["exchange", "exchange", "refresh", "refresh", "userinfo", "introspect", "foreign", "id_token_info"]), "s": st.sampled_from([0, 0, 0, 1]), "who": who, "n": st.integers(0, 6), "auth": st.sampled_from(["post", "basic", "jwt", "jwt"]),
              "narrow": st.one_of(st.none(), st.lists(st.integers(0, 6), max_size=2))})
    misc = fx({"op": st.sampled_from(["register", "provider", "junk", "advance", "logout"]), "s": st.sampled_from([0, 0, 0, 1]), "who": who, "n": st.integers(0, 11)})
    return fx({"flavour": st.sampled_from(["oidc", "oidc", "oidc", "oauth2"]), "share": st.sampled_from(["own", "own", "dict", "object"]), "servers": st.lists(server, min_size=2, max_size=2),
               "clients": st.lists(client, min_size=2, max_size=2), "focus": st.sampled_from([0, 0, 0, 0, 1, 2, 3]),
               "first": st.tuples(login, login, login).map(list), "ops": hist.sized_lists(st.sampled_from([0, 0, 1, 1, 1, 1, 1, 2]).flatmap(lambda i: [login, use, misc][i]), 5, 30)})


# ------------------------------------------------------------------------------- library defaults
def plain(x, depth=0):
    """A container as text, with what is not data replaced by its type."""
    if isinstance(x, dict):
        return "{" + ", ".join(f"{plain(k)}: {plain(v, depth + 1)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(plain(v, depth + 1) for v in x) + "]"
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(sorted(plain(v) for v in x)) + "}"
    if isinstance(x, (str, int, float, bool, type(None), bytes)):
        return repr(x)
    return type(x).__name__


_DEFAULTS = None
_CACHES = set()


def defaults():
    """The constants of the library: public containers in upper case in modules, and public containers of classes."""
    out = {}
    for name, mod in sorted(sys.modules.items()):
        if name.split(".")[0] != "oidcop" or not isinstance(mod, types.ModuleType):
            continue
        for attr, v in list(vars(mod).items()):
            if attr.isupper() and not attr.startswith("_") and isinstance(v, (dict, list, set)):
                key = f"{name}.{attr}"
                if not v and key not in (_DEFAULTS or {}):
                    _CACHES.add(key)        # empty when first seen: not a default
                if key not in _CACHES:
                    out[key] = v
            elif isinstance(v, type) and getattr(v, "__module__", None) == name:
                for a, c in list(vars(v).items()):
                    if not a.startswith("_") and isinstance(c, (dict, list, set)):
                        out[f"{name}.{attr}.{a}"] = c
    return out


def snapshot():
    return {k: plain(v) for k, v in defaults().items()}


def keep():
    """The contents of the defaults when the process started, and the means to restore them."""
    global _DEFAULTS
    if _DEFAULTS is None:
        _DEFAULTS = {k: (v, copy.deepcopy(v)) for k, v in defaults().items() if copyable(v)}
    return _DEFAULTS


def copyable(v):
    try:
        copy.deepcopy(v)
    except Exception:
        return False
    return True


def restore():
    for k, (v, orig) in keep().items():
        if plain(v) != plain(orig):
            fresh = copy.deepcopy(orig)
            v.clear()
            v.update(fresh) if isinstance(v, (dict, set)) else v.extend(fresh)


# ---------------------------------------------------------------------------------------- set-up
def configure(case, i):
    s, fl = case["servers"][i], case["flavour"]
    issuer = ops.ISSUER if i == 0 or s["same_issuer"] else "https://other.example.com/"
    conf = ops.base_conf(flavour=fl, token_format=s["format"], issuer=issuer, usage_rules=RULES[s["rules"]], at_lifetime=s["lifetime"])
    m = MAPS[s["map"]]
    if m:
        if s["custom"] and fl == "oidc":
            conf["add_on"] = {"custom_scopes": {"function": "oidcop.oidc.add_on.custom_scopes.add_custom_scopes", "kwargs": copy.deepcopy(m)}}
        else:
            conf["scopes_to_claims"] = copy.deepcopy(m)
    if s["pkce"] is not None:
        conf.setdefault("add_on", {})["pkce"] = {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": dict(s["pkce"])}
    for p, q in s["points"].items():
        kw = {"add_claims_by_scope": q["by_scope"], "enable_claims_per_client": q["per_client"]}
        if q["base"]:
            kw["base_claims"] = {c: None for c in q["base"]}
        if q["always"]:
            kw["always_add_claims"] = list(q["always"])
        if p in ("userinfo", "introspection") and p in conf["endpoint"]:
            conf["endpoint"][p]["kwargs"].update(kw)
        elif p == "id_token" and fl == "oidc":
            conf["token_handler_args"]["id_token"]["kwargs"].update(kw)
        elif p == "access_token" and s["format"] == "jwt":
            conf["token_handler_args"]["token"]["kwargs"].update(kw)
    if s["deny"]:
        conf["endpoint"]["authorization"]["kwargs"]["deny_unknown_scopes"] = True
    conf["token_handler_args"]["jwks_file"] = f"private/c26_{i}.json"
    if i:
        for k in ("code", "token", "refresh"):
            if "password" in conf["token_handler_args"][k]:
                conf["token_handler_args"][k]["password"] += "-other"
        conf["session_params"] = {"password": "other-password", "salt": "other-salt"}
        conf["cookie_handler"]["kwargs"].update(sign_key=SYMKey(k="XXsNKDDLshZTPn974nOsIGhedULrsqnsGoBFBLwUKuJhE2ch"), enc_key=SYMKey(k="YXi6HD473d_YS4exVRn7z9z23mGmvU64"))
    if not fl == "oidc":
        conf["userinfo"] = {"class": "oidcop.user_info.UserInfo", "kwargs": {"db": copy.deepcopy(ops.USERS)}}
    return conf


def client(case, i):
    s = case["clients"][i]
    kw = {"add_claims": {"always": copy.deepcopy(s["always"]), "by_scope": dict(s["by_scope"])}}
    if CLIENT_RULES[s["rules"]]:
        kw["token_usage_rules"] = copy.deepcopy(CLIENT_RULES[s["rules"]])
    if MAPS[s["map"]]:
        kw["scopes_to_claims"] = copy.deepcopy(MAPS[s["map"]])
    kw["allowed_scopes"] = (["openid"] + s["allowed"]) if s["allowed"] is not None else None
    if s["alg"]:
        kw["id_token_signed_response_alg"] = s["alg"]
    if s["ui"]:
        kw["userinfo_signed_response_alg"] = s["ui"]
    if s["subject"]:
        kw["subject_type"] = s["subject"]
    return ops.client_conf(i, **kw)


class Run:
    """One run of a history; answers of the focus pair at the first server are recorded."""

    def __init__(self, case, alone):
        self.case, self.alone, self.answers, self.others = case, alone, [], 0
        self.clients = [client(case, i) for i in (0, 1)]
        confs = [configure(case, 0), configure(case, 1)]
        self.raw = [confs[0]]
        cls = {} if case["flavour"] == "oidc" else {"flavour": "oauth2"}
        self.raw_text = [plain(c) for c in confs]
        self.servers = []
        shared = None
        for i in (0, 1):
            if alone and i:
                continue
            if i and case["share"] == "dict":
                confs[1] = confs[0]
            else:
                self.raw.append(confs[i]) if i else None
            if i and case["share"] == "object":
                shared = self.servers[0].config
            self.servers.append(ops.OP(confs[i] if shared is None else confs[0], clients=self.clients, keys=["server", "attacker"][i] if case["share"] == "own" else "server", config=shared, **cls))
        self.state = {}
        for n, op in enumerate(self.servers):
            op.ctx.userinfo.db = copy.deepcopy(ops.USERS)
        self.before = self.config_texts()

    def config_texts(self):
        out = {}
        for n, op in enumerate(self.servers):
            c = op.server.conf
            for k in sorted(vars(c) if hasattr(c, "__dict__") else c):
                v = c.get(k) if hasattr(c, "get") else None
                if not k.startswith("_"):
                    out[f"server {n} configuration {k}"] = plain(v)
            for cid, cc in op.ctx.cdb.items():
                if cid in ("client_0", "client_1"):
                    out[f"server {n} client {cid}"] = plain({k: v for k, v in cc.items() if k != "auth_method"})
            for name, ep in op.server.endpoint.items():
                out[f"server {n} endpoint {name}"] = plain(ep.kwargs)
            out[f"server {n} users"] = plain(op.ctx.userinfo.db)
            out[f"server {n} grants"] = plain(op.ctx.authz.grant_config)
            out[f"server {n} provider info"] = plain(op.ctx.provider_info)
        return out

    def play(self):
        f = self.case["focus"]
        for i, o in enumerate(self.opening() + self.case["ops"]):
            if o["op"] == "advance":
                CLOCK.advance([1, 5, 30, 40, 60, 110, 200, 1000, 4000, 10, 20, 45][o["n"]])
                continue
            focus = o["who"] == f and o["s"] == 0 and o["op"] not in ("junk", "foreign")
            if self.alone and not focus:
                continue
            if o["s"] >= len(self.servers):
                continue
            boot.reseed(1000 + i)
            a = getattr(self, "do_" + o["op"])(o)
            if focus and a is not None:
                self.answers.append((i, o["op"], a))
            elif not focus:
                self.others += 1
        return self

    def opening(self):
        """Logins and exchanges that give the rest of the history something to work with."""
        out = []
        for n, o in enumerate(self.case["first"]):
            o = {**o, "rt": "code", "s": 0 if n == 0 else o["s"], "who": self.case["focus"] if n == 0 else o["who"], "scope": sorted({"offline_access"} | set(o["scope"]))}
            out += [o, {"op": "exchange", "s": o["s"], "who": o["who"], "n": 0, "auth": "post", "narrow": None}]
        return out[2:4] + out[:2] + out[4:]

    # ------------------------------------------------------------------ requests
    def st(self, o, k):
        return self.state.setdefault((o["s"], o["who"], k), [])

    def pair(self, o):
        return self.servers[o["s"]], self.clients[o["who"] % 2], ["diana", "babs"][o["who"] // 2]

    def answer(self, out, cookies=False):
        if not out.ok:
            e = out.error
            return {"error": e, "stage": out.stage}
        args = out.args.to_dict() if isinstance(out.args, Message) else dict(out.args or {})
        a = {"answer": args}
        if out.http and out.http.get("response") and "userinfo" not in a:
            a["headers"] = [h for h in out.http.get("http_headers", [])]
        if cookies:
            a["cookies"] = sorted(c["name"] for c in ops.find_cookies(out))
        return a

    def keep(self, o, args, scope):
        for k in ("code", "access_token", "refresh_token", "id_token"):
            if args and args.get(k):
                self.st(o, k).append((args[k], scope))

    def do_login(self, o):
        op, c, uid = self.pair(o)
        oidc = self.case["flavour"] == "oidc"
        scope = (["openid"] if oidc else []) + [s for s in o["scope"]]
        rt = o["rt"] if oidc or "id_token" not in o["rt"] else "code"
        extra = {}
        if REQUESTS[o["claims"]] and oidc:
            extra["claims"] = json.dumps(REQUESTS[o["claims"]])
        r = ops.auth_request(c, response_type=rt, scope=scope, **extra)
        ops.set_user(op, uid)
        if o["par"]:
            p = op.call("pushed_authorization", {**r, "client_secret": c["client_secret"]})
            if not p.ok:
                return self.answer(p)
            r = {"client_id": c["client_id"], "request_uri": p.raw["http_response"]["request_uri"], "response_type": rt, "scope": " ".join(scope), "redirect_uri": r["redirect_uri"]}
        cookies = self.st(o, "cookie")
        hi = {"headers": {}}
        if o["cookie"] and cookies:
            hi["cookie"] = cookies[-1]
        out = op.call("authorization", r, http_info=hi)
        if out.ok:
            self.keep(o, out.args, scope)
            self.st(o, "cookie").append(ops.find_cookies(out))
        return self.answer(out, cookies=True)

    def auth(self, o, c, r):
        if o["auth"] == "basic":
            r = {k: v for k, v in r.items() if k != "client_secret"}
            return r, {"headers": {"authorization": ops.basic_header(c["client_id"], c["client_secret"])}}
        if o["auth"] == "jwt":      # its identifiers are new at this server, but not at the other one
            ids = self.st(o, "jti")
            ids.append(f"{o['who']}-{len(ids)}")
            now = int(CLOCK.now)
            body = {"iss": c["client_id"], "sub": c["client_id"], "aud": [self.pair(o)[0].ep("token").full_path], "jti": ids[-1], "iat": now, "exp": now + 300}
            r = {k: v for k, v in r.items() if k != "client_secret"}
            r.update(client_assertion=JWS(json.dumps(body), alg="HS256").sign_compact([SYMKey(key=c["client_secret"].encode())]),
                     client_assertion_type="urn:ietf:params:oauth:client-assertion-type:jwt-bearer")
        return r, {"headers": {}}

    def token(self, o, r, scope):
        op, c, uid = self.pair(o)
        r, hi = self.auth(o, c, r)
        out = op.call("token", r, http_info=hi, issue_refresh=self.case["servers"][o["s"]]["issue_refresh"])
        if out.ok:
            self.keep(o, out.args, scope)
        return self.answer(out)

    def do_exchange(self, o):
        codes = self.st(o, "code")
        if codes:
            code, scope = codes[-1 - (o["n"] // 3) % len(codes)]
            return self.token(o, ops.code_request(self.pair(o)[1], code), scope)

    def do_refresh(self, o):
        toks = self.st(o, "refresh_token")
        if toks:
            tok, scope = toks[-1 - (o["n"] // 3) % len(toks)]
            narrow = None if o["narrow"] is None else [s for i, s in enumerate(scope) if i not in o["narrow"]]
            return self.token(o, ops.refresh_request(self.pair(o)[1], tok, narrow or None), scope)

    def do_userinfo(self, o):
        toks = self.st(o, "access_token")
        op = self.pair(o)[0]
        if toks and "userinfo" in op.server.endpoint:
            out = ops.userinfo(op, toks[-1 - (o["n"] // 3) % len(toks)][0])
            a = self.answer(out)
            if out.http and isinstance(out.http.get("response"), str) and out.http["response"].count(".") == 2:
                a["signed"] = out.http["response"]
            return a

    def do_introspect(self, o):
        toks = self.st(o, "access_token") + self.st(o, "refresh_token")
        if toks:
            op, c, uid = self.pair(o)
            return self.answer(ops.introspect(op, c, toks[-1 - o["n"] % len(toks)][0]))

    def do_id_token_info(self, o):
        toks = self.st(o, "id_token")
        if toks:
            op, c, uid = self.pair(o)
            try:
                i = op.mngr.token_handler.info(toks[-1][0])
            except Exception as e:
                return {"error": type(e).__name__}
            return {"exp": i["exp"], "aud": i.get("aud")}

    def do_register(self, o):
        op = self.servers[o["s"]]
        if "registration" not in op.server.endpoint:
            return None
        meta = [{}, {"response_types": ["code", "id_token token"], "grant_types": ["authorization_code", "implicit"]}, {"id_token_signed_response_alg": "ES256", "contacts": ["a@example.com"]},
                {"subject_type": "pairwise"}, {"token_endpoint_auth_method": "client_secret_basic"}, {"userinfo_signed_response_alg": "RS256"}, {"scope": "openid email", "client_name": "x"},
                {"application_type": "native", "redirect_uris": ["http://localhost/cb"]}, {"response_types": ["token"]}, {"default_max_age": 10}, {"frontchannel_logout_uri": "https://n.example.com/l"}, {"id_token_signed_response_alg": "XX"}][o["n"]]
        out = op.call("registration", json.dumps({"redirect_uris": ["https://n.example.com/cb"], **meta}))
        a = self.answer(out)
        if out.ok:
            a["answer"].pop("client_id")
        return a

    def do_provider(self, o):
        op = self.servers[o["s"]]
        if "provider_config" in op.server.endpoint:
            return self.answer(op.call("provider_config", {}))
        return {"answer": json.loads(json.dumps(dict(op.ctx.provider_info), default=str))}

    def do_logout(self, o):
        """The front of a logout: it asks for confirmation and changes nothing."""
        op, c, uid = self.pair(o)
        toks, cookies = self.st(o, "id_token"), self.st(o, "cookie")
        if toks and cookies and "session" in op.server.endpoint:
            out = op.call("session", {"id_token_hint": toks[-1][0]}, http_info={"headers": {}, "cookie": cookies[-1]}, respond=False)
            return {"ok": out.ok, "error": out.error if not out.ok else None}

    def do_junk(self, o):
        op, c, uid = self.pair(o)
        n = o["n"]
        name, r = [("authorization", {"client_id": c["client_id"], "response_type": "code", "scope": "openid what", "redirect_uri": "https://evil.example.com/"}),
                   ("authorization", {"client_id": "nobody", "response_type": "code", "scope": "openid", "redirect_uri": "https://evil.example.com/"}),
                   ("token", ops.code_request(c, "nothing")), ("token", {"grant_type": "what", "client_id": c["client_id"], "client_secret": c["client_secret"]}), ("introspection", {"token": "x"}),
                   ("userinfo", {}), ("registration", "{}"), ("registration", json.dumps({"redirect_uris": ["https://a.example.com/cb"], "response_types": ["nonsense"], "scope": "weird", "token_endpoint_auth_method": "what"})),
                   ("pushed_authorization", {"client_id": c["client_id"]}), ("token", ops.refresh_request(c, "nothing", ["openid", "x"])), ("authorization", {"client_id": c["client_id"], "response_type": "nonsense", "claims": "{}"}),
                   ("registration", json.dumps({"redirect_uris": ["https://a.example.com/cb"], "scope": "openid research dept custom", "scopes_to_claims": {"openid": ["x"]}, "add_claims": {"always": {"userinfo": ["email"]}}}))][n]
        if name in op.server.endpoint:
            op.call(name, r, http_info={"headers": {}})

    def do_foreign(self, o):
        """A value of one server at the other."""
        if len(self.servers) < 2:
            return
        op, c, uid = self.servers[1 - o["s"]], self.clients[o["who"] % 2], None
        kinds = ["code", "access_token", "refresh_token", "cookie", "id_token", "access_token", "code"]
        k = kinds[o["n"]]
        vals = self.st(o, k)
        if not vals:
            return
        what = f"a {k} of server {o['s']} at the other server"
        if k == "cookie":
            if self.case["share"] != "own" or not vals[-1]:
                return
            m = op.ctx.authn_broker.db["anon"]["method"]
            try:
                r = m.cookie_info(vals[-1], c["client_id"])
            except Exception:
                return
            check(not r, f"{what} is taken for a login: {r}")
            return
        v = vals[-1][0]
        if k == "id_token" and self.case["share"] != "own":
            return
        out = ops.introspect(op, c, v)
        check(not (out.ok and out.args.get("active")), lambda: f"{what} is active: {out!r}")
        out = op.call("token", ops.code_request(c, v))
        check(not out.ok, lambda: f"{what} is exchanged: {out!r}")
        out = op.call("token", ops.refresh_request(c, v))
        check(not out.ok, lambda: f"{what} is refreshed: {out!r}")
        if "userinfo" in op.server.endpoint:
            out = ops.userinfo(op, v)
            check(not out.ok, lambda: f"{what} opens userinfo: {out!r}")


def canon(x, key=None):
    if isinstance(x, dict):
        return {k: ("*" if k in RANDOM and isinstance(v, str) else canon(v, k)) for k, v in sorted(x.items())}
    if isinstance(x, (list, tuple)):
        return sorted((canon(v) for v in x), key=lambda v: json.dumps(v, sort_keys=True, default=str))
    if isinstance(x, str):
        if key == "sid":
            return "*"
        if x.count(".") == 2 and x.startswith("ey"):
            try:
                return {"header": canon(ops.jwt_header(x)), "payload": canon(ops.jwt_payload(x))}
            except Exception:
                return "*"
        if key in ("access_token",):
            return "*"
    return x if isinstance(x, (str, int, float, bool, type(None))) else str(type(x))


def run(case, rec):
    restore()
    keep()
    lib = snapshot()
    runs = {}
    for name, alone in (("alone", True), ("together", False)):
        boot.CLOCK.reset()
        boot.reseed(1)
        runs[name] = r = Run(case, alone)
        r.play()
        after = r.config_texts()
        for k in r.before:
            check(after.get(k) == r.before[k], lambda: f"{name}: {k} changed from {r.before[k]} to {after.get(k)}", sig=None)
        for t, c in zip(r.raw_text, r.raw):
            check(plain(c) == t, lambda: f"{name}: the configuration dictionary changed from {t} to {plain(c)}")
        now = snapshot()
        changed = [k for k in lib if now.get(k) != lib[k]]
        msg = [(k, lib[k][:400], now.get(k, "")[:400]) for k in changed]
        restore()
        check(not changed, lambda: f"{name}: library defaults changed: {msg}")
    a, b = runs["alone"].answers, runs["together"].answers
    check(len(a) == len(b), f"{len(a)} answers alone, {len(b)} together")
    for (i, k, x), (j, l, y) in zip(a, b):
        cx, cy = canon(x), canon(y)
        check(cx == cy, lambda: f"request {i} ({k}) is answered differently alone and together: {cx} / {cy}")
        rec.label(f"{k} {'error' if 'error' in x else 'ok'}")
    rec.label("share " + case["share"])
    rec.nontrivial(len(a) >= 3 and runs["together"].others >= 3)


SUBS = [Sub("isolation", cases, run, quick=700)]
