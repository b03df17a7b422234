"""Server factory and drivers: everything a check needs to play client, user agent and operator."""
import base64
import copy
import html.parser
import json
import os
import re
from urllib.parse import parse_qs, parse_qsl, quote_plus, urlencode, urlsplit

from . import boot
from .boot import CLOCK

from cryptojwt.jwt import JWT
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.key_jar import KeyJar
from oidcmsg.message import Message
from oidcmsg.oauth2 import ResponseMessage
from oidcop.configure import ASConfiguration, OPConfiguration
from oidcop.cookie_handler import CookieHandler
from oidcop.server import Server
from oidcop.user_info import UserInfo

KEYDIR = os.path.join(boot.VERIF, "keys")
_KEYCACHE = {}


def raw_jwks(name):
    if name not in _KEYCACHE:
        _KEYCACHE[name] = json.load(open(os.path.join(KEYDIR, name + ".json")))
    return copy.deepcopy(_KEYCACHE[name])


def public_jwks(name):
    priv = {"d", "p", "q", "dp", "dq", "qi", "k"}
    return {"keys": [{k: v for k, v in key.items() if k not in priv} for key in raw_jwks(name)["keys"]]}


def keyjar(name, issuer=""):
    kj = KeyJar()
    kj.import_jwks(raw_jwks(name), issuer)
    return kj


ACR_PW = "urn:oasis:names:tc:SAML:2.0:ac:classes:InternetProtocolPassword"
ACR_2FA = "urn:oasis:names:tc:SAML:2.0:ac:classes:MobileTwoFactorContract"

USERS = {
    "diana": {
        "sub": "dikr0001", "name": "Diana Krall", "given_name": "Diana", "family_name": "Krall",
        "nickname": "Dina", "email": "diana@example.org", "email_verified": False,
        "phone_number": "+46 90 7865000", "address": {"street_address": "Box 1", "country": "Sweden"},
        "webid": "http://bblfish.net/#hjs", "eduperson_scoped_affiliation": ["staff@example.org"],
        "updated_at": 1600000000,
    },
    "babs": {
        "sub": "babs0001", "name": "Barbara J Jensen", "given_name": "Barbara", "family_name": "Jensen",
        "nickname": "babs", "email": "babs@example.com", "email_verified": True,
        "address": {"street_address": "100 Universal City Plaza", "country": "USA"},
    },
    "upper": {
        "sub": "uppe0001", "name": "Upper Crust", "given_name": "Upper", "family_name": "Crust",
        "email": "uc@example.com", "email_verified": True,
    },
}

ALL_RESPONSE_TYPES = ["code", "token", "id_token", "code token", "code id_token", "id_token token",
                      "code id_token token", "none"]

USAGE_RULES = {
    "authorization_code": {"expires_in": 300, "max_usage": 1,
                           "supports_minting": ["access_token", "refresh_token", "id_token"]},
    "access_token": {"expires_in": 600},
    "refresh_token": {"expires_in": 86400, "supports_minting": ["access_token", "refresh_token", "id_token"]},
}

ISSUER = "https://op.example.com/"


def base_conf(flavour="oidc", issuer=ISSUER, token_format="jwt", usage_rules=None, grant_expires_in=43200,
              authn=None, users=None, access_aud=None, code_lifetime=600, at_lifetime=3600, rt_lifetime=86400,
              grant_config=None):
    oidc = flavour == "oidc"
    tha = {
        "jwks_file": "private/token_jwks.json",
        "code": {"password": "code-password-0123456789abcdef", "kwargs": {"lifetime": code_lifetime}},
    }
    if token_format == "jwt":
        tha["token"] = {"class": "oidcop.token.jwt_token.JWTToken",
                        "kwargs": {"lifetime": at_lifetime, "add_claims_by_scope": False,
                                   "aud": access_aud or ["https://rs.example.org"]}}
        tha["refresh"] = {"class": "oidcop.token.jwt_token.JWTToken",
                          "kwargs": {"lifetime": rt_lifetime, "aud": ["https://rs.example.org"]}}
    else:
        tha["token"] = {"password": "token-password-0123456789abcde", "kwargs": {"lifetime": at_lifetime}}
        tha["refresh"] = {"password": "refresh-password-0123456789abc", "kwargs": {"lifetime": rt_lifetime}}
    if oidc:
        tha["id_token"] = {"class": "oidcop.token.id_token.IDToken", "kwargs": {"lifetime": 900}}
    ep = {
        "authorization": {
            "path": "authorization",
            "class": ("oidcop.oidc.authorization.Authorization" if oidc
                      else "oidcop.oauth2.authorization.Authorization"),
            "kwargs": {},
        },
        "token": {
            "path": "token",
            "class": "oidcop.oidc.token.Token" if oidc else "oidcop.oauth2.token.Token",
            "kwargs": {"client_authn_method": ["client_secret_post", "client_secret_basic",
                                               "client_secret_jwt", "private_key_jwt"]},
        },
        "introspection": {"path": "introspection", "class": "oidcop.oauth2.introspection.Introspection",
                          "kwargs": {"client_authn_method": ["client_secret_post"]}},
    }
    if oidc:
        ep.update({
            "provider_info": {"path": ".well-known/openid-configuration",
                              "class": "oidcop.oidc.provider_config.ProviderConfiguration", "kwargs": {}},
            "registration": {"path": "registration", "class": "oidcop.oidc.registration.Registration",
                             "kwargs": {}},
            "registration_api": {"path": "registration_api",
                                 "class": "oidcop.oidc.read_registration.RegistrationRead",
                                 "kwargs": {"client_authn_method": ["bearer_header"]}},
            "userinfo": {"path": "userinfo", "class": "oidcop.oidc.userinfo.UserInfo", "kwargs": {}},
            "session": {"path": "session", "class": "oidcop.oidc.session.Session",
                        "kwargs": {"logout_verify_url": issuer.rstrip("/") + "/verify_logout",
                                   "post_logout_uri_path": "post_logout", "signing_alg": "ES256",
                                   "frontchannel_logout_supported": True,
                                   "frontchannel_logout_session_supported": True,
                                   "backchannel_logout_supported": True,
                                   "backchannel_logout_session_supported": True}},
            "pushed_authorization": {
                "path": "pushed_authorization",
                "class": "oidcop.oauth2.pushed_authorization.PushedAuthorization",
                "kwargs": {"client_authn_method": ["client_secret_post", "client_secret_basic"]}},
        })
    else:
        ep["pushed_authorization"] = {
            "path": "pushed_authorization",
            "class": "oidcop.oauth2.pushed_authorization.PushedAuthorization",
            "kwargs": {"client_authn_method": ["client_secret_post", "client_secret_basic"]}}
    gc = {"usage_rules": copy.deepcopy(USAGE_RULES if usage_rules is None else usage_rules)}
    if grant_expires_in:
        gc["expires_in"] = grant_expires_in
    if grant_config is not None:
        gc = grant_config
    conf = {
        "issuer": issuer,
        "httpc_params": {"verify": False, "timeout": 1},
        "capabilities": {
            "subject_types_supported": ["public", "pairwise", "ephemeral"],
            "grant_types_supported": ["authorization_code", "implicit",
                                      "urn:ietf:params:oauth:grant-type:jwt-bearer", "refresh_token"],
        },
        "keys": {"uri_path": "static/jwks.json", "key_defs": []},
        "token_handler_args": tha,
        "cookie_handler": {
            "class": CookieHandler,
            "kwargs": {"sign_key": SYMKey(k="ghsNKDDLshZTPn974nOsIGhedULrsqnsGoBFBLwUKuJhE2ch"),
                       "enc_key": SYMKey(k="NXi6HD473d_YS4exVRn7z9z23mGmvU64"),
                       "name": {"session": "oidc_op", "register": "oidc_op_rp", "session_management": "sman"}},
        },
        "endpoint": ep,
        "authentication": authn or {
            "anon": {"acr": ACR_PW, "class": "oidcop.user_authn.user.NoAuthn", "kwargs": {"user": "diana"}}},
        "userinfo": {"class": UserInfo, "kwargs": {"db": copy.deepcopy(USERS if users is None else users)}},
        "template_dir": "template",
        "authz": {"class": "oidcop.authz.AuthzHandling", "kwargs": {"grant_config": gc}},
        "session_params": {"password": "session-password", "salt": "session-salt"},
    }
    return conf


def deep_update(d, u):
    for k, v in u.items():
        if isinstance(v, dict) and isinstance(d.get(k), dict):
            deep_update(d[k], v)
        else:
            d[k] = v
    return d


ID_STYLES = [[f"client_{i}" for i in range(10)], ["rp", "rp2", "rp-2", "r", "rp2-", "p", "2", "rp22", "rp_", "R"],
             ["rp2", "rp", "RP", "Rp2", "r", "2", "rp-", "rp22", "-rp", "p2"], ["client", "client_0", "client_00", "_0", "CLIENT", "client_", "0", "lient", "cl", "c"]]
IDS = ID_STYLES[0]


def client_conf(i, **kw):
    c = {
        "client_id": IDS[i],
        "client_secret": f"secret-{i}-0123456789abcdef0123456789abcdef",
        "redirect_uris": [(f"https://rp{i}.example.com/cb", {})],
        "client_salt": "salted",
        "token_endpoint_auth_method": "client_secret_post",
        "response_types": list(ALL_RESPONSE_TYPES),
        "allowed_scopes": ["openid", "profile", "email", "address", "phone", "offline_access"],
    }
    for k, v in kw.items():
        if v is None:
            c.pop(k, None)
        else:
            c[k] = v
    return c


class StubHttp:
    """Stands in for requests: records, answers from a table, never touches a network."""

    def __init__(self):
        self.posts = []
        self.gets = []
        self.pages = {}
        self.status = {}

    def post(self, url, data=None, headers=None, **kw):
        self.posts.append((url, data, headers))
        r = type("R", (), {})()
        r.status_code = self.status.get(url, 200)
        r.text = ""
        return r

    def get(self, url, **kw):
        self.gets.append(url)
        r = type("R", (), {})()
        if url in self.pages:
            r.status_code, r.text = 200, self.pages[url]
        else:
            r.status_code, r.text = 404, "not found"
        r.status = r.status_code
        return r

    def __call__(self, method, url, **kw):
        return self.get(url) if method.upper() == "GET" else self.post(url, **kw)

    request = __call__


class OP:
    """A server plus its clients."""

    def __init__(self, conf=None, clients=(), conf_cls=None, keys="server", config=None, **kw):
        boot.scratch()
        flavour = kw.get("flavour", "oidc")
        self.flavour = flavour
        conf = conf if conf is not None else base_conf(**kw)
        cls = conf_cls or (OPConfiguration if flavour == "oidc" else ASConfiguration)
        self.httpc = StubHttp()
        self.raw_conf = conf
        kj = keyjar(keys)
        kj.import_jwks(raw_jwks(keys), conf["issuer"])
        self.config = config if config is not None else cls(conf=conf, base_path=boot.scratch())
        self.server = Server(self.config, keyjar=kj, cwd=boot.scratch(), httpc=self.httpc)
        self.ctx = self.server.endpoint_context
        self.mngr = self.ctx.session_manager
        for c in clients:
            self.add_client(c)

    def add_client(self, c, jwks=None):
        c = copy.deepcopy(c)
        cid = c["client_id"]
        jwks = c.pop("_keys", None) or jwks
        self.ctx.cdb[cid] = c
        if c.get("client_secret"):
            self.ctx.keyjar.add_symmetric(cid, c["client_secret"])
        if jwks:
            self.ctx.keyjar.import_jwks(public_jwks(jwks), cid)

    def ep(self, name):
        return self.server.server_get("endpoint", name)

    # ------------------------------------------------------------ generic call
    def call(self, endpoint, request, http_info=None, respond=True, **proc_kw):
        """parse -> process -> do_response, the way a web application does it."""
        ep = self.ep(endpoint)
        try:
            req = ep.parse_request(request, http_info=http_info) if http_info is not None \
                else ep.parse_request(request)
        except Exception as e:
            return Outcome.exc("parse", e)
        return self.process(endpoint, req, http_info, respond, **proc_kw)

    def parse(self, endpoint, request, http_info=None):
        ep = self.ep(endpoint)
        try:
            req = ep.parse_request(request, http_info=http_info) if http_info is not None \
                else ep.parse_request(request)
        except Exception as e:
            return Outcome.exc("parse", e)
        if isinstance(req, ResponseMessage) and "error" in req:
            return Outcome.err("parse", req)
        return req

    def process(self, endpoint, req, http_info=None, respond=True, **kw):
        if isinstance(req, Outcome):
            return req
        if isinstance(req, ResponseMessage) and "error" in req:
            return Outcome.err("parse", req)
        ep = self.ep(endpoint)
        try:
            args = ep.process_request(req, http_info=http_info, **kw) if http_info is not None \
                else ep.process_request(req, **kw)
        except Exception as e:
            return Outcome.exc("process", e)
        if isinstance(args, ResponseMessage) and "error" in args:
            return Outcome.err("process", args)
        if not isinstance(args, dict):
            return Outcome.err("process", args if args is not None else {})
        ra = args.get("response_args")
        if ra is None and endpoint == "authorization" and isinstance(args.get("response_msg"), str):
            ra = dict(f for f in parse_form(args["response_msg"]).fields if f[0])
        if isinstance(args, dict) and "error" in args and not ra:
            o = Outcome.err("process", args)
            o.raw = args
            return o
        if ra is not None and "error" in ra:
            o = Outcome.err("process", ra)
            o.raw = args
            o.req = req
            return o
        o = Outcome(True, ra, None)
        o.raw = args
        o.req = req
        if respond and "http_response" not in args and "redirect_location" not in args:
            try:
                a = dict(args)
                if endpoint not in ("userinfo",):
                    a.pop("client_id", None)
                o.http = ep.do_response(request=req, **a)
            except Exception as e:
                return Outcome.exc("respond", e)
        return o


class Outcome:
    def __init__(self, ok, args, error, stage=None, exception=None):
        self.ok, self.args, self.error, self.stage, self.exception = ok, args, error, stage, exception
        self.raw = self.http = self.req = None

    @classmethod
    def exc(cls, stage, e):
        return cls(False, None, "exception:" + type(e).__name__, stage, e)

    @classmethod
    def err(cls, stage, msg):
        try:
            e = msg.get("error")
        except AttributeError:
            e = "unknown"
        return cls(False, msg, e, stage)

    def __repr__(self):
        d = self.args
        if isinstance(d, Message):
            d = d.to_dict()
        if isinstance(d, dict):
            d = {k: (v[:40] + "..." if isinstance(v, str) and len(v) > 60 else v) for k, v in d.items()}
        return f"<{'OK' if self.ok else 'FAIL'} {self.stage or ''} {self.error or ''} {self.exception or ''} {d}>"


# ------------------------------------------------------------------- OIDC flows
def auth_request(client, response_type="code", scope=("openid",), state="STATE", nonce="NONCE",
                 redirect_uri=None, **kw):
    r = {"client_id": client["client_id"], "response_type": response_type, "state": state,
         "redirect_uri": redirect_uri or join_uri(client["redirect_uris"][0])}
    if scope is not None:
        r["scope"] = " ".join(scope)
    if nonce is not None:
        r["nonce"] = nonce
    r.update({k: v for k, v in kw.items() if v is not None})
    if "offline_access" in (scope or ()) and "prompt" not in r:
        r["prompt"] = "consent"  # the OIDC request class insists
    return r


def join_uri(item):
    if isinstance(item, str):
        return item
    base, q = item
    return base + ("?" + urlencode(q, doseq=True) if q else "")


def set_user(op, uid, method_id="anon"):
    """The user in front of the (test) authentication method."""
    op.ctx.authn_broker.db[method_id]["method"].user = uid


def authorize(op, client, user="diana", cookies=None, respond=True, **kw):
    set_user(op, user)
    req = auth_request(client, **kw)
    hi = {"headers": {}, "cookie": cookies} if cookies else {"headers": {}}
    return op.call("authorization", req, http_info=hi, respond=respond)


def basic_header(cid, secret):
    return "Basic " + base64.b64encode(f"{quote_plus(cid)}:{quote_plus(secret)}".encode()).decode()


def code_request(client, code, redirect_uri=None, **kw):
    r = {"grant_type": "authorization_code", "code": code, "client_id": client["client_id"],
         "client_secret": client["client_secret"],
         "redirect_uri": redirect_uri or join_uri(client["redirect_uris"][0])}
    r.update({k: v for k, v in kw.items()})
    return {k: v for k, v in r.items() if v is not None}


def refresh_request(client, token, scope=None, **kw):
    r = {"grant_type": "refresh_token", "refresh_token": token, "client_id": client["client_id"],
         "client_secret": client["client_secret"]}
    if scope is not None:
        r["scope"] = " ".join(scope)
    r.update(kw)
    return {k: v for k, v in r.items() if v is not None}


def exchange(op, client, code, **kw):
    pk = {}
    if "issue_refresh" in kw:
        pk["issue_refresh"] = kw.pop("issue_refresh")
    return op.call("token", code_request(client, code, **kw), **pk)


def refresh(op, client, token, scope=None, **kw):
    pk = {}
    if "issue_refresh" in kw:
        pk["issue_refresh"] = kw.pop("issue_refresh")
    return op.call("token", refresh_request(client, token, scope, **kw), **pk)


def userinfo(op, token, **kw):
    return op.call("userinfo", {}, http_info={"headers": {"authorization": "Bearer " + token}}, **kw)


def introspect(op, client, token):
    return op.call("introspection", {"token": token, "client_id": client["client_id"],
                                     "client_secret": client["client_secret"]})


def is_active(op, client, token):
    """Introspection verdict: True/False, or None if the endpoint failed."""
    o = introspect(op, client, token)
    if not o.ok:
        return None
    return bool(o.args.get("active"))


def jwt_payload(token):
    p = token.split(".")[1]
    return json.loads(base64.urlsafe_b64decode(p + "=" * (-len(p) % 4)))


def jwt_header(token):
    p = token.split(".")[0]
    return json.loads(base64.urlsafe_b64decode(p + "=" * (-len(p) % 4)))


class _Form(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.action = None
        self.method = None
        self.fields = []
        self.forms = 0
        self.tags = []

    def handle_starttag(self, tag, attrs):
        self.tags.append(tag)
        a = dict(attrs)
        if tag == "form":
            self.forms += 1
            self.action, self.method = a.get("action"), a.get("method")
        if tag == "input":
            self.fields.append((a.get("name"), a.get("value")))

    handle_startendtag = handle_starttag


def parse_form(text):
    f = _Form()
    f.feed(text)
    f.close()
    return f


def split_response(url):
    """-> (base with registered query, query dict, fragment dict)"""
    base, _, frag = url.partition("#")
    base, _, query = base.partition("?")
    return base, dict(parse_qsl(query, keep_blank_values=True)), dict(parse_qsl(frag, keep_blank_values=True))


def find_cookies(outcome, name=None):
    cs = (outcome.raw or {}).get("cookie") or []
    if isinstance(cs, dict):
        cs = [cs]
    return [{"name": c["name"], "value": c["value"]} for c in cs if name is None or c["name"] == name]
