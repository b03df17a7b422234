"""C28: secrets do not leave the server."""
import base64
import hashlib
import html
import json
import re
from urllib.parse import unquote, unquote_plus, urlencode

from hypothesis import strategies as st

from pbt import hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

from cryptojwt.jws.jws import JWS
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jwk.rsa import RSAKey
from oidcmsg.message import Message

from checks.c27 import TEMPLATES

RULE = ("a case configures a server whose secrets are all distinctive, and draws a history of logins (page, direct, pushed, request object), exchanges, refreshes, userinfo, introspection, registration, logout and broken "
        "requests; everything that leaves the server is decoded recursively and searched for secrets that the receiver did not send itself; non-trivial when at least three kinds of answers were searched and one carried a credential")

ENC = "NXi6HD473d_YS4exVRn7z9z23mGmvU64"
SIG = "ghsNKDDLshZTPn974nOsIGhedULrsqnsGoBFBLwUKuJhE2ch"
PW = ["canary-password-of-diana", "canary-password-of-boris", "canary-password-of-ursula"]
UIDS = ["canary-uid-diana-0001", "canary-uid-boris-0002", "canary-uid-ursula-0003"]
VERIFIER = "canary-verifier-" + "v" * 40
PLAIN = "canary-plain-verifier-" + "p" * 40
CHALLENGE = base64.urlsafe_b64encode(hashlib.sha256(VERIFIER.encode()).digest()).decode().rstrip("=")
JWTISH = re.compile(r"[A-Za-z0-9_-]{8,}\.[A-Za-z0-9_-]{4,}\.[A-Za-z0-9_-]*")
BLOB = re.compile(r"[A-Za-z0-9_/+-]{16,}={0,2}")


def cases():
    fx = st.fixed_dictionaries
    who = st.tuples(st.sampled_from([0, 0, 0, 1, 2]), st.integers(0, 2)).map(list)
    login = fx({"op": st.just("login"), "who": who, "rt": st.sampled_from(["code", "code", "code", "code id_token", "id_token token", "code id_token token", "token"]),
                "scope": st.lists(st.sampled_from(["email", "profile", "offline_access", "offline_access", "phone"]), max_size=3, unique=True), "how": st.sampled_from(["plain", "plain", "par", "object"]),
                "push": st.sampled_from(["post", "basic", "secret_jwt", "private_jwt"]), "mode": st.sampled_from([None] * 7 + ["form_post"] * 3 + ["bogus"]), "pkce": st.sampled_from([None, "S256", "plain"]), "cookie": st.booleans(), "wrong": st.sampled_from([False, False, False, True]),
                "claims": st.booleans(), "bad": st.sampled_from([None] * 9 + ["redirect", "prompt", "scope", "resource", "claims", "client"])})
    use = fx({"op": st.sampled_from(["exchange", "exchange", "exchange", "refresh", "refresh", "userinfo", "introspect", "introspect"]), "who": who, "n": st.integers(0, 5), "auth": st.sampled_from(["post", "basic", "secret_jwt", "private_jwt"]),
              "bad": st.sampled_from([None] * 9 + ["secret", "client", "token", "type", "verifier", "redirect", "grant", "missing"]), "other": st.sampled_from([False, False, False, True])})
    misc = fx({"op": st.sampled_from(["register", "read", "read other", "provider", "logout", "logout", "verify logout", "session junk", "junk", "advance"]), "who": who, "n": st.integers(0, 11), "auth": st.sampled_from(["post", "basic"])})
    return fx({"flavour": st.sampled_from(["oidc", "oidc", "oidc", "oauth2"]), "format": st.sampled_from(["jwt", "opaque", "opaque"]), "page": st.booleans(), "pairwise": st.sampled_from([None, "pairwise", "public"]),
               "cookies": st.sampled_from(["both", "sign", "enc"]), "algs": st.sampled_from([None, "HS256", "ES256"]), "release": st.booleans(), "frame": st.booleans(),
               "first": st.tuples(login, use, login).map(list), "ops": hist.sized_lists(st.sampled_from([0, 0, 1, 1, 1, 2, 2]).flatmap(lambda i: [login, use, misc][i]), 3, 16)})


def layers(x, depth=0, out=None):
    """Every text that can be got out of a value by undoing the usual encodings."""
    if out is None:
        out = set()
    if isinstance(x, Message):
        x = x.to_dict()
    if isinstance(x, dict):
        for k, v in x.items():
            layers(k, depth, out)
            layers(v, depth, out)
        return out
    if isinstance(x, (list, tuple, set)):
        for v in x:
            layers(v, depth, out)
        return out
    if isinstance(x, bytes):
        try:
            x = x.decode()
        except UnicodeDecodeError:
            x = x.decode("latin1")
    if isinstance(x, BaseException):
        x = str(x)
    if not isinstance(x, str) or len(x) < 12 or x in out:
        return out
    out.add(x)
    if depth > 5:
        return out
    for f in (html.unescape, unquote, unquote_plus):
        y = f(x)
        if y != x:
            layers(y, depth + 1, out)
    if x[0] in "[{\"":
        try:
            layers(json.loads(x), depth + 1, out)
        except ValueError:
            pass
    for m in JWTISH.findall(x):
        for part in m.split(".")[:2]:
            layers(unb64(part), depth + 1, out)
    for m in set(BLOB.findall(x)):
        y = unb64(m)
        if y is not None:
            layers(y, depth + 1, out)
    return out


def unb64(s):
    try:
        y = base64.urlsafe_b64decode(s.rstrip("=").replace("+", "-").replace("/", "_") + "=" * (-len(s.rstrip("=")) % 4))
    except ValueError:
        return None
    if sum(32 <= b < 127 for b in y) < 0.9 * len(y):
        return None
    return y.decode("latin1")


class Watch:
    def __init__(self):
        self.secrets = {}      # value -> (kind, receivers that may see it)

    def add(self, value, kind, readers=()):
        if isinstance(value, str) and len(value) >= 12 and value not in self.secrets:
            self.secrets[value] = (kind, frozenset(readers))

    def look(self, what, receiver, gone_out, sent):
        texts = layers(gone_out)
        if not texts:
            return 0
        mine = None
        joined = "\n".join(texts)
        for value, (kind, readers) in self.secrets.items():
            if value in joined and receiver not in readers:
                if mine is None:
                    mine = "\n".join(layers(sent))
                if value in mine:
                    continue
                check(False, lambda: f"{what}: {kind} goes to {receiver} in {str(gone_out)[:600]}")
        return 1


def run(case, rec):
    oidc = case["flavour"] == "oidc"
    authn = {"m0": {"acr": "urn:acr:1", "class": "oidcop.user_authn.user.UserPassJinja2", "kwargs": {"template": "login.jinja2", "db": {"class": "builtins.dict", "kwargs": dict(zip(UIDS, PW))}}}} if case["page"] else None
    conf = ops.base_conf(flavour=case["flavour"], token_format=case["format"], authn=authn)
    conf["template_dir"] = TEMPLATES
    conf["session_params"] = {"password": "canary-session-password", "salt": "canary-session-salt-", "sub_func": {
        "public": {"class": "oidcop.session.manager.PublicID", "kwargs": {"salt": "canary-public-salt"}}, "pairwise": {"class": "oidcop.session.manager.PairWiseID", "kwargs": {"salt": "canary-pairwise-salt"}}}}
    ck = conf["cookie_handler"]["kwargs"]
    if case["cookies"] == "sign":
        del ck["enc_key"]
    elif case["cookies"] == "enc":
        del ck["sign_key"]
    conf["add_on"] = {"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {"essential": False, "code_challenge_method": "S256 plain"}}}
    conf["endpoint"]["introspection"]["kwargs"]["client_authn_method"] = ["client_secret_post", "client_secret_basic", "client_secret_jwt", "private_key_jwt"]
    conf["endpoint"]["pushed_authorization"]["kwargs"]["client_authn_method"] = ["client_secret_post", "client_secret_basic", "client_secret_jwt", "private_key_jwt"]
    if case["release"]:
        conf["endpoint"]["introspection"]["kwargs"]["release"] = ["username"]
    if oidc and case["frame"]:
        conf["endpoint"]["session"]["kwargs"]["check_session_iframe"] = "https://op.example.com/check_session"
    clients = []
    for i in range(3):
        kw = {"client_secret": f"canary-client-secret-{i}-0123456789abcdef", "client_salt": f"canary-client-salt-{i}", "redirect_uris": [(f"https://rp{i}.example.com/cb", {})],
              "post_logout_redirect_uri": (f"https://rp{i}.example.com/out", ""), "token_endpoint_auth_method": None}
        if i == 0:
            kw["backchannel_logout_uri"] = "https://rp0.example.com/bc"
            kw["backchannel_logout_session_required"] = True
        if i == 1:
            kw["frontchannel_logout_uri"] = "https://rp1.example.com/fc"
        if case["pairwise"]:
            kw["subject_type"] = case["pairwise"]
        if case["algs"]:
            kw["id_token_signed_response_alg"] = case["algs"]
        clients.append(ops.client_conf(i, _keys=f"client{i}", **kw))
    op = ops.OP(conf, clients=clients, flavour=case["flavour"])
    op.ctx.userinfo.db = {u: {"name": f"Name {j}", "email": f"u{j}@example.com", "phone_number": f"+4670000000{j}"} for j, u in enumerate(UIDS)}
    w = Watch()
    w.add(ENC, "the cookie encryption key")
    w.add(SIG, "the cookie signing key")
    for k in ("code", "token", "refresh"):
        if "password" in conf["token_handler_args"][k]:
            w.add(conf["token_handler_args"][k]["password"], f"the {k} encryption password")
    for s in ("canary-session-password", "canary-session-salt-", "canary-public-salt", "canary-pairwise-salt"):
        w.add(s, s[7:])
    for k in ops.raw_jwks("server")["keys"]:
        for part in ("d", "p", "q", "k"):
            w.add(k.get(part), f"part {part} of the server's private {k['kty']} key")
    for p in PW:
        w.add(p, "a user's password")
    for i, c in enumerate(clients):
        w.add(c["client_secret"], f"the secret of {c['client_id']}", [f"registration of {i}"])
        w.add(c["client_salt"], "a client's salt")
    w.add(VERIFIER, "a code verifier")
    # as the challenge of its request it has been in the browser
    w.add(PLAIN, "a code verifier", ["browser"])
    # names of users are for the user's browser and whom they are released to
    if not case["release"]:
        for u in UIDS:
            w.add(u, "a local user name", ["browser"])
    kinds, creds = set(), 0
    codes, ats, rts, idts, jar, regs, sjwts, plain = {}, {}, {}, {}, {}, [], [], set()
    if oidc:
        # clients that registered earlier
        for i, c in enumerate(clients):
            regs.append((f"registration of {i}", c["client_id"], f"canary-registration-access-token-{i}"))
            op.ctx.registration_access_token[regs[-1][2]] = c["client_id"]
            w.add(regs[-1][2], "a registration access token", [f"registration of {i}"])
    n = [0]

    def call(what, endpoint, req, info, receiver, note=None, **kw):
        nonlocal creds
        posts = len(op.httpc.posts)
        out = op.call(endpoint, req, info, **kw)
        sent = [req, {k: v for k, v in info.items()}]
        if info.get("headers", {}).get("authorization", "").startswith("Basic "):
            sent.append(base64.b64decode(info["headers"]["authorization"][6:]).decode())
        gone = []
        if out.exception is not None:
            gone.append(out.exception)
        if isinstance(out.args, (dict, Message)):
            gone.append(out.args)
        if isinstance(out.raw, dict):
            gone += [v for k, v in out.raw.items() if k not in ("session_id", "identity", "user", "cookie")]
            w.look(what + " cookie", "browser", [c["value"] for c in ops.find_cookies(out)], sent)
        if isinstance(out.http, dict):
            gone.append(out.http)
        if w.look(f"{what} ({'ok' if out.ok else out.error})", receiver, gone, sent):
            kinds.add(what + (" ok" if out.ok else " error"))
        for u, d, h in op.httpc.posts[posts:]:
            w.look(what + " message", "client", [u, d, h], [])
        ra = out.args.to_dict() if isinstance(out.args, Message) else out.args
        if isinstance(ra, dict):
            for k in ("code", "access_token", "refresh_token", "registration_access_token", "client_secret"):
                if isinstance(ra.get(k), str) and out.ok:
                    creds += 1
                    readers = [note] if note else []
                    w.add(ra[k], f"{k} issued at {what}", readers)
        return out

    def prove(c, auth, req, info, endpoint):
        i = clients.index(c)
        if auth == "basic":
            info["headers"]["authorization"] = ops.basic_header(c["client_id"], c["client_secret"])
        elif auth == "post":
            req.update(client_id=c["client_id"], client_secret=c["client_secret"])
        else:
            n[0] += 1
            claims = {"iss": c["client_id"], "sub": c["client_id"], "aud": [op.ep(endpoint).full_path], "jti": f"jti-{n[0]}", "exp": CLOCK.now + 100, "iat": CLOCK.now}
            keys = [SYMKey(key=c["client_secret"])] if auth == "secret_jwt" else ops.keyjar(f"client{i}").get_signing_key("RSA", issuer_id="")
            req.update(client_id=c["client_id"], client_assertion=JWS(json.dumps(claims), alg="HS256" if auth == "secret_jwt" else "RS256").sign_compact(keys),
                       client_assertion_type="urn:ietf:params:oauth:client-assertion-type:jwt-bearer")
        return req

    def login(o):
        ci, ui = o["who"]
        c = clients[ci]
        n[0] += 1
        kw = {}
        if o["pkce"]:
            kw.update(code_challenge=CHALLENGE if o["pkce"] == "S256" else PLAIN, code_challenge_method=o["pkce"])
        if o["mode"]:
            kw["response_mode"] = o["mode"]
        if o["claims"] and oidc:
            kw["claims"] = json.dumps({"id_token": {"email": None}, "userinfo": {"phone_number": {"essential": True}}})
        scope = [s for s in o["scope"] if not (o["how"] == "par" and s == "offline_access")]
        rt = o["rt"] if oidc else ("code" if "code" in o["rt"] else "token")
        q = ops.auth_request(c, response_type=rt, scope=(["openid"] if oidc else []) + scope or None, state=f"st{n[0]}", nonce=f"no{n[0]}", **kw)
        b = o["bad"]
        if b == "redirect":
            q["redirect_uri"] = "https://evil.example.com/cb"
        elif b == "prompt":
            q["prompt"] = "none consent"
        elif b == "scope":
            q["scope"] = "\x00 openid"
        elif b == "resource":
            q["resource"] = "not a uri"
        elif b == "claims":
            q["claims"] = "{broken"
        elif b == "client":
            q["client_id"] = "client_9"
        how = o["how"] if oidc or o["how"] != "object" else "plain"
        if how == "object":
            d = dict(q)
            if "claims" in d and b != "claims":
                d["claims"] = json.loads(d["claims"])
            d.update(iss=c["client_id"], aud=[ops.ISSUER])
            keys = [SYMKey(key=c["client_secret"])] if ui == 1 else ops.keyjar(f"client{ci}").get_signing_key("RSA", issuer_id="")
            q = {k: q[k] for k in ("client_id", "response_type", "scope", "redirect_uri", "nonce", "prompt") if k in q}
            q["request"] = JWS(json.dumps(d), alg="HS256" if ui == 1 else "RS256").sign_compact(keys)
        elif how == "par":
            info = {"headers": {}}
            out = call("par", "pushed_authorization", prove(c, o["push"], dict(q), info, "pushed_authorization"), info, f"client {ci}")
            if not out.ok:
                return
            q = {k: q[k] for k in ("client_id", "response_type", "scope", "redirect_uri", "nonce") if k in q}
            q["request_uri"] = out.raw["http_response"]["request_uri"]
        info = {"headers": {}}
        if o["cookie"] and (ci, ui) in jar:
            info["cookie"] = jar[(ci, ui)]
        if not case["page"]:
            ops.set_user(op, UIDS[ui])
        # what is answered here goes through the browser
        out = call("authorization", "authorization", q, info, "browser", note="browser")
        args = out.raw
        if out.ok and isinstance(out.raw, dict) and isinstance(out.raw.get("http_response"), str) and case["page"]:
            m = re.search(r'name="token" value="([^"]*)"', out.raw["http_response"])
            if not m:
                return
            kinds.add("page")
            token = html.unescape(m.group(1))
            meth = op.ctx.authn_broker["m0"]["method"]
            if o["wrong"]:
                try:
                    meth.verify(username=UIDS[ui], password="wrong", token=token)
                except Exception as e:  # noqa: B902
                    w.look("wrong password", "browser", [e], [])
                return
            user = meth.verify(username=UIDS[ui], password=PW[ui], token=token)
            p = meth.unpack_token(token)
            ep = op.ep("authorization")
            from oidcmsg.oauth2 import AuthorizationRequest as A2
            from oidcmsg.oidc import AuthorizationRequest as AO
            areq = (AO if oidc else A2)().from_urlencoded(p["query"])
            sid = ep.create_session(areq, user, p["authn_class_ref"], p["iat"], meth)
            args = ep.authz_part2(request=areq, session_id=sid)
            if not isinstance(args, dict) or "response_args" not in args and "response_msg" not in args:
                return
            a = {k: v for k, v in args.items() if k not in ("client_id", "session_id", "cookie")}
            w.look("after login", "browser", [a, ep.do_response(request=areq, **a)], [p["query"]])
            w.look("after login cookie", "browser", [x["value"] for x in args.get("cookie") or []], [p["query"]])
            ra = args.get("response_args")
            if ra is None:
                ra = dict(f for f in ops.parse_form(args["response_msg"]).fields if f[0])
            for k in ("code", "access_token"):
                w.add((ra or {}).get(k), f"{k} issued after login", ["browser"])
        else:
            ra = out.args
            if not out.ok:
                return
        ra = ra or {}
        if isinstance(args, dict) and args.get("cookie"):
            jar[(ci, ui)] = [{"name": x["name"], "value": x["value"]} for x in args["cookie"]]
        if "code" in ra:
            codes.setdefault(ci, []).append(ra["code"])
            if o["pkce"] == "plain":
                plain.add(ra["code"])
        if "access_token" in ra:
            ats.setdefault(ci, []).append(ra["access_token"])
        if "id_token" in ra:
            idts.setdefault(ci, []).append(ra["id_token"])

    def pick(d, ci, k):
        xs = d.get(ci) or []
        return xs[k % len(xs)] if xs else None

    def use(o):
        ci, _ = o["who"]
        kind = o["op"]
        pool = {"exchange": codes, "refresh": rts}.get(kind, ats)
        if not pool.get(ci) and pool:
            ci = sorted(pool)[o["n"] % len(pool)]
        c = clients[ci]
        info = {"headers": {}}
        b = o["bad"]
        src = ci
        if o["other"]:      # what it got is presented by another client
            ci = (ci + 1 + o["n"] % 2) % 3
            c = clients[ci]
        if kind in ("exchange", "refresh"):
            v = pick(codes if kind == "exchange" else rts, src, o["n"])
            if v is None:
                return
            req = {"grant_type": "authorization_code" if kind == "exchange" else "refresh_token"}
            req["code" if kind == "exchange" else "refresh_token"] = v
            if kind == "exchange":
                req["redirect_uri"] = ops.join_uri(c["redirect_uris"][0])
                if b != "verifier":
                    req["code_verifier"] = PLAIN if v in plain else VERIFIER
                elif o["n"] % 3:
                    req["code_verifier"] = "not-the-verifier-" + "x" * 40
            prove(c, o["auth"], req, info, "token")
            if b == "redirect":
                req["redirect_uri"] = "https://evil.example.com"
            elif b == "grant":
                req["grant_type"] = "password"
            elif b == "type":
                req["code" if kind == "exchange" else "refresh_token"] = pick(ats, ci, 0) or "junk"
            elif b == "token":
                req["code" if kind == "exchange" else "refresh_token"] = v[:-3] + "AAA"
            elif b == "missing":
                req.pop("code", None)
                req.pop("refresh_token", None)
            endpoint = "token"
        else:
            v = pick(ats if o["n"] % 3 else rts, src, o["n"])
            if v is None:
                v = pick(ats, ci, o["n"])
            if v is None:
                return
            if b in ("token", "type"):
                v = v[:-4] + "AAAA" if b == "token" else (pick(codes, ci, 0) or v)
            if kind == "userinfo":
                if not oidc:
                    return
                info["headers"]["authorization"] = f"Bearer {v}"
                req, endpoint = {}, "userinfo"
            else:
                req, endpoint = prove(c, o["auth"], {"token": v}, info, "introspection"), "introspection"
                if b == "missing":
                    req.pop("token")
        if b == "secret" and "client_secret" in req:
            req["client_secret"] = "wrong"
        elif b == "client" and kind != "userinfo":
            req["client_id"] = "client_9" if o["n"] % 2 else clients[(ci + 1) % 3]["client_id"]
        kw = {"issue_refresh": True} if endpoint == "token" and o["n"] % 3 else {}
        out = call(kind, endpoint, req, info, f"client {ci}", **kw)
        if out.ok and isinstance(out.args, (dict, Message)):
            for d, k in ((ats, "access_token"), (rts, "refresh_token"), (idts, "id_token")):
                if k in out.args:
                    d.setdefault(ci, []).append(out.args[k])

    def misc(o):
        ci, ui = o["who"]
        kind = o["op"]
        if kind == "advance":
            CLOCK.advance([1, 100, 700, 4000, 90000][o["n"] % 5])
        elif kind == "register" and oidc:
            req = {"redirect_uris": ["https://new.example.com/cb"], "contacts": ["x@example.com"]}
            if o["n"] % 4 == 1:
                req["redirect_uris"] = ["https://new.example.com/cb#frag"]
            if o["n"] % 4 == 2:
                req["sector_identifier_uri"] = "https://nowhere.example.com/s.json"
            if o["n"] % 4 == 3:
                req["client_secret"] = clients[0]["client_secret"][:-1]
            tag = f"registered {len(regs)}"
            out = call("register", "registration", json.dumps(req), {"headers": {}}, tag, note=tag)
            if out.ok:
                a = out.args.to_dict() if isinstance(out.args, Message) else out.args
                regs.append((tag, a["client_id"], a["registration_access_token"]))
                w.add(op.ctx.cdb[a["client_id"]].get("client_salt"), "a client's salt")
        elif kind in ("read", "read other") and regs and oidc:
            tag, cid, rat = regs[o["n"] % len(regs)]
            who = cid if kind == "read" else clients[ci]["client_id"]
            call(kind, "registration_read", {"client_id": who}, {"headers": {"authorization": f"Bearer {rat}"}}, tag)
        elif kind == "provider" and oidc:
            call(kind, "provider_config", {}, {"headers": {}}, "anyone")
        elif kind in ("logout", "session junk") and oidc:
            req, info = {}, {"headers": {}}
            t = pick(idts, ci, o["n"])
            if t:
                req["id_token_hint"] = t if kind == "logout" else t[:-4] + "AAAA"
                if o["n"] % 2:
                    req.update(post_logout_redirect_uri=f"https://rp{ci}.example.com/out", state="logout")
            k = (ci, ui) if (ci, ui) in jar else next(iter(jar), None)
            if k:
                info["cookie"] = jar[k]
            if o["n"] % 5 == 4:
                req["sid"] = "junk" * 5
            out = call(kind, "session", req, info, "browser", respond=False)
            loc = out.raw.get("redirect_location") if out.ok and out.raw else None
            if loc:
                sjwts.append(loc.partition("sjwt=")[2])
        elif kind == "verify logout" and sjwts:
            ep = op.ep("session")
            posts = len(op.httpc.posts)
            try:
                info = ep.unpack_signed_jwt(unquote(sjwts[o["n"] % len(sjwts)]))
                frames = list(ep.do_verified_logout(info["sid"], alla=bool(o["n"] % 2)) or [])
            except Exception as e:  # noqa: B902
                w.look(kind + " error", "browser", [e], [])
                return
            w.look(kind + " frames", "browser", frames, [])
            for u, d, h in op.httpc.posts[posts:]:
                w.look(kind + " message", "client", [u, d, h], [])
                kinds.add("logout message")
        elif kind == "junk":
            ep = ["authorization", "token", "introspection", "pushed_authorization", "userinfo", "session", "registration", "registration_read"][o["n"] % 8]
            if ep not in [e.name for e in op.server.endpoint.values()] and ep not in op.server.endpoint:
                return
            c = clients[ci]
            req = [{}, {"client_id": c["client_id"]}, {"client_id": c["client_id"], "request_uri": "urn:uuid:nope"}, {"client_id": c["client_id"], "client_secret": "wrong"}][(o["n"] + ui) % 4]
            call("junk " + ep, ep, req, {"headers": {"authorization": "Bearer junk"} if ui == 1 else {}}, f"client {ci}" if ep != "authorization" else "browser")

    for o in case["first"] + case["ops"]:
        if o["op"] == "login":
            login(o)
        elif "bad" in o:
            use(o)
        else:
            misc(o)
    for k in kinds:
        rec.label(k)
    rec.nontrivial(len(kinds) >= 3 and creds > 0)


SUBS = [Sub("secrets", cases, run, quick=500)]
