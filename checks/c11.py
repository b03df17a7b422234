"""C11: a restored server continues where the dumped one stopped."""
import base64
import copy
import hashlib
import json
import random

from hypothesis import strategies as st

from pbt import boot, hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check, fail

from cryptojwt.jws.jws import JWS

RULE = ("a case is a script of requests (authorization in all response types, code and refresh token requests, userinfo, introspection, "
        "registration and its read-back, pushed requests, signed client assertions, revocations, logout, cookies) that is run twice: "
        "undisturbed, and with the server dumped, passed through JSON and loaded into a fresh one at drawn points; all answers must "
        "agree; non-trivial when something issued before a restore was used after one")

CLAIMS = [None, None, {"userinfo": {"email": None, "nickname": None}}, {"id_token": {"email": {"essential": True}, "phone_number": None}},
          {"id_token": {"auth_time": {"essential": True}, "acr": None}, "userinfo": {"name": None}}]
VERIFIER = ["v" * 43, "w" * 43 + "-._~", "x" * 128]
RANDOM_MEMBERS = {"code", "access_token", "refresh_token", "id_token", "client_id", "client_secret", "registration_access_token",
                  "registration_client_uri", "request_uri", "jti", "sid", "c_hash", "at_hash", "kid", "client_salt", "signature"}


def conf_of(c):
    kw = {}
    if c["rules"]:
        kw["usage_rules"] = {
            "authorization_code": {"expires_in": 300, "max_usage": 2, "supports_minting": ["access_token", "refresh_token", "id_token"]},
            "access_token": {"expires_in": 600}, "refresh_token": {"expires_in": 5000, "max_usage": 2,
                                                                  "supports_minting": ["access_token", "refresh_token"]}}
    conf = ops.base_conf(token_format=c["fmt"], **kw)
    conf["cookie_handler"] = {"class": "oidcop.cookie_handler.CookieHandler", "kwargs": {
        "sign_key": "ghsNKDDLshZTPn974nOsIGhedULrsqnsGoBFBLwUKuJhE2ch", "enc_key": "NXi6HD473d_YS4exVRn7z9z23mGmvU64",
        "name": {"session": "oidc_op", "register": "oidc_op_rp", "session_management": "sman"}}}
    conf["userinfo"]["class"] = "oidcop.user_info.UserInfo"
    conf["endpoint"]["token"]["kwargs"]["client_authn_method"] = ["client_secret_post", "private_key_jwt", "client_secret_jwt"]
    if c["pkce"]:
        conf["add_on"] = {"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {
            "essential": False, "code_challenge_methods": ["S256", "plain"]}}}
    if c["nopw"]:
        # session keys are random then; they have to come out of the dump
        conf["session_params"] = {}
    if c["sub"]:
        conf["session_params"]["sub_func"] = {"pairwise": {"class": "oidcop.session.manager.PairWiseID", "kwargs": {"salt": "configured"}},
                            "public": {"class": "oidcop.session.manager.PublicID", "kwargs": {"salt": "configured-too"}}}
    if c["cexp"]:
        conf["scopes_to_claims"] = {"research": ["name", "nickname"]}
    return conf


def clients_of(c):
    out = []
    for i in range(2):
        kw = {"_keys": f"client{i}", "subject_type": ["public", "pairwise"][i],
              "post_logout_redirect_uri": (f"https://rp{i}.example.com/plo", {})}
        if c["logout"][i] == "bc":
            kw["backchannel_logout_uri"] = f"https://rp{i}.example.com/bc"
        elif c["logout"][i] == "fc":
            kw["frontchannel_logout_uri"] = f"https://rp{i}.example.com/fc"
        if i == 1 and c["rules"]:
            kw["token_usage_rules"] = {"access_token": {"expires_in": 50}}
        out.append(ops.client_conf(i, **kw))
    return out


def cases():
    idx = st.integers(0, 8)
    fx = st.fixed_dictionaries
    scope = st.lists(st.sampled_from(hist.SCOPES[1:]), max_size=4, unique=True).map(lambda x: ["openid"] + x)
    auth = fx({"op": st.just("auth"), "c": st.integers(0, 2), "u": st.integers(0, 1), "scope": scope,
               "rt": st.sampled_from(["code"] * 5 + ["code id_token", "id_token token", "code token", "code id_token token"]),
               "claims": st.integers(0, len(CLAIMS) - 1), "pk": st.one_of(st.none(), st.integers(0, 2)), "cookie": st.one_of(st.none(), idx),
               "prompt": st.sampled_from([None, None, None, "none", "login"]), "max_age": st.sampled_from([None, None, None, 100])})
    code = fx({"op": st.just("code"), "n": idx, "pk": st.sampled_from([None, None, None, 0]), "ja": st.sampled_from([None] * 4 + [0, 1, 2]),
               "irt": st.booleans()})
    ref = fx({"op": st.just("refresh"), "n": idx, "scope": st.one_of(st.none(), scope), "irt": st.booleans()})
    use = fx({"op": st.just("use"), "n": idx, "kind": st.sampled_from(["at", "at", "rt", "code"])})
    others = {
        "reg": fx({"op": st.just("reg"), "v": st.integers(0, 3)}), "read": fx({"op": st.just("read"), "n": idx, "x": idx}),
        "push": fx({"op": st.just("push"), "c": st.integers(0, 1), "u": st.integers(0, 1), "scope": scope}),
        "pushed": fx({"op": st.just("pushed"), "n": idx}),
        "revoke": fx({"op": st.just("revoke"), "n": idx, "kind": st.sampled_from(["at", "rt", "code"]), "rec": st.booleans()}),
        "revoke-grant": fx({"op": st.just("revoke-grant"), "n": idx}), "revoke-client": fx({"op": st.just("revoke-client"), "n": idx}),
        "remove": fx({"op": st.just("remove"), "n": idx}),
        "logout": fx({"op": st.just("logout"), "n": idx, "h": st.one_of(st.none(), idx), "all": st.booleans(), "plo": st.booleans()}),
        "mint": fx({"op": st.just("mint"), "n": idx, "kind": st.sampled_from(["access_token", "refresh_token", "id_token"])})}
    other = st.sampled_from(["reg", "read", "read", "push", "pushed", "pushed", "revoke", "revoke", "revoke-grant", "revoke-client", "remove", "logout",
                             "logout", "mint"]).flatmap(lambda n: others[n])
    tick = fx({"op": st.just("tick"), "dt": st.sampled_from([1, 51, 301, 599, 601, 3601, 5001, 43201])})
    restore = fx({"op": st.just("restore")})
    pick = {"auth": auth, "code": code, "ref": ref, "use": use, "other": other, "restore": restore, "tick": tick}
    step = st.sampled_from(["auth", "auth", "code", "code", "code", "ref", "ref", "use", "use", "use", "other", "other", "other", "other", "restore",
                            "restore", "tick"]).flatmap(lambda n: pick[n])
    opening = st.sampled_from([[], ["code"], ["code"], ["code", "refresh"], ["reg"], ["push"], ["code", "reg"], ["code", "push"]])
    conf = fx({"fmt": st.sampled_from(["jwt", "opaque"]), "rules": st.booleans(), "pkce": st.booleans(), "nopw": st.booleans(), "sub": st.booleans(),
               "cexp": st.booleans(), "logout": st.lists(st.sampled_from(["bc", "fc", None]), min_size=2, max_size=2)})
    first = st.sampled_from(["auth", "auth", "auth", "auth", "other"]).flatmap(lambda n: pick[n])
    return st.tuples(conf, first, opening, code, ref, hist.sized_lists(step, 0, 5), hist.sized_lists(step, 2, 9)).map(
        lambda t: {"conf": t[0], "ops": [t[1]] + [{"code": t[3], "refresh": t[4], "reg": {"op": "reg", "v": t[3]["n"] % 4}, "push": {"op": "push", "c": 0, "u": 1, "scope": ["openid", "email"]}}[x] for x in t[2]] + t[5] + [{"op": "restore"}] + t[6]})


def norm(x, key=None):
    """What an answer says, without what is random in it."""
    if hasattr(x, "to_dict"):
        x = x.to_dict()
    if isinstance(x, dict):
        return {k: norm(v, k) for k, v in sorted(x.items())}
    if isinstance(x, (list, tuple)):
        return [norm(v, key) for v in x]
    if isinstance(x, str) and x.count(".") == 2 and len(x) > 60 and key in ("id_token", "access_token", "refresh_token", "logout_token"):
        try:
            return norm({"hdr": ops.jwt_header(x), "pl": {k: v for k, v in ops.jwt_payload(x).items()}})
        except Exception:
            return "?"
    if key in RANDOM_MEMBERS and isinstance(x, str):
        return "<set>" if x else ""
    return x


def summary(out):
    if out.ok:
        r = {"ok": True, "args": norm(out.args)}
        if out.raw:
            r["cookies"] = sorted(c["name"] for c in ops.find_cookies(out))
        return r
    return {"ok": False, "error": out.error, "stage": out.stage,
            "why": out.args.get("error_description") if isinstance(out.args, dict) or hasattr(out.args, "get") else type(out.exception).__name__}


def diff(x, y, path=""):
    if isinstance(x, dict) and isinstance(y, dict):
        return [d for k in sorted(set(x) | set(y)) if x.get(k) != y.get(k) for d in diff(x.get(k), y.get(k), path + "/" + str(k))]
    if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
        return [d for i in range(len(x)) if x[i] != y[i] for d in diff(x[i], y[i], path + f"/{i}")]
    return [f"{path}: {json.dumps(x, default=str)} -- {json.dumps(y, default=str)}"]


class Actor:
    def __init__(self, case, restores, rec):
        self.conf, self.restores, self.rec = case["conf"], restores, rec
        self.clients = clients_of(self.conf)
        self.op = ops.OP(conf_of(self.conf), clients=self.clients)
        self.codes, self.ats, self.rts, self.idts, self.regs, self.pars, self.cookies, self.sids = [], [], [], [], [], [], [], []
        self.epoch, self.nontrivial, self.n, self.reads = 0, False, 0, 0
        self.trace = []

    def restore(self):
        old = self.op
        try:
            text = json.dumps(old.ctx.dump())
        except (TypeError, ValueError, AttributeError) as err:
            fail(f"the state of the server can not be dumped as JSON: {type(err).__name__} {err}")
        new = ops.OP(conf_of(self.conf), clients=[])
        new.ctx.load(json.loads(text), init_args={"server_get": new.server.server_get, "handler": new.ctx.session_manager.token_handler})
        new.mngr = new.ctx.session_manager
        new.httpc.posts = old.httpc.posts
        self.op = new
        self.epoch += 1

    def pick(self, lst, n):
        if not lst:
            return None
        e = lst[n % len(lst)]
        if isinstance(e, tuple) and e[-1] < self.epoch:
            self.nontrivial = True
        return e

    def client(self, i):
        """0/1: known from the start, 2: the latest registered one"""
        if i == 2:
            return self.regs[-1][0] if self.regs else self.clients[0]
        return self.clients[i]

    def keep(self, args, c):
        a = args.to_dict() if hasattr(args, "to_dict") else dict(args or {})
        for k, lst in (("code", self.codes), ("access_token", self.ats), ("refresh_token", self.rts), ("id_token", self.idts)):
            if a.get(k):
                lst.append((a[k], c, self.epoch))

    def note_sids(self):
        # in the order they were made
        for k, g in self.op.mngr.db.db.items() if hasattr(self.op.mngr.db, "db") else self.op.mngr.db.items():
            if type(g).__name__ == "Grant":
                p = self.op.mngr.unpack_session_key(k)
                if p not in [s[0] for s in self.sids]:
                    self.sids.append((p, self.epoch))

    def do(self, o):
        op, k = self.op, o["op"]
        self.n += 1
        if k == "tick":
            CLOCK.advance(o["dt"])
            return "tick"
        if k == "restore":
            if self.restores:
                self.restore()
            else:
                # (the other run has gone through this; what it issued before counts)
                self.epoch += 1
            return "restore"
        if k == "auth":
            c = self.client(o["c"])
            kw = {}
            if CLAIMS[o["claims"]]:
                kw["claims"] = json.dumps(CLAIMS[o["claims"]])
            if o["pk"] is not None and self.conf["pkce"]:
                ch = base64.urlsafe_b64encode(hashlib.sha256(VERIFIER[o["pk"]].encode()).digest()).decode().rstrip("=")
                kw.update(code_challenge=ch, code_challenge_method="S256")
            if o["prompt"]:
                kw["prompt"] = o["prompt"]
            if o["max_age"]:
                kw["max_age"] = o["max_age"]
            ck = self.pick(self.cookies, o["cookie"]) if o["cookie"] is not None else None
            if o["prompt"] == "none" and "offline_access" in o["scope"]:
                return "skip"
            out = ops.authorize(op, c, user=hist.USERS[o["u"]], response_type=o["rt"], scope=o["scope"], cookies=ck[0] if ck else None, **kw)
            if out.ok:
                self.keep(out.args, (c, o["pk"] if self.conf["pkce"] else None))
                cks = ops.find_cookies(out, "oidc_op")
                if cks:
                    self.cookies.append((cks, self.epoch))
                self.note_sids()
            return summary(out)
        if k == "code":
            e = self.pick(self.codes, o["n"])
            if not e:
                return "skip"
            code, (c, pk), _ = e
            kw = {"issue_refresh": o["irt"]}
            pk = o["pk"] if o["pk"] is not None else pk
            if pk is not None and self.conf["pkce"]:
                kw["code_verifier"] = VERIFIER[pk]
            if o["ja"] is not None and c in self.clients:
                i = self.clients.index(c)
                tok = JWS(json.dumps({"iss": c["client_id"], "sub": c["client_id"], "aud": op.ep("token").full_path, "iat": int(CLOCK.now),
                                      "exp": int(CLOCK.now) + 9000, "jti": f"jti{o['ja']}"}), alg="ES256").sign_compact(
                    ops.keyjar(f"client{i}").get_signing_key("EC", issuer_id=""))
                kw.update(client_assertion=tok, client_assertion_type="urn:ietf:params:oauth:client-assertion-type:jwt-bearer", client_secret=None)
            out = ops.exchange(op, c, code, **kw)
            if out.ok:
                self.keep(out.args, (c, None))
                cks = ops.find_cookies(out, "oidc_op")
                if cks:
                    self.cookies.append((cks, self.epoch))
            return summary(out)
        if k == "refresh":
            e = self.pick(self.rts, o["n"])
            if not e:
                return "skip"
            out = ops.refresh(op, e[1][0], e[0], o["scope"], issue_refresh=o["irt"])
            if out.ok:
                self.keep(out.args, e[1])
            return summary(out)
        if k == "use":
            e = self.pick({"at": self.ats, "rt": self.rts, "code": self.codes}[o["kind"]], o["n"])
            if not e:
                return "skip"
            return [summary(ops.userinfo(op, e[0])), summary(ops.introspect(op, e[1][0], e[0]))]
        if k == "reg":
            req = {"redirect_uris": [[f"https://reg{o['v']}.example.com/cb"], [f"https://reg{o['v']}.example.com/cb?x=1"]][o["v"] % 2],
                   "token_endpoint_auth_method": "client_secret_post", "subject_type": ["public", "pairwise"][o["v"] // 2],
                   "response_types": ops.ALL_RESPONSE_TYPES[:7], "contacts": ["a@example.com"]}
            if o["v"] == 3:
                req["jwks"] = ops.public_jwks("client0")
                req["request_uris"] = ["https://reg3.example.com/ro#abc"]
            out = op.call("registration", json.dumps(req))
            if out.ok:
                a = out.args.to_dict()
                c = ops.client_conf(7)
                c.update(client_id=a["client_id"], client_secret=a["client_secret"], redirect_uris=[a["redirect_uris"][0]])
                self.regs.append((c, a["registration_access_token"], self.epoch))
                cks = ops.find_cookies(out)
            return summary(out)
        if k == "read":
            e, x = self.pick(self.regs, o["n"]), self.pick(self.regs, o["x"])
            if not e:
                return "skip"
            return summary(op.call("registration_read", "client_id=" + x[0]["client_id"], {"headers": {"authorization": "Bearer " + e[1]}}))
        if k == "push":
            c = self.clients[o["c"]]
            ops.set_user(op, hist.USERS[o["u"]])
            out = op.call("pushed_authorization", dict(ops.auth_request(c, scope=o["scope"]), client_secret=c["client_secret"]))
            if out.ok:
                self.pars.append((out.raw["http_response"]["request_uri"], c, o["u"], self.epoch))
            return summary(out)
        if k == "pushed":
            e = self.pick(self.pars, o["n"])
            if not e:
                return "skip"
            ops.set_user(op, hist.USERS[e[2]])
            out = op.call("authorization", {"client_id": e[1]["client_id"], "request_uri": e[0], "response_type": "code", "scope": "openid",
                                            "redirect_uri": ops.join_uri(e[1]["redirect_uris"][0])}, {"headers": {}})
            if out.ok:
                self.keep(out.args, (e[1], None))
                self.note_sids()
            return summary(out)
        if k == "revoke":
            e = self.pick({"at": self.ats, "rt": self.rts, "code": self.codes}[o["kind"]], o["n"])
            if not e:
                return "skip"
            try:
                info = op.mngr.get_session_info_by_token(e[0])
                op.mngr.revoke_token(info["session_id"], e[0], o["rec"])
            except Exception as err:
                return type(err).__name__
            return "revoked"
        if k in ("revoke-grant", "revoke-client", "remove", "mint"):
            e = self.pick(self.sids, o["n"])
            if not e:
                return "skip"
            sid = op.mngr.encrypted_session_id(*e[0])
            try:
                if k == "revoke-grant":
                    op.mngr.revoke_grant(sid)
                elif k == "revoke-client":
                    op.mngr.revoke_client_session(sid)
                elif k == "remove":
                    op.mngr.remove_session(sid)
                else:
                    g = op.mngr.get_grant(sid)
                    based = [t for t in g.issued_token if t.token_class in ("authorization_code", "refresh_token") and t.is_active()]
                    t = g.mint_token(session_id=sid, endpoint_context=op.ctx, token_class=o["kind"], token_handler=op.mngr.token_handler[o["kind"]],
                                     based_on=based[-1] if based else None)
                    c = next((c for c in self.clients + [r[0] for r in self.regs] if c["client_id"] == e[0][1]), None)
                    self.keep({o["kind"]: t.value}, (c, None))
                    return norm({o["kind"]: t.value, "x": t.expires_at, "scope": t.scope})
            except Exception as err:
                return type(err).__name__
            return k
        if k == "logout":
            e = self.pick(self.cookies, o["n"])
            if not e:
                return "skip"
            req = {}
            h = self.pick(self.idts, o["h"]) if o["h"] is not None else None
            if h:
                req["id_token_hint"] = h[0]
                if o["plo"]:
                    req["post_logout_redirect_uri"] = ops.join_uri(h[1][0].get("post_logout_redirect_uri", ("https://x.example/", {})))
            out = op.call("session", req, {"headers": {}, "cookie": e[0]}, respond=False)
            if not out.ok and not out.raw:
                if not isinstance(out.raw, dict) and out.exception is not None:
                    return summary(out)
            loc = (out.raw or {}).get("redirect_location", "")
            if "sjwt=" not in loc:
                return summary(out)
            from urllib.parse import parse_qs, urlsplit
            sjwt = parse_qs(urlsplit(loc).query)["sjwt"][0]
            try:
                info = op.ep("session").unpack_signed_jwt(sjwt)
                res = op.ep("session").logout_all_clients(sid=info["sid"]) if o["all"] else op.ep("session").logout_from_client(sid=info["sid"])
            except Exception as err:
                return type(err).__name__
            blu = {c: (u, norm({"logout_token": t})) for c, (u, t) in res.get("blu", {}).items()}
            flu = {c: f.split("sid=")[0] for c, f in res.get("flu", {}).items()}
            return [norm({kk: v for kk, v in info.items() if kk not in ("sid", "iat", "exp", "jti")}), sorted(norm(blu).items()), sorted(flu.items())]

    def names(self, x):
        """Registered client ids are random."""
        ids = {r[0]["client_id"]: f"<reg{i}>" for i, r in enumerate(self.regs)}
        if isinstance(x, dict):
            return {ids.get(k, k): self.names(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.names(v) for v in x]
        return ids.get(x, x) if isinstance(x, str) else x

    def everything(self):
        out = []
        for lst in (self.codes, self.ats, self.rts):
            out.append([summary(ops.introspect(self.op, e[1][0], e[0])) for e in lst])
        return out


def play(case, restores, rec):
    CLOCK.reset()
    boot.drop_scratch()
    boot.reseed(11)
    random.seed(11)
    a = Actor(case, restores, rec)
    for o in case["ops"] + [{"op": "restore"}]:
        a.trace.append(a.names(a.do(o)))
    a.trace.append(a.names(a.everything()))
    return a


def run(case, rec):
    a = play(case, False, rec)
    b = play(case, True, rec)
    for i, (x, y) in enumerate(zip(a.trace, b.trace)):
        o = case["ops"][i] if i < len(case["ops"]) else "final introspection"
        check(x == y, lambda: f"step {i} {json.dumps(o)}: undisturbed -- restored: " + "; ".join(diff(x, y))[:900])
        if isinstance(o, dict) and x != "skip":
            rec.label(o["op"])
    rec.nontrivial(a.nontrivial)


SUBS = [Sub("restore", cases, run, quick=700, ids=True)]
