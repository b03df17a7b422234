"""C30: add-ons and added grant types act on the requests that use them, and on no others."""
import base64
import copy
import hashlib

from hypothesis import strategies as st

from pbt import boot, grants, hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

from checks import c26

RULE = ("a case draws features (PKCE, extra response arguments, extra scopes, own grant types, login hints, discovery) in an order, and a history of one client and user who use none of them, among others who do; "
        "the requests of the former are answered as on a server that has none of the features, and each feature works in company; "
        "non-trivial when the server has two features or more, the plain pair got three answers and a feature was used by the others")

OWN, OFF = "urn:example:grant:handover", "urn:example:grant:off"
FEATURES = ["pkce", "extra", "scopes", "grants", "hint", "discovery"]
METHODS = {"plain": lambda v: v, **{m: (lambda v, m=m: base64.urlsafe_b64encode(getattr(hashlib, "sha" + m[1:])(v.encode()).digest()).rstrip(b"=").decode()) for m in ("S256", "S384", "S512")}}
EXTRA_SCOPE = {"house": ["webid", "nickname"], "garden": []}
EXTRA = {"authorization": "made_by", "userinfo": "from"}
PLAIN = ["profile", "email", "offline_access", "address", "phone", "offline_access", "research"]


def cases():
    fx = st.fixed_dictionaries
    who = st.sampled_from([0, 0, 0, 1, 2, 3])
    server = fx({"format": st.sampled_from(["jwt", "opaque"]), "rules": st.integers(0, len(c26.RULES) - 1), "lifetime": st.sampled_from([100, 3600]), "issue_refresh": st.sampled_from([True, True, False])})
    client = fx({"rules": st.integers(0, len(c26.CLIENT_RULES) - 1), "alg": st.sampled_from([None, None, "ES256", "HS256"]), "subject": st.sampled_from([None, "pairwise", "public"]),
                 "grants": st.sampled_from([None, None, None, ["authorization_code", "refresh_token"], ["authorization_code", "refresh_token", OWN], [OWN], ["authorization_code"], []])})
    login = fx({"op": st.just("login"), "who": who, "rt": st.sampled_from(["code", "code", "code", "code id_token token", "id_token token", "token"]),
                "scope": st.lists(st.sampled_from(PLAIN), max_size=5, unique=True), "claims": st.integers(0, len(c26.REQUESTS) - 1), "par": st.sampled_from([0, 0, 1]), "cookie": st.booleans()})
    use = fx({"op": st.sampled_from(["exchange", "exchange", "refresh", "refresh", "userinfo", "introspect", "id_token_info", "odd"]), "who": who, "n": st.integers(0, 6), "auth": st.sampled_from(["post", "post", "basic"]),
              "narrow": st.one_of(st.none(), st.lists(st.integers(0, 6), max_size=2))})
    misc = fx({"op": st.sampled_from(["register", "junk", "advance", "logout"]), "who": who, "n": st.integers(0, 11)})
    feat = fx({"op": st.sampled_from(["f_pkce", "f_pkce", "f_scope", "f_own", "f_own", "f_own", "f_hint"]), "who": who, "n": st.integers(0, 7), "m": st.sampled_from(sorted(METHODS)), "par": st.sampled_from([0, 0, 1])})
    return fx({"flavour": st.sampled_from(["oidc", "oidc", "oauth2"]), "server": server, "clients": st.lists(client, min_size=2, max_size=2), "focus": st.sampled_from([0, 0, 1, 2, 3]),
               "features": st.one_of(st.permutations(FEATURES), st.permutations(FEATURES), st.lists(st.sampled_from(FEATURES), min_size=1, max_size=6, unique=True)), "essential": st.sampled_from([False, False, True]), "methods": st.sampled_from([None, ["S256"], ["S256", "plain"]]),
               "extra": st.sampled_from([["authorization"], ["authorization", "userinfo"], ["userinfo", "authorization"], ["userinfo"]]), "builtin": st.sampled_from([["authorization_code", "refresh_token"], ["authorization_code", "refresh_token"], ["authorization_code"]]), "spelled": st.booleans(),
               "first": st.tuples(login, login, login).map(list), "ops": hist.sized_lists(st.sampled_from([0, 0, 1, 1, 1, 1, 2, 3, 3, 3]).flatmap(lambda i: [login, use, misc, feat][i]), 5, 26)})


def adapt(case, features):
    """The case in the form of C26: one server and no features but those given."""
    s = {**case["server"], "points": {}, "map": 0, "custom": False, "pkce": None, "deny": False, "same_issuer": True, "methods": None, "default_acr": False}
    cs = [{"rules": c["rules"], "always": {}, "by_scope": {}, "map": 0, "allowed": None, "alg": c["alg"], "ui": None, "subject": c["subject"]} for c in case["clients"]]
    ops_ = [{**o, "s": 0} for o in case["ops"]]
    return {**case, "share": "own", "servers": [s], "clients": cs, "first": [{**o, "s": 0} for o in case["first"]], "ops": ops_, "features": features, "own": case["clients"]}


def setup(case):
    conf = c26.configure(case, 0)
    fl, add = case["flavour"], {}
    for f in case["features"]:
        if f == "pkce":
            kw = {"essential": case["essential"]}
            if case["methods"]:
                kw["code_challenge_methods"] = list(case["methods"])
            add["pkce"] = {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": kw}
        elif f == "extra":
            add["extra_args"] = {"function": "oidcop.oauth2.add_on.extra_args.add_support", "kwargs": {k: {EXTRA[k]: "issuer"} for k in case["extra"] if k in conf["endpoint"]}}
        elif f == "scopes" and fl == "oidc":
            add["custom_scopes"] = {"function": "oidcop.oidc.add_on.custom_scopes.add_custom_scopes", "kwargs": copy.deepcopy(EXTRA_SCOPE)}
        elif f == "hint" and fl == "oidc":
            conf["login_hint2acrs"] = {"class": "oidcop.login_hint.LoginHint2Acrs", "kwargs": {"scheme_map": {"email": [ops.ACR_PW]}}}
        elif f == "discovery" and fl == "oidc":
            conf["endpoint"] = {"discovery": {"path": ".well-known/webfinger", "class": "oidcop.oidc.discovery.Discovery", "kwargs": {}}, **conf["endpoint"]}
    gts = {}
    if "grants" in case["features"]:
        gts[OWN] = {"class": "pbt.grants.Handover", "kwargs": {"mark": "ours"}}
    mod = "oidcop.oidc.token" if fl == "oidc" else "oidcop.oauth2.token"
    for g, c in (("authorization_code", "AccessTokenHelper"), ("refresh_token", "RefreshTokenHelper")):
        if g in case["builtin"]:
            gts[g] = {"class": f"{mod}.{c}"}
        elif case["spelled"]:  # switched off by saying so
            gts[g] = {"class": f"{mod}.{c}", "kwargs": False}
    if "grants" in case["features"]:
        gts[OFF] = {"class": "pbt.grants.Handover", "kwargs": False}
    conf["endpoint"]["token"]["kwargs"]["grant_types_supported"] = gts
    if add:
        conf["add_on"] = add
    return conf


class Run(c26.Run):
    def __init__(self, case, alone):
        self.case, self.alone, self.answers, self.others, self.state, self.used = case, alone, [], 0, {}, set()
        del grants.SEEN[:]
        self.clients = [c26.client(case, i) for i in (0, 1)]
        for i, c in enumerate(self.clients):
            own = case["own"][i]["grants"]
            if own is not None:
                c["grant_types_supported"] = list(own)
            if case["essential"] and i == case["focus"] % 2:
                c["pkce_essential"] = False
        op = ops.OP(setup(case), clients=self.clients, keys="server", **({} if case["flavour"] == "oidc" else {"flavour": "oauth2"}))
        op.ctx.userinfo.db = copy.deepcopy(ops.USERS)
        self.servers = [op]

    def has(self, f):
        return f in self.case["features"] and not (self.case["flavour"] != "oidc" and f in ("scopes", "hint", "discovery"))

    def play(self):
        f = self.case["focus"]
        for i, o in enumerate(self.opening() + self.case["ops"]):
            if o["op"] == "advance":
                CLOCK.advance([1, 5, 30, 40, 60, 110, 200, 1000, 4000, 10, 20, 45][o["n"]])
                continue
            focus = o["who"] == f and o["op"] != "junk" and not o["op"].startswith("f_")
            if self.alone and not focus:
                continue
            boot.reseed(1000 + i)
            a = getattr(self, "do_" + o["op"])(o)
            if focus and a is not None:
                self.answers.append((i, o["op"], a, o.get("rt")))
            elif not focus:
                self.others += 1
        return self

    def do_login(self, o):
        if self.case["essential"] and self.has("pkce") and o["who"] % 2 != self.case["focus"] % 2:
            op, c, uid = self.pair(o)
            ops.set_user(op, uid)
            out = op.call("authorization", ops.auth_request(c, scope=["openid"] if self.case["flavour"] == "oidc" else ["profile"]))
            check(not out.ok, lambda: f"a request without a challenge is accepted where PKCE is essential: {out!r}")
            return None
        return c26.Run.do_login(self, o)

    def do_odd(self, o):
        """Token requests that cannot be answered."""
        op, c, uid = self.pair(o)
        code = self.st(o, "code")
        tok = self.st(o, "access_token")
        r = [{"grant_type": "what"}, ops.code_request(c, "nothing"), {"grant_type": "urn:example:none", "subject_token": tok[-1][0] if tok else "x"}, ops.refresh_request(c, "nothing"),
             {"grant_type": "what", "code": code[-1][0] if code else "x", "redirect_uri": c["redirect_uris"][0][0]}, {**ops.refresh_request(c, "x"), "refresh_token": tok[-1][0] if tok else "x"}, ops.code_request(c, tok[-1][0] if tok else "x")][o["n"]]
        r = {**r, "client_id": c["client_id"], "client_secret": c["client_secret"]}
        r, hi = self.auth(o, c, r)
        return self.answer(op.call("token", r, http_info=hi))

    # ------------------------------------------------------------------ the features at work
    def feature_login(self, o, scope=(), par=0, **kw):
        op, c, uid = self.pair(o)
        ops.set_user(op, uid)
        sc = (["openid"] if self.case["flavour"] == "oidc" else ["profile"]) + list(scope)
        if "code_challenge" not in kw and self.has("pkce") and self.case["essential"] and c.get("pkce_essential") is not False:
            kw.update(code_challenge=METHODS["S256"]("v" * 50), code_challenge_method="S256")
        r = ops.auth_request(c, scope=sc, **kw)
        if par:
            p = op.call("pushed_authorization", {**r, "client_secret": c["client_secret"]})
            if not p.ok:
                return p
            r = {"client_id": c["client_id"], "request_uri": p.raw["http_response"]["request_uri"], "response_type": "code", "scope": " ".join(sc), "redirect_uri": r["redirect_uri"]}
        return op.call("authorization", r)

    def may(self, o, grant):
        own = self.case["own"][o["who"] % 2]["grants"]
        return (own is None or grant in own) and (grant in self.case["builtin"] or (grant == OWN and self.has("grants")))

    def token(self, o, r, scope):
        a = super().token(o, r, scope)
        check("error" in a or self.may(o, r["grant_type"]), lambda: f"grant type {r['grant_type']} is used though the client or server does not have it: {a}")
        return a

    def exchange(self, o, code, verifier):
        op, c, uid = self.pair(o)
        r = ops.code_request(c, code)
        if verifier is not None:
            r["code_verifier"] = verifier
        return op.call("token", r)

    def do_f_pkce(self, o):
        if not self.has("pkce"):
            return
        v = "verifier-" + "x" * (34 + o["n"]) + o["m"]
        known = o["m"] in (self.case["methods"] or METHODS)
        out = self.feature_login(o, par=o["par"], code_challenge=METHODS[o["m"]](v), code_challenge_method=o["m"])
        check(out.ok == known, lambda: f"PKCE method {o['m']} of {self.case['methods']}: {out!r}")
        if not known:
            return
        self.used.add("pkce")
        n = o["n"] % 4
        sent = [v, v[:-1] + "y" if n == 1 else v, None, METHODS[o["m"]](v) if o["m"] != "plain" else v + "z"][n]
        out = self.exchange(o, out.args["code"], sent)
        good = n == 0 and self.may(o, "authorization_code")
        if not good:
            check(not out.ok, lambda: f"exchange with {['the', 'another', 'no', 'the hashed'][n]} verifier, grant allowed: {self.may(o, 'authorization_code')}: {out!r}")
        else:
            check(out.ok, lambda: f"exchange with the right verifier ({o['m']}) is refused: {out!r}")

    def do_f_scope(self, o):
        if not self.has("scopes"):
            return
        out = self.feature_login(o, scope=["house"], par=o["par"])
        check(out.ok, lambda: f"a login for the added scope is refused: {out!r}")
        self.used.add("scopes")

    def do_f_hint(self, o):
        if not self.has("hint"):
            return
        out = self.feature_login(o, par=o["par"], login_hint="email:diana@example.org")
        check(out.ok, lambda: f"a login with a hint is refused: {out!r}")
        self.used.add("hint")

    def do_f_own(self, o):
        op, c, uid = self.pair(o)
        toks = [(t, w) for w in range(4) for t, _ in self.state.get((0, w, "access_token"), [])]
        n = o["n"]
        grant = OFF if n == 6 else OWN
        r = {"grant_type": grant, "client_id": c["client_id"], "client_secret": c["client_secret"] if n != 5 else "wrong" * 8}
        if n != 4 and toks:
            r["subject_token"], owner = toks[-1 - n % len(toks)]
        r, hi = self.auth({"auth": "basic" if n == 1 else "post"}, c, r)
        if n == 7:
            r.pop("client_secret")
        live = "subject_token" in r and ops.is_active(op, self.clients[owner % 2], r["subject_token"])
        del grants.SEEN[:]
        out = op.call("token", r, http_info=hi)
        seen = list(grants.SEEN)
        if n in (5, 7):
            check(not out.ok and not seen, lambda: f"an unauthenticated request reached the grant type: {seen}, {out!r}")
        elif not self.may(o, grant):
            check(not out.ok and not seen, lambda: f"grant type {grant} is used though the client or server does not have it: {seen}, {out!r}")
        elif "subject_token" not in r:
            check(not out.ok and out.error == "invalid_target", lambda: f"the answer of the grant type itself is not given: {out!r}")
        elif live:
            self.used.add("grants")
            check(out.ok and out.args.get("mark") == "ours" and out.args.get("asked_by") == c["client_id"] and out.args.get("access_token") == r["subject_token"], lambda: f"an own grant type is not answered: {out!r}, seen {seen}")
            check(seen == [("parse", "ours", c["client_id"]), ("process", "ours", c["client_id"])], f"the grant type saw {seen}")


def strip(case, answers):
    """The answers without what the features are there to add."""
    out = []
    has = "extra" in case["features"]
    for i, k, a, rt in answers:
        a = copy.deepcopy(a)
        args = a.get("answer")
        if args and has:
            if k == "login" and "authorization" in case["extra"]:
                check(args.pop("made_by", None) == ops.ISSUER, lambda: f"request {i}: extra argument missing in the authorization response: {a}")
            elif k == "userinfo" and "userinfo" in case["extra"] and "from" in args:
                check(args.pop("from") == ops.ISSUER, lambda: f"request {i}: extra argument of userinfo: {a}")
        out.append((i, k, a))
    return out


def run(case, rec):
    got = {}
    for name, alone in (("plain", True), ("full", False)):
        boot.CLOCK.reset()
        boot.reseed(1)
        c = adapt(case, [] if alone else case["features"])
        got[name] = r = Run(c, alone)
        r.play()
    full = got["full"]
    a, b = strip(adapt(case, []), got["plain"].answers), strip(case, full.answers)
    check(len(a) == len(b), f"{len(a)} answers without the features, {len(b)} with them")
    for (i, k, x), (j, l, y) in zip(a, b):
        cx, cy = c26.canon(x), c26.canon(y)
        check(cx == cy, lambda: f"request {i} ({k}) uses no feature and is answered differently with {case['features']}: {cx} / {cy}")
        rec.label(f"{k} {'error' if 'error' in x else 'ok'}")
    for f in sorted(full.used):
        rec.label("used " + f)
    rec.nontrivial(len(case["features"]) >= 2 and len(a) >= 3 and len(full.used) >= 1)


SUBS = [Sub("addons", cases, run, quick=1200)]
