"""C15: only claims that were authorised are released."""
import json

from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import factory
from hypothesis import strategies as st

from pbt import hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

RULE = ("a case configures base, always, by-scope and per-client release at each of the four release points, scope mappings, two clients, "
        "three users with generated records (which may contain protocol names), and up to seven logins or queries with claims requests; "
        "non-trivial when one release point had to withhold a claim the user has and another claim had to be released")

POINTS = ["userinfo", "introspection", "id_token", "access_token"]
STD = {"openid": ["sub"],
       "profile": ["name", "given_name", "family_name", "middle_name", "nickname", "profile", "picture", "website", "gender",
                   "birthdate", "zoneinfo", "locale", "updated_at", "preferred_username"],
       "email": ["email", "email_verified"], "address": ["address"], "phone": ["phone_number", "phone_number_verified"],
       "offline_access": []}
CLAIMS = ["name", "nickname", "gender", "locale", "email", "email_verified", "address", "phone_number", "updated_at",
          "webid", "affiliation", "dept", "secret"]
HOSTILE = ["sub", "iss", "aud", "exp", "iat", "scope", "client_id", "active", "token_class", "jti", "sid", "acr", "cnf", "token_type", "nbf"]
VALUES = {"name": ["Diana Krall", "N"], "nickname": ["Dina", "babs", ""], "gender": ["f", "m"], "locale": ["sv", "en"],
          "email": ["a@example.org", "b@example.org"], "email_verified": [True, False],
          "address": [{"country": "SE"}, {"country": "US", "locality": "X"}], "phone_number": ["+46 1", "+1 2"],
          "updated_at": [1600000000, 1500000000], "webid": ["http://x/#me"], "affiliation": [["staff"], ["staff", "alum"], "alum"],
          "dept": [7, 0], "secret": ["s1", "s2"]}
MAPS = [None, None, {"openid": ["sub"], "email": ["email", "secret"], "research": ["webid", "affiliation", "dept"], "profile": ["name"]},
        {"openid": [], "profile": STD["profile"], "email": ["email"], "dept": ["dept"], "address": ["address", "dept"]}]
SCOPES = ["openid", "profile", "email", "address", "phone", "offline_access", "research", "dept"]


def spec_for(name):
    vals = VALUES.get(name, ["EVIL"])
    return st.one_of(st.none(), st.none(), st.just({"essential": True}), st.just({}), st.just({"essential": False, "purpose": "x"}),
                     st.sampled_from(vals).map(lambda v: {"value": v}), st.just({"value": "no such value"}),
                     st.lists(st.sampled_from(vals + ["zz"]), max_size=2).map(lambda v: {"values": v}),
                     st.sampled_from(vals).map(lambda v: {"essential": True, "value": v}))


def spec_dict(names, n):
    return st.lists(st.sampled_from(names).flatmap(lambda k: st.tuples(st.just(k), spec_for(k))), max_size=n).map(dict)


def cases():
    names = st.one_of(st.sampled_from(CLAIMS), st.sampled_from(CLAIMS), st.sampled_from(CLAIMS), st.sampled_from(HOSTILE))
    lists = st.lists(names, max_size=3, unique=True)
    point = st.fixed_dictionaries({"base": spec_dict(CLAIMS + HOSTILE, 3), "by_scope": st.booleans(), "per_client": st.booleans(),
                                   "always": st.one_of(st.just([]), lists, spec_dict(CLAIMS, 3))})
    always = st.dictionaries(st.sampled_from(POINTS), st.one_of(lists, spec_dict(CLAIMS, 3)), max_size=4)
    client = st.fixed_dictionaries({"always": always, "by_scope": st.dictionaries(st.sampled_from(POINTS), st.booleans(), max_size=4),
                                    "map": st.integers(0, len(MAPS) - 1),
                                    "allowed": st.one_of(st.none(), st.lists(st.sampled_from(SCOPES[1:]), max_size=6, unique=True)),
                                    "signed": st.sampled_from([None, None, "RS256", "ES256"])})
    user = st.lists(st.sampled_from(CLAIMS), unique=True, min_size=2).flatmap(
        lambda ks: st.fixed_dictionaries({k: st.sampled_from(VALUES[k]) for k in ks}))
    login = st.fixed_dictionaries({
        "k": st.just("login"), "c": st.integers(0, 1), "u": st.integers(0, 2),
        "rt": st.sampled_from(["code", "code", "code", "code id_token", "id_token token", "id_token", "code token"]),
        "scope": st.lists(st.sampled_from(SCOPES[1:]), max_size=4, unique=True),
        "claims": st.one_of(st.none(), st.dictionaries(st.sampled_from(POINTS[:3:2] * 3 + POINTS), spec_dict(CLAIMS + HOSTILE, 4), max_size=3)),
        "sso": st.booleans(), "narrow": st.one_of(st.none(), st.lists(st.integers(0, 5), max_size=3))})
    query = st.fixed_dictionaries({"k": st.just("query"), "t": st.integers(0, 30)})
    return st.fixed_dictionaries({
        "flavour": st.sampled_from(["oidc", "oidc", "oidc", "oidc", "oauth2"]), "map": st.integers(0, len(MAPS) - 1),
        "custom": st.booleans(), "points": st.fixed_dictionaries({p: point for p in POINTS}),
        "clients": st.lists(client, min_size=2, max_size=2), "users": st.lists(user, min_size=3, max_size=3),
        "hostile": st.lists(st.sampled_from(HOSTILE), max_size=6, unique=True),
        "ops": hist.sized_lists(st.one_of(login, login, query), 1, 7)})


def spec_ok(value, spec):
    """-> (may, must): is the constraint met, leaving unclear combinations open"""
    if spec is None or not ({"value", "values"} & set(spec)):
        return True, True
    r = []
    if "value" in spec:
        r.append(type(value) is type(spec["value"]) and value == spec["value"])
    if "values" in spec:
        r.append(any(type(v) is type(value) and v == value for v in spec["values"]))
    return any(r), all(r)


def as_spec(x):
    return {k: None for k in x} if isinstance(x, list) else dict(x)


class World:
    def __init__(self, case):
        self.case = case
        self.oidc = case["flavour"] == "oidc"
        conf = ops.base_conf(flavour=case["flavour"])
        self.map = dict(STD)
        self.added = None
        m = MAPS[case["map"]]
        if m:
            if case["custom"] and self.oidc:
                conf["add_on"] = {"custom_scopes": {"function": "oidcop.oidc.add_on.custom_scopes.add_custom_scopes", "kwargs": dict(m)}}
                self.map.update(m)
                self.added = m
            else:
                conf["scopes_to_claims"] = dict(m)
                self.map = dict(m)
        for p in POINTS:
            s = case["points"][p]
            kw = {"add_claims_by_scope": s["by_scope"], "enable_claims_per_client": s["per_client"]}
            if s["base"]:
                kw["base_claims"] = s["base"]
            if s["always"]:
                kw["always_add_claims"] = s["always"]
            if p in ("userinfo", "introspection"):
                if p in conf["endpoint"]:
                    conf["endpoint"][p]["kwargs"].update(kw)
            elif p == "id_token":
                if self.oidc:
                    conf["token_handler_args"]["id_token"]["kwargs"].update(kw)
            else:
                conf["token_handler_args"]["token"]["kwargs"].update(kw)
        if not self.oidc:
            conf["userinfo"] = {"class": "oidcop.user_info.UserInfo", "kwargs": {"db": {}}}
        self.op = ops.OP(json_copy_conf(conf), flavour=case["flavour"])
        self.users = ["diana", "babs", "upper"]
        self.op.ctx.userinfo.db = {u: dict(json.loads(json.dumps(case["users"][i])), **{h: "EVIL" for h in case["hostile"]})
                                   for i, u in enumerate(self.users)}
        self.clients = []
        for i, s in enumerate(case["clients"]):
            kw = {"add_claims": {}}
            if s["always"]:
                kw["add_claims"]["always"] = json.loads(json.dumps(s["always"]))
            if s["by_scope"]:
                kw["add_claims"]["by_scope"] = dict(s["by_scope"])
            m = MAPS[s["map"]]
            if m:
                kw["scopes_to_claims"] = dict(m)
            kw["allowed_scopes"] = (["openid"] + s["allowed"]) if s["allowed"] is not None else None
            if s["signed"]:
                kw["userinfo_signed_response_alg"] = s["signed"]
            c = ops.client_conf(i, **kw)
            self.op.add_client(c)
            self.clients.append(c)

    def mapping(self, ci):
        return MAPS[self.case["clients"][ci]["map"]] or self.map

    def allowed(self, ci, scopes):
        s = self.case["clients"][ci]
        if s["allowed"] is not None:
            ok = ["openid"] + s["allowed"]
        else:
            ok = list(self.mapping(ci))
        return [x for x in scopes if x in ok]

    def expected(self, point, ci, user, scopes, claims, id_token_only=False):
        """-> (may, must): dicts of claims that may, must be disclosed"""
        cfg = self.case["points"][point]
        sources = []
        sources += list(cfg["base"].items())
        by_scope = cfg["by_scope"]
        optional = []
        if cfg["per_client"]:
            cc = self.case["clients"][ci]
            sources += list(as_spec(cc["always"].get(point, [])).items())
            by_scope = cc["by_scope"].get(point, by_scope)
            if id_token_only:
                optional += list(as_spec(cc["always"].get("userinfo", [])).items())
                if cc["by_scope"].get("userinfo"):
                    optional += [(n, None) for s in self.allowed(ci, scopes) for n in self.mapping(ci).get(s, [])]
        elif cfg["always"]:
            sources += list(as_spec(cfg["always"]).items())
        if by_scope:
            sources += [(n, None) for s in self.allowed(ci, scopes) for n in self.mapping(ci).get(s, [])]
        req = (claims or {}).get(point) or {}
        rec = {k: v for k, v in self.case["users"][self.users.index(user)].items()}
        may, must = {}, {}
        for name, value in rec.items():
            specs = [spec_ok(value, s) for n, s in sources if n == name]
            opt = [spec_ok(value, s) for n, s in optional if n == name]
            if name in req:
                r = spec_ok(value, req[name])
                if r[0]:
                    may[name] = value
                if point in ("userinfo", "id_token") and r[1] and all(s[1] for s in specs + opt):
                    must[name] = value
                if point not in ("userinfo", "id_token") and specs and r[1] and all(s[1] for s in specs):
                    must[name] = value
            else:
                if any(s[0] for s in specs + opt):
                    may[name] = value
                if specs and all(s[1] for s in specs + opt):
                    must[name] = value
        return may, must


def json_copy_conf(conf):
    """The configuration is the server's from now on."""
    import copy
    out = {k: (v if k in ("cookie_handler",) else copy.deepcopy(v)) for k, v in conf.items()}
    return out


def released(world, rec, where, got, may, must, user):
    out = {k: v for k, v in got.items() if k in CLAIMS}
    for k, v in out.items():
        check(k in may, lambda: f"{where}: {k} disclosed without authorisation (allowed {sorted(may)})")
        check(v == may[k], lambda: f"{where}: {k} is {v!r}, the user's is {may[k]!r}")
    for k in must:
        check(k in out, lambda: f"{where}: {k} is authorised but not disclosed (got {sorted(out)})")
    have = set(world.case["users"][world.users.index(user)])
    if out and have - set(out):
        rec.nontrivial(True)


def not_evil(where, got, names):
    for k in names:
        check(got.get(k) != "EVIL" and got.get(k) != ["EVIL"], lambda: f"{where}: a user claim stands for {k}")


def query(w, rec, t):
    """Look at everything an access token discloses."""
    tok, ci, user, scopes, tscopes, claims, sub = t
    client = w.clients[ci]
    at = ops.jwt_payload(tok)
    released(w, rec, "access token", at, *w.expected("access_token", ci, user, tscopes, claims), user)
    not_evil("access token", at, [h for h in HOSTILE if h not in ("active", "token_type")])
    check(at.get("client_id") == client["client_id"] and at.get("iss") == w.op.ctx.issuer, "access token: client or issuer")
    i = ops.introspect(w.op, client, tok)
    check(i.ok and i.args.get("active") is True, lambda: f"introspection failed: {i!r}")
    d = i.args.to_dict() if hasattr(i.args, "to_dict") else dict(i.args)
    released(w, rec, "introspection", d, *w.expected("introspection", ci, user, scopes, claims), user)
    not_evil("introspection", d, HOSTILE)
    check(d.get("client_id") == client["client_id"] and d.get("iss") == w.op.ctx.issuer,
          lambda: f"introspection: {d}")
    if w.oidc:
        u = ops.userinfo(w.op, tok)
        check(u.ok, lambda: f"userinfo failed: {u!r}")
        d = dict(u.args)
        released(w, rec, "userinfo", d, *w.expected("userinfo", ci, user, scopes, claims), user)
        not_evil("userinfo", d, ["sub", "acr"])
        if sub is not None:
            check(d["sub"] == sub, "userinfo: another subject")
        alg = w.case["clients"][ci]["signed"]
        body = u.http["response"]
        if alg:
            j = factory(body)
            check(j is not None and j.jwt.headers["alg"] == alg, "userinfo response is not signed as agreed")
            pub = [key_from_jwk_dict(k) for k in w.op.ctx.keyjar.export_jwks(issuer_id="")["keys"]]
            pl = j.verify_compact(body, pub)
            check(pl["iss"] == w.op.ctx.issuer or "iss" in w.case["hostile"], "signed userinfo: issuer")
            if "aud" not in w.case["hostile"]:
                check(client["client_id"] in pl.get("aud", []), "signed userinfo: audience")
            rec.label("signed userinfo")
        else:
            pl = json.loads(body)
        check({k: v for k, v in pl.items() if k in CLAIMS + ["sub"]} == {k: v for k, v in d.items() if k in CLAIMS + ["sub"]},
              "the userinfo document differs from what was decided")
        return d["sub"]


def release(case, rec):
    w = World(case)
    cookies, toks = {}, []
    n = 0
    for o in case["ops"]:
        CLOCK.advance(3)
        if o["k"] == "query":
            if toks:
                query(w, rec, toks[o["t"] % len(toks)])
            continue
        n += 1
        ci, user, rt = o["c"], w.users[o["u"]], o["rt"]
        client = w.clients[ci]
        if not w.oidc:
            rt = "code" if "code" in rt.split() else "token"
        scope = ["openid"] + o["scope"] if w.oidc else (o["scope"] or ["profile"])
        if w.added is not None:
            # whether the standard scopes stay enabled beside the added ones is left open
            scope = [s for s in scope if s in w.added]
        claims = o["claims"]
        kw = {"claims": json.dumps(claims)} if claims is not None and w.oidc else {}
        if not w.oidc:
            claims = None
        if case["points"]["id_token"] and w.oidc:
            # an acr that can't be met stops the login (C24)
            if any("acr" in x for x in [case["points"]["id_token"]["base"], (claims or {}).get("id_token", {})]):
                rec.label("acr")
                kw.pop("claims", None)
                claims = None
                if "acr" in case["points"]["id_token"]["base"]:
                    return
        granted = w.allowed(ci, scope)
        if not granted:
            continue
        key = (ci, user)
        out = ops.authorize(w.op, client, user=user, cookies=cookies.get(key) if o["sso"] else None, response_type=rt, scope=scope,
                            state=f"S{n}", **kw)
        check(out.ok, lambda: f"authorization failed: {out!r}")
        if ops.find_cookies(out):
            cookies[key] = ops.find_cookies(out)
        sub = None
        idts = []
        if out.args.get("id_token"):
            idts.append((out.args["id_token"], rt == "id_token", granted))
        new = []
        if out.args.get("access_token"):
            new.append((out.args["access_token"], granted))
        if out.args.get("code"):
            r = ops.exchange(w.op, client, out.args["code"], issue_refresh=o["narrow"] is not None)
            check(r.ok, lambda: f"exchange failed: {r!r}")
            new.append((r.args["access_token"], granted))
            if r.args.get("id_token"):
                idts.append((r.args["id_token"], False, granted))
            if r.args.get("refresh_token"):
                want = [s for i, s in enumerate(granted) if i in o["narrow"] or s == "openid"] or granted[:1]
                r = ops.refresh(w.op, client, r.args["refresh_token"], scope=want)
                check(r.ok, lambda: f"refresh failed: {r!r}")
                new.append((r.args["access_token"], want))
                if r.args.get("id_token"):
                    idts.append((r.args["id_token"], False, want))
                rec.label("refresh")
        for t, only, ts in idts:
            p = ops.jwt_payload(t)
            may = w.expected("id_token", ci, user, granted, claims, id_token_only=only)[0]
            must = w.expected("id_token", ci, user, ts, claims, id_token_only=only)[1]
            released(w, rec, "id_token", p, may, must, user)
            not_evil("id_token", p, ["sub", "iss", "aud", "exp", "iat", "acr", "sid", "jti"])
            sub = p["sub"]
        for t, ts in new:
            tok = (t, ci, user, granted, ts, claims, sub)
            toks.append(tok)
            query(w, rec, tok)


SUBS = [Sub("release", cases, release, 800, rule=RULE, ids=True)]
