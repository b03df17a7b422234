"""C06: scopes never grow."""
from hypothesis import strategies as st

from pbt import hist, ops
from pbt.runner import Sub, check, fail

RULE = ("flows: histories of refreshes with arbitrary scope parameters, non-trivial when a refresh narrowed the scope "
        "or asked for more than the parent has; allowed: one authorization by a client with its own allowed_scopes, "
        "non-trivial when the request names a scope that is not allowed")


def run(case, rec):
    w = hist.World(case["conf"], "C06", rec)
    w.run(case["ops"])
    rec.nontrivial(rec.labels["refresh-ok-downscoped"] or any(k.endswith("+scope") for k in rec.labels))


W = {"auth": 1, "code": 2, "refresh": 9, "probe": 1, "advance": 1, "edge": 1}

# ---------------------------------------------------------------------- allowed
POOL = hist.SCOPES + ["foo", "admin", "foo:write"]
CLAIMS = {
    "profile": {"name", "given_name", "family_name", "middle_name", "nickname", "profile", "picture", "website",
                "gender", "birthdate", "zoneinfo", "locale", "updated_at", "preferred_username"},
    "email": {"email", "email_verified"}, "address": {"address"}, "phone": {"phone_number", "phone_number_verified"},
    "foo": {"webid"}, "admin": {"eduperson_scoped_affiliation"},
}


def allowed_cases():
    sc = st.lists(st.sampled_from(POOL), max_size=6, unique=True)
    return st.fixed_dictionaries({
        "flavour": st.sampled_from(["oidc", "oidc", "oauth2"]),
        "fmt": st.sampled_from(["jwt", "opaque"]),
        "deny": st.booleans(),
        "allowed": st.one_of(st.none(), sc),
        "server_allowed": st.one_of(st.none(), st.none(), sc),
        "mapping": st.booleans(),
        "scope": st.permutations(POOL).flatmap(
            lambda p: st.integers(0, 7).map(lambda n: list(p)[:n])),
        "rt": st.sampled_from(["code", "code token", "token", "code id_token token", "id_token"]),
        "steps": st.integers(0, 2),
    })


def run_allowed(case, rec):
    oidc = case["flavour"] == "oidc"
    conf = ops.base_conf(flavour=case["flavour"], token_format=case["fmt"])
    if case["deny"]:
        conf["capabilities"]["deny_unknown_scopes"] = True
    if case["server_allowed"] is not None:
        conf["allowed_scopes"] = list(case["server_allowed"])
    mapping = {k: sorted(v) for k, v in CLAIMS.items()}
    mapping["openid"] = ["sub"]
    mapping["offline_access"] = []
    kw = {"allowed_scopes": case["allowed"]}
    if case["mapping"]:
        kw["scopes_to_claims"] = mapping
    client = ops.client_conf(0, **kw)
    other = ops.client_conf(1)
    op = ops.OP(conf=conf, clients=[client, other], flavour=case["flavour"])
    # the documented precedence: the client's own list, else its own mapping, else the server's
    if case["allowed"] is not None:
        allowed = set(case["allowed"])
    elif case["mapping"]:
        allowed = set(mapping)
    elif case["server_allowed"]:
        allowed = set(case["server_allowed"])
    else:
        allowed = {"openid", "profile", "email", "address", "phone", "offline_access"}
    scope = list(case["scope"])
    rt = case["rt"]
    if oidc and "openid" not in scope:
        scope.append("openid")
    if not oidc:
        rt = rt if rt in ("code", "token", "code token") else "code"
        if not scope:
            scope = ["foo"]
    before = set(op.mngr.db.db)
    out = ops.authorize(op, client, response_type=rt, scope=scope, respond=False)
    bad = [s for s in scope if s not in allowed]
    rec.nontrivial(bool(bad))
    if case["deny"] and bad:
        check(not out.ok, f"scopes {bad} are not allowed and unknown scopes are denied, but the request succeeded")
        check(set(op.mngr.db.db) == before, "a refused authorization request left a session")
        rec.label("denied")
        return
    check(out.ok, lambda: f"authorization request refused: {out!r}")
    rec.label("ok" if bad else "all-allowed")
    got = out.args.get("scope")
    if got is not None:
        got = [s for s in (got if isinstance(got, list) else got.split()) if s]
        check(not set(got) - allowed, f"response shows scopes {sorted(set(got) - allowed)} that are not allowed")
        check(set(got) == set(scope) & allowed, f"response scope {got}, requested {scope}, allowed {sorted(allowed)}")
    locked = set()
    amap = mapping if case["mapping"] else {k: v for k, v in CLAIMS.items() if k not in ("foo", "admin")}
    open_ = set()
    for s in scope:
        if s in allowed:
            open_ |= set(amap.get(s, ()))
    for v in CLAIMS.values():
        locked |= set(v)
    locked -= open_

    def no_leak(where, d):
        leak = locked & set(d)
        check(not leak, f"{where} discloses {sorted(leak)}; scopes {scope}, allowed {sorted(allowed)}")

    tokens = []
    if out.args.get("access_token"):
        tokens.append(out.args["access_token"])
    if out.args.get("id_token"):
        no_leak("ID token", ops.jwt_payload(out.args["id_token"]))
    if out.args.get("code"):
        t = ops.exchange(op, client, out.args["code"], issue_refresh=True)
        check(t.ok, lambda: f"token request refused: {t!r}")
        sc = t.args.get("scope", [])
        sc = sc if isinstance(sc, list) else sc.split()
        check(set(sc) <= set(scope), f"token response scope {sc}, requested {scope}")
        tokens.append(t.args["access_token"])
        if t.args.get("id_token"):
            no_leak("ID token", ops.jwt_payload(t.args["id_token"]))
        rt_ = t.args.get("refresh_token")
        for _ in range(case["steps"]):
            if not rt_:
                break
            r = ops.refresh(op, client, rt_, issue_refresh=True)
            check(r.ok, lambda: f"refresh refused: {r!r}")
            sc = r.args.get("scope", [])
            sc = sc if isinstance(sc, list) else sc.split()
            check(set(sc) <= set(scope), f"refreshed scope {sc}, requested {scope}")
            tokens.append(r.args["access_token"])
            rt_ = r.args.get("refresh_token")
            # a scope that was never granted
            extra = [s for s in POOL if s not in scope]
            if rt_ and extra:
                r2 = ops.refresh(op, client, rt_, scope=["openid", extra[0]] if oidc else [extra[0]],
                                 issue_refresh=True)
                check(not r2.ok, f"refresh for {extra[0]} succeeded, granted {scope}")
    for t in tokens:
        if case["fmt"] == "jwt":
            p = ops.jwt_payload(t)
            check(set(p.get("scope", [])) <= set(scope), f"JWT scope {p.get('scope')}, requested {scope}")
            no_leak("access token", p)
        i = ops.introspect(op, other, t)
        check(i.ok and i.args.get("active"), lambda: f"introspection: {i!r}")
        isc = i.args["scope"]
        isc = isc.split() if isinstance(isc, str) else isc
        check(set(isc) <= set(scope), f"introspection scope {isc}, requested {scope}")
        no_leak("introspection", i.args.to_dict())
        if oidc:
            u = ops.userinfo(op, t, respond=False)
            check(u.ok, lambda: f"userinfo refused: {u!r}")
            no_leak("userinfo", u.args)


SUBS = [
    Sub("flows", lambda: hist.histories(W, max_size=12), run, quick=900, ids=True),
    Sub("allowed", allowed_cases, run_allowed, quick=800, ids=True),
]
