"""C18: usage rules decide what is minted, how often and for how long."""
import copy
import json

from hypothesis import strategies as st

from pbt import hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

RULE = ("a case draws server-wide and per-client usage rules for four kinds of tokens (absent, empty, partial, complete; numbers, digit strings, -1), handler lifetimes, "
        "refresh reissue/retire options, and a history of logins (some by single sign-on), exchanges, refreshes and clock movements to just before or after an expiry; "
        "non-trivial when a client rule overrides or adds to a server rule and a token was used, or a rule refused or omitted a token, or an expiry was crossed")

KINDS = ["authorization_code", "access_token", "refresh_token", "id_token"]
MINT = ["access_token", "refresh_token", "id_token"]


def cases():
    idx = st.integers(0, 9)
    fx = st.fixed_dictionaries
    opt = lambda s: st.one_of(st.just("-"), s)
    sup = st.sampled_from([MINT, MINT, MINT, ["access_token", "refresh_token"], ["access_token", "id_token"], ["id_token"], ["refresh_token", "id_token"], ["access_token"], []])
    life = st.sampled_from([5, 60, 300, 7200, -1, "90", 100000])

    def rule(kind):
        d = {"expires_in": opt(life)}
        if kind in ("authorization_code", "refresh_token"):
            d["supports_minting"] = opt(sup)
            d["max_usage"] = opt(st.integers(1, 3))
        return st.one_of(st.just("-"), st.just({}), fx(d), fx(d)).map(
            lambda r: r if r == "-" else {k: v for k, v in r.items() if v != "-"})

    rules = fx({k: rule(k) for k in KINDS}).map(lambda r: {k: v for k, v in r.items() if v != "-"})
    client = fx({"rules": st.one_of(st.just("-"), rules, rules), "revoke": st.sampled_from(["-", "-", True, False]),
                 "gts": st.sampled_from(["-", "-", "-", ["authorization_code"], ["authorization_code", "refresh_token"]])})
    issue = st.sampled_from(["-", True, True, True, False])
    login = fx({"op": st.just("login"), "c": st.integers(0, 2), "u": st.integers(0, 1), "sso": st.booleans(), "offline": st.booleans(),
                "rt": st.sampled_from(["code", "code", "code", "code token", "code id_token", "code id_token token"])})
    ex = fx({"op": st.just("exchange"), "n": idx, "issue": issue})
    ref = fx({"op": st.just("refresh"), "n": idx, "issue": issue, "scope": st.booleans()})
    tick = fx({"op": st.just("tick"), "n": idx, "off": st.sampled_from([-1, 1, 1, 100])})
    s = {"login": login, "exchange": ex, "refresh": ref, "tick": tick}
    step = st.sampled_from(["login"] * 3 + ["exchange"] * 4 + ["refresh"] * 4 + ["tick"] * 3).flatmap(lambda n: s[n])
    return fx({"flavour": st.sampled_from(["oidc", "oidc", "oauth2"]), "fmt": st.sampled_from(["jwt", "jwt", "opaque"]),
               "server": st.one_of(st.just("-"), rules, rules), "revoke": st.sampled_from([False, False, True]),
               "at": st.sampled_from([50, 300, 3600]), "rt": st.sampled_from([70, 900, 86400]),
               "clients": st.lists(client, min_size=3, max_size=3), "pre": st.lists(login, min_size=1, max_size=2), "ops": hist.sized_lists(step, 3, 14)})


def effective(server, client, kind):
    """The client's own rules override the server's, per token kind; an empty client rule clears it."""
    if client != "-" and client.get(kind) == {}:
        return {}
    r = {}
    if server != "-":
        r.update(copy.deepcopy(server.get(kind, {})))
    if client != "-":
        r.update(copy.deepcopy(client.get(kind, {})))
    return r


class T:
    def __init__(self, kind, value, c, rule, exp, code):
        self.kind, self.value, self.c, self.rule, self.exp, self.code = kind, value, c, rule, exp, code
        self.used, self.retired, self.open = 0, False, False
        self.at = CLOCK.now

    @property
    def limit(self):
        return 1 if self.kind == "authorization_code" else self.rule.get("max_usage")

    def live(self):
        if self.retired or (self.limit and self.used >= self.limit):
            return False
        if self.exp and CLOCK.now > self.exp:
            return False
        return True


def run(case, rec):
    server = case["server"]
    conf = ops.base_conf(case["flavour"], token_format=case["fmt"], at_lifetime=case["at"], rt_lifetime=case["rt"],
                         grant_config={"usage_rules": copy.deepcopy(server)} if server != "-" else {})
    conf["endpoint"]["token"]["kwargs"]["revoke_refresh_on_issue"] = case["revoke"]
    clients = []
    for i, k in enumerate(case["clients"]):
        kw = {"response_types": ["code", "code token", "code id_token", "code id_token token"]}
        if k["rules"] != "-":
            kw["token_usage_rules"] = copy.deepcopy(k["rules"])
        if k["revoke"] != "-":
            kw["revoke_refresh_on_issue"] = k["revoke"]
        if k["gts"] != "-":
            kw["grant_types_supported"] = k["gts"]
        clients.append(ops.client_conf(i, **kw))
    before = json.dumps(conf["authz"], sort_keys=True)
    op = ops.OP(conf, clients=clients, flavour=case["flavour"])
    oidc = case["flavour"] == "oidc"
    toks, sess = [], []
    jwt = case["fmt"] == "jwt"

    def unchanged():
        check(json.dumps(conf["authz"], sort_keys=True) == before, "the configuration was altered")
        for i, k in enumerate(case["clients"]):
            check(op.ctx.cdb[clients[i]["client_id"]].get("token_usage_rules", "-") == k["rules"],
                  lambda: f"the rules of client {i} were altered: {op.ctx.cdb[clients[i]['client_id']].get('token_usage_rules')}, set to {k['rules']}")

    def expiry(kind, rule, value, announced, at_token_endpoint):
        """-> expiry the model holds the server to, or None if it never expires; also the announced one and the one in the token"""
        handler = {"access_token": case["at"], "refresh_token": case["rt"], "authorization_code": 600}[kind]
        # RFC: the announced lifetime counts from now
        if announced is not None:
            check(isinstance(announced, int) and announced > 0, lambda: f"expires_in {announced!r} of {kind}")
        is_jwt = jwt and kind != "authorization_code"
        inside = None
        if is_jwt:
            inside = ops.jwt_payload(value).get("exp")
        # the handler's lifetime is the default one
        e = int(rule["expires_in"]) if "expires_in" in rule else handler
        want = CLOCK.now + e if e > 0 else None
        if is_jwt:
            check(inside == want, lambda: f"{kind} with rule {rule}: exp in the token is now+{inside and inside - CLOCK.now}, wanted {want and want - CLOCK.now}")
        if announced is not None:
            check(want == CLOCK.now + announced, lambda: f"{kind} with rule {rule}: announced {announced}, wanted {want and want - CLOCK.now}")
        elif kind == "access_token" and want:
            check(False, lambda: f"lifetime {e} of the access token is not announced")
        return want

    def add(kind, value, c, code, announced=None, rule=None, te=True):
        r = effective(server, case["clients"][c]["rules"], kind) if rule is None else rule
        life = effective(server, case["clients"][c]["rules"], kind)
        exp = expiry(kind, life, value, announced, te)
        t = T(kind, value, c, r, exp, code)
        toks.append(t)
        cr = case["clients"][c]["rules"]
        if cr != "-" and kind in cr and server != "-" and kind in server and cr[kind] != server[kind]:
            rec.nontrivial()
        return t

    def id_token(value, c):
        r = effective(server, case["clients"][c]["rules"], "id_token")
        pl = ops.jwt_payload(value)
        e = int(r.get("expires_in", 0))
        if e >= 0:
            check(pl["exp"] - CLOCK.now == (e or 900), lambda: f"ID token lives {pl['exp'] - CLOCK.now}, rule {r}")

    def login(o):
        c = o["c"]
        scope = (("openid",) if oidc else ()) + ("profile",) + (("offline_access",) if o["offline"] else ())
        rt = o["rt"] if oidc else "code"
        ck = None
        if o["sso"]:
            ck = next((x["ck"] for x in reversed(sess) if x["u"] == o["u"] and x["c"] == c), None)
        for ck in (ck, None):
            out = ops.authorize(op, clients[c], user=hist.USERS[o["u"]], cookies=ck, response_type=rt, scope=scope, state=f"s{len(sess)}", nonce=f"n{len(sess)}")
            if out.args or not out.ok:
                break  # otherwise the user has to log in again
        if ck:
            rec.label("sso")
        check(out.ok, lambda: f"login: {out!r}")
        sess.append({"u": o["u"], "c": c, "ck": ops.find_cookies(out, "oidc_op")})
        a = out.args
        t = add("authorization_code", a["code"], c, {"offline": o["offline"], "scope": scope}, te=False)
        if "token" in rt.split():
            add("access_token", a["access_token"], c, t.code, a.get("expires_in"), te=False)
        if "id_token" in rt.split():
            id_token(a["id_token"], c)

    def probe():
        for t in toks:
            if t.kind == "authorization_code" or t.open:
                continue
            o = ops.introspect(op, clients[t.c], t.value)
            check(o.ok, "introspection failed")
            act = bool(o.args.get("active"))
            if act and o.args.get("exp") is not None:
                check(o.args["exp"] == t.exp, lambda: f"introspection says the {t.kind} expires at {o.args['exp']}, wanted {t.exp}")
            check(act == t.live(), lambda: f"{t.kind} of client {t.c}, rule {t.rule}, used {t.used}, retired {t.retired}, expires {t.exp and t.exp - CLOCK.now}: "
                                           f"active={act}")

    def minted(o, t, r, offline):
        """Judge a token response based on t."""
        c = t.c
        sup = t.rule.get("supports_minting", MINT if t.kind == "authorization_code" else ["access_token", "refresh_token"])
        a = r.args.to_dict() if hasattr(r.args, "to_dict") else dict(r.args)
        want = {"access_token": "access_token" in sup}
        issue = o["issue"]
        if issue == "-":
            issue = oidc and offline
        want["refresh_token"] = bool(issue) and "refresh_token" in sup
        gts = case["clients"][c]["gts"]
        if t.kind == "authorization_code" and gts != "-" and "refresh_token" not in gts:
            want["refresh_token"] = False
        want["id_token"] = oidc and "id_token" in sup
        for k, v in want.items():
            check((k in a) == v, lambda: f"{k} {'missing' if v else 'issued'}: {t.kind} with rule {t.rule}, issue_refresh {o['issue']}, offline {offline}, scope {a.get('scope')}")
            if not v:
                rec.nontrivial()
        t.used += 1
        if "access_token" in a:
            n = add("access_token", a["access_token"], c, t.code, a.get("expires_in"))
        if "refresh_token" in a:
            n = add("refresh_token", a["refresh_token"], c, t.code, None, rule=None if t.kind == "authorization_code" else t.rule)
        if "id_token" in a:
            id_token(a["id_token"], c)

    def use(o, kind):
        ts = [t for t in toks if t.kind == kind and not t.open]
        if not ts:
            return
        t = ts[o["n"] % len(ts)]
        kw = {} if o["issue"] == "-" else {"issue_refresh": o["issue"]}
        if o.get("scope"):  # saying which scopes doesn't change the rules, be they all of them or some
            kw["scope"] = t.code["scope"] if oidc else ["profile"]
        r = (ops.exchange if kind == "authorization_code" else ops.refresh)(op, clients[t.c], t.value, **kw)
        sup = t.rule.get("supports_minting", MINT)
        ok = t.live()
        if kind == "refresh_token":
            gts = case["clients"][t.c]["gts"]
            if "access_token" not in sup or (gts != "-" and "refresh_token" not in gts):
                ok = False
        rec.label(f"{kind}:{'ok' if ok else 'refused'}")
        check(r.ok == ok, lambda: f"{kind} of client {t.c}, rule {t.rule}, used {t.used}, retired {t.retired}, expires {t.exp and t.exp - CLOCK.now}, wanted ok={ok}: {r!r}")
        if not ok:
            rec.nontrivial()
            if kind == "authorization_code" and t.used and oidc:
                # a replayed code revokes what it gave
                for x in toks:
                    if x.code is t.code:
                        x.open = True
            return
        minted(o, t, r, t.code["offline"])
        if kind == "refresh_token":
            rv = case["clients"][t.c]["revoke"]
            if rv == "-":
                rv = case["revoke"]
            if rv:
                t.retired = True

    for o in case["pre"] + case["ops"]:
        k = o["op"]
        if k == "login":
            login(o)
        elif k == "tick":
            ts = [t for t in toks if t.exp and t.exp + o["off"] > CLOCK.now]
            if ts:
                t = ts[o["n"] % len(ts)]
                CLOCK.advance(t.exp + o["off"] - CLOCK.now)
                rec.label("tick past" if o["off"] > 0 else "tick before")
                if o["off"] > 0:
                    rec.nontrivial()
        elif k == "exchange":
            use(o, "authorization_code")
        else:
            use(o, "refresh_token")
        probe()
        unchanged()


SUBS = [Sub("rules", cases, run, quick=900, ids=True)]
