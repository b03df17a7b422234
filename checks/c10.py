"""C10: the session store behaves like a user/client/grant tree."""
from hypothesis import strategies as st

from pbt import hist, ops
from pbt.runner import Sub, check, fail

from oidcmsg.oidc import AuthorizationRequest
from oidcop.authn_event import create_authn_event
from oidcop.session.grant import Grant
from oidcop.session.info import ClientSessionInfo, UserSessionInfo

RULE = ("a case is a sequence of store operations over three users, three clients and the grants made so far, with identifiers "
        "drawn from a list of awkward ones and arbitrary text; non-trivial when something was removed, revoked or re-created "
        "while at least one sibling existed")

IDS = ["a", "b", "ab", "a;;b", "a;", ";b", ";;", "a;;", ";", "%", "%3B", "%25", "a%3Bb", "a%3B", "å", "a b", "None", "0", "::", "a::b",
       "https://op/x?y=1&z", "日本", "A", "\n", "user@example.com", "1:2:3", "-"]


def ident():
    return st.one_of(st.sampled_from(IDS), st.sampled_from(IDS), st.text(min_size=1, max_size=6))


OPS = ["create_session", "create_session", "create_session", "create_session", "create_grant", "add_grant", "set_grant", "set_grant", "set_grant", "set_client",
       "set_user", "delete_user", "delete_client", "delete_grant", "delete_grant", "remove_session", "remove_session",
       "update_grant", "update_client", "update_user", "revoke_grant", "revoke_client_session", "revoke_token", "setitem", "query",
       "query", "flush"]


def cases():
    op = st.fixed_dictionaries({"op": st.sampled_from(OPS), "u": st.integers(0, 2), "c": st.integers(0, 2),
                                "g": st.integers(-1, 5), "f": st.integers(0, 31)})
    # identifiers that are easily taken for one another, and any others
    base = st.sampled_from(["a", "u1", "x;;y", "%3B", "Ab", "id-", "0", "é"])
    near = st.tuples(base, st.sampled_from(["b", "1", " ", ";", "/", "%", "A"])).flatmap(
        lambda t: st.permutations([t[0], t[0] + t[1], t[1] + t[0], t[0] + t[1] + t[0], t[0].swapcase() + t[1]])).map(
            lambda l: list(dict.fromkeys(l))[:3]).filter(lambda l: len(l) == 3)
    names = st.sampled_from(["near", "any"]).flatmap(
        lambda k: near if k == "near" else st.lists(ident(), min_size=3, max_size=3, unique=True))
    return st.fixed_dictionaries({
        "users": names,
        "clients": names,
        "gids": names,
        "ops": hist.sized_lists(op, 4, 26)})


class Tree:
    """The model: user -> (info, client -> (info, grant id -> grant))"""

    def __init__(self):
        self.t = {}

    def clients(self, u):
        return self.t[u][1] if u in self.t else {}

    def grants(self, u, c):
        return self.clients(u)[c][1] if c in self.clients(u) else {}

    def put_user(self, u, tag):
        if u in self.t:
            self.t[u][0].update(tag)
        else:
            self.t[u] = (dict(tag), {})

    def put_client(self, u, c, tag):
        self.t.setdefault(u, ({}, {}))
        if c in self.t[u][1]:
            self.t[u][1][c][0].update(tag)
        else:
            self.t[u][1][c] = (dict(tag), {})

    def put_grant(self, u, c, g, val):
        if c not in self.clients(u):
            self.put_client(u, c, {})
        self.t[u][1][c][1][g] = val

    def delete(self, u, c=None, g=None):
        if u not in self.t:
            return False
        if c is None:
            del self.t[u]
            return True
        if c not in self.t[u][1]:
            return False
        if g is None:
            del self.t[u][1][c]
        else:
            if g not in self.t[u][1][c][1]:
                return False
            del self.t[u][1][c][1][g]
            if not self.t[u][1][c][1]:
                del self.t[u][1][c]
        if not self.t[u][1]:
            del self.t[u]
        return True


def missing(fn, what):
    try:
        r = fn()
    except (KeyError, ValueError):
        return
    fail(f"{what}: expected to be reported missing, got {type(r).__name__}")


def store(case, rec):
    op = ops.OP()
    m = op.mngr
    users, clients = case["users"], case["clients"]
    t = Tree()
    made = []  # every (u, c, g) that ever existed
    counter = [0]

    def event(u):
        return create_authn_event(uid=u, authn_info="acr", authn_time=1000 + counter[0], expires_in=1000)

    def areq(c):
        return AuthorizationRequest(client_id=c, redirect_uri="https://x/cb", scope=["openid"], state=f"S{counter[0]}",
                                    response_type="code")

    def path(o):
        if o["g"] < 0 or not made:
            return users[o["u"]], clients[o["c"]], case["gids"][abs(o["g"]) % 3]
        return made[o["g"] % len(made)]

    def sid(u, c, g):
        s = m.encrypted_session_id(u, c, g)
        check(m.decrypt_session_id(s) == [u, c, g], lambda: f"session id of {(u, c, g)} denotes {m.decrypt_session_id(s)}")
        return s

    def new(u, c, g, val):
        t.put_grant(u, c, g, val)
        if (u, c, g) not in made:
            made.append((u, c, g))

    def verify(where):
        n = 0
        for u in users:
            if u not in t.t:
                missing(lambda: m.get([u]), f"{where}: user {u!r}")
            else:
                n += 1
                info = m.get([u])
                check(isinstance(info, UserSessionInfo), f"{where}: {u!r} is not user info")
                check(list(info.subordinate) == list(t.clients(u)),
                      lambda: f"{where}: clients of {u!r} are {info.subordinate}, expected {list(t.clients(u))}")
                check(bool(info.revoked) == t.t[u][0].get("revoked", False), f"{where}: user {u!r} revoked={info.revoked}")
                check(info.extra_args == t.t[u][0].get("extra", {}), f"{where}: user {u!r} holds {info.extra_args}")
            for c in clients:
                gs = t.grants(u, c)
                if c not in t.clients(u):
                    missing(lambda: m.get([u, c]), f"{where}: client {(u, c)!r}")
                    missing(lambda: m.grants(user_id=u, client_id=c), f"{where}: grants of {(u, c)!r}")
                else:
                    n += 1
                    ci = m.get([u, c])
                    want = t.clients(u)[c][0]
                    check(isinstance(ci, ClientSessionInfo), f"{where}: {(u, c)!r} is not client info")
                    check(list(ci.subordinate) == list(gs),
                          lambda: f"{where}: grants of {(u, c)!r} are {ci.subordinate}, expected {list(gs)}")
                    check(bool(ci.revoked) == want.get("revoked", False), f"{where}: client {(u, c)!r} revoked={ci.revoked}")
                    check(ci.extra_args == want.get("extra", {}), f"{where}: client {(u, c)!r} holds {ci.extra_args}")
                    check([id(g) for g in m.grants(user_id=u, client_id=c)] == [id(v["obj"]) for v in gs.values()],
                          f"{where}: grants() of {(u, c)!r}")
                for (mu, mc, mg) in made:
                    if (mu, mc) == (u, c) and mg not in gs:
                        missing(lambda: m.get([u, c, mg]), f"{where}: grant {(u, c, mg)!r}")
                for gid, v in gs.items():
                    n += 1
                    g = m.get([u, c, gid])
                    check(g is v["obj"], f"{where}: {(u, c, gid)!r} holds another grant")
                    check(bool(g.revoked) == v["revoked"], f"{where}: grant {(u, c, gid)!r} revoked={g.revoked}")
                    check(list(g.scope or []) == v["scope"], f"{where}: grant {(u, c, gid)!r} scope {g.scope}")
        keys = list(m.db.keys())
        check(len(keys) == n, lambda: f"{where}: {len(keys)} entries stored, {n} expected: {keys}")

    siblings = False
    for o in case["ops"]:
        counter[0] += 1
        k = o["op"]
        u, c = users[o["u"]], clients[o["c"]]
        before = {x: list(t.clients(x)) for x in t.t}
        if k == "create_session":
            ev, ar = event(u), areq(c)
            s = m.create_session(ev, ar, u, client_id=c if o["f"] & 1 else "", scopes=["openid"])
            p = m.decrypt_session_id(s)
            check(p[:2] == [u, c], lambda: f"new session of {(u, c)!r} is {p}")
            check(p[2] not in t.grants(u, c), "a new session got the id of an existing grant")
            g = m[s]
            new(u, c, p[2], {"obj": g, "revoked": False, "scope": ["openid"], "ev": ev, "ar": ar})
            check(g.authentication_event is ev and g.authorization_request is ar, "the session holds other information")
            check(m.get_user_session_info(s) is m.get([u]) and m.get_client_session_info(s) is m.get([u, c])
                  and m.get_grant(s) is g, "session info lookups disagree")
        elif k == "create_grant":
            ev, ar = event(u), areq(c)
            s = m.create_grant(ev, ar, u, client_id=c, scopes=["openid"])
            p = m.decrypt_session_id(s)
            check(p[:2] == [u, c], lambda: f"new grant of {(u, c)!r} is {p}")
            new(u, c, p[2], {"obj": m[s], "revoked": False, "scope": ["openid"], "ev": ev, "ar": ar})
        elif k == "add_grant":
            if c not in t.clients(u) and not o["f"] & 1:
                continue
            ev = event(u)
            g = m.add_grant(u, c, scope=["openid"], authentication_event=ev)
            new(u, c, g.id, {"obj": g, "revoked": False, "scope": ["openid"], "ev": ev, "ar": g.authorization_request})
        elif k in ("set_grant", "setitem"):
            g = Grant(scope=["x%d" % counter[0]])
            gid = case["gids"][o["f"] % 3] if k == "set_grant" else path(o)[2]
            if k == "setitem":
                u, c, gid = path(o)
                m[sid(u, c, gid)] = g
            else:
                m.set([u, c, gid], g)
            new(u, c, gid, {"obj": g, "revoked": False, "scope": ["x%d" % counter[0]], "ev": g.authentication_event,
                            "ar": g.authorization_request})
        elif k == "set_client":
            if c in t.clients(u):
                info = m.get([u, c])
            else:
                info = ClientSessionInfo(client_id=c)
            info.extra_args = {"n": counter[0]}
            m.set([u, c], info)
            t.put_client(u, c, {"extra": {"n": counter[0]}})
        elif k == "set_user":
            info = m.get([u]) if u in t.t else UserSessionInfo(user_id=u)
            info.extra_args = {"n": counter[0]}
            m.set([u], info)
            t.put_user(u, {"extra": {"n": counter[0]}})
        elif k == "delete_user":
            m.delete([u])
            if t.delete(u):
                rec.label("delete user")
        elif k == "delete_client":
            m.delete([u, c])
            if t.delete(u, c):
                rec.label("delete client")
        elif k in ("delete_grant", "remove_session"):
            u, c, g = path(o)
            if k == "delete_grant":
                m.delete([u, c, g])
            else:
                m.remove_session(sid(u, c, g))
            rec.label("delete grant" if t.delete(u, c, g) else "delete missing")
        elif k.startswith("update_"):
            u2, c2, g2 = path(o)
            if k == "update_grant":
                p, there = [u2, c2, g2], g2 in t.grants(u2, c2)
                info = {"scope": ["u%d" % counter[0]] if counter[0] % 3 else []}
            elif k == "update_client":
                p, there, info = [u2, c2], c2 in t.clients(u2), {"extra_args": {"u": counter[0]} if counter[0] % 3 else {}}
            else:
                p, there, info = [u2], u2 in t.t, {"extra_args": {"u": counter[0]} if counter[0] % 3 else {}}
            if not there:
                missing(lambda: m.update(p, info), f"update of {p}")
            else:
                m.update(p, info)
                if k == "update_grant":
                    t.grants(u2, c2)[g2]["scope"] = info["scope"]
                elif k == "update_client":
                    t.clients(u2)[c2][0]["extra"] = info["extra_args"]
                else:
                    t.t[u2][0]["extra"] = info["extra_args"]
                rec.label("update")
        elif k == "revoke_grant":
            u, c, g = path(o)
            if g in t.grants(u, c):
                m.revoke_grant(sid(u, c, g))
                t.grants(u, c)[g]["revoked"] = True
                rec.label("revoke grant")
            else:
                missing(lambda: m.revoke_grant(sid(u, c, g)), "revoke of a missing grant")
        elif k == "revoke_client_session":
            u, c, g = path(o)
            if c in t.clients(u):
                m.revoke_client_session(sid(u, c, g))
                t.clients(u)[c][0]["revoked"] = True
                for v in t.grants(u, c).values():
                    v["revoked"] = True
                check(m.client_session_is_revoked(sid(u, c, g)) is True, "client session not reported as revoked")
                rec.label("revoke client session")
            else:
                missing(lambda: m.revoke_client_session(sid(u, c, g)), "revoke of a missing client session")
        elif k == "revoke_token":
            u, c, g = path(o)
            if g in t.grants(u, c):
                check(m.find_token(sid(u, c, g), "nope") is None, "found a token that was never issued")
            else:
                missing(lambda: m.find_token(sid(u, c, g), "nope"), "token of a missing grant")
        elif k == "flush":
            if o["f"] % 4 == 0:
                m.flush()
                t.t.clear()
                rec.label("flush")
        elif k == "query":
            u, c, g = path(o)
            f = o["f"]
            kw = {n: bool(f >> i & 1) for i, n in enumerate(
                ["user_session_info", "client_session_info", "grant", "authentication_event", "authorization_request"])}
            s = sid(u, c, g)
            if g in t.grants(u, c):
                v = t.grants(u, c)[g]
                r = m.get_session_info(s, **kw)
                want = {"session_id": s, "user_id": u, "client_id": c, "grant_id": g}
                objs = {"user_session_info": m.get([u]), "client_session_info": m.get([u, c]), "grant": v["obj"],
                        "authentication_event": v["ev"], "authorization_request": v["ar"]}
                want.update({n: objs[n] for n in kw if kw[n]})
                check(set(r) == set(want) and all(r[n] is want[n] or r[n] == want[n] for n in want),
                      lambda: f"get_session_info({kw}) -> {sorted(r)}")
                check(m.get_authentication_event(s) is v["ev"] or m.get_authentication_event(s) == v["ev"],
                      "another authentication event")
                check(m.get_authorization_request(s) == v["ar"], "another authorization request")
                evs = [x["ev"] for x in t.grants(u, c).values()]
                for got in (m.get_authentication_events(session_id=s), m.get_authentication_events(user_id=u, client_id=c)):
                    check(len(got) == len(evs) and all(a is b or a == b for a, b in zip(got, evs)), "authentication events differ")
                rec.label("query")
            else:
                if any(kw.values()):
                    full = dict(kw, grant=True, authentication_event=False)
                    missing(lambda: m.get_session_info(s, **full), f"session info of {(u, c, g)!r}")
                missing(lambda: m[s], "missing session")
                missing(lambda: m.get_grant(s), "missing grant")
        verify(k)
        if before != {x: list(t.clients(x)) for x in t.t} or k.startswith("revoke"):
            if sum(len(v[1]) for v in t.t.values()) > 1 and k.split("_")[0] in ("delete", "remove", "revoke"):
                siblings = True
    rec.nontrivial(siblings)


SUBS = [Sub("store", cases, store, 2400, rule=RULE)]
