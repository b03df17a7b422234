"""C05: revocation reaches exactly what it must."""
from hypothesis import strategies as st

from pbt import hist, ops
from pbt.runner import Sub, check

import oidcop.session
import oidcop.session.token
from oidcmsg.oidc import AuthorizationRequest
from oidcop.authn_event import create_authn_event

REFUSED = (oidcop.session.MintingNotAllowed, oidcop.session.token.MintingNotAllowed)

RULE = ("a case is a history with revocations of tokens, grants and client sessions (flows), or a forest of tokens "
        "minted from each other with revocations in between (trees); non-trivial when something that had "
        "descendants or siblings was revoked")


def run(case, rec):
    w = hist.World(case["conf"], "C05", rec)
    w.run(case["ops"])
    rec.nontrivial(any(g.revoked for g in w.grants) or any(t.revoked and w.descendants(t) for t in w.toks))


W = {"auth": 3, "code": 3, "refresh": 5, "revoke_token": 4, "revoke_grant": 2, "revoke_client": 2, "advance": 1, "edge": 1,
     "probe": 1, "hold": 1, "release": 1}

# ------------------------------------------------------------------------ trees
KINDS = ["authorization_code", "access_token", "refresh_token"]
MINTS = ["authorization_code", "access_token", "refresh_token", "id_token"]


def tree_ops():
    idx = st.integers(0, 20)
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("mint"), "g": idx, "k": st.integers(0, 2), "on": st.one_of(st.none(), idx)}),
        st.fixed_dictionaries({"op": st.just("mint"), "g": idx, "k": st.integers(0, 2), "on": idx}),
        st.fixed_dictionaries({"op": st.just("mint"), "g": idx, "k": st.integers(0, 2), "on": idx}),
        st.fixed_dictionaries({"op": st.just("revoke"), "t": idx, "rec": st.booleans(),
                               "via": st.sampled_from(["manager", "grant", "based_on"])}),
        st.fixed_dictionaries({"op": st.just("grant"), "g": idx}),
        st.fixed_dictionaries({"op": st.just("client"), "g": idx}),
    )


def trees():
    return st.fixed_dictionaries({
        "grants": st.lists(st.tuples(st.integers(0, 1), st.integers(0, 1)), min_size=1, max_size=4),
        "fmt": st.sampled_from(["opaque", "opaque", "jwt"]),
        "ops": hist.sized_lists(tree_ops(), 1, 22)})


def run_tree(case, rec):
    clients = [ops.client_conf(0), ops.client_conf(1)]
    op = ops.OP(clients=clients, token_format=case["fmt"])
    mngr = op.mngr
    G = []
    for u, c in case["grants"]:
        user = hist.USERS[u]
        cid = clients[c]["client_id"]
        areq = AuthorizationRequest(**ops.auth_request(clients[c]))
        sid = mngr.create_session(create_authn_event(user, authn_info="x"), areq, user, cid,
                                  token_usage_rules={}, scopes=["openid"])
        G.append({"sid": sid, "user": user, "cid": cid, "revoked": False})
    T = []
    rules = {"supports_minting": MINTS}
    nontrivial = False

    def kids(t):
        out, todo = [], [t]
        while todo:
            p = todo.pop()
            for x in T:
                if x["on"] is p:
                    out.append(x)
                    todo.append(x)
        return out

    def verify():
        for i, t in enumerate(T):
            real = mngr.find_token(t["g"]["sid"], t["value"])
            check(real is not None, f"token {i} vanished")
            active = real.is_active() and mngr.get_grant(t["g"]["sid"]).is_active()
            want = not t["revoked"] and not t["g"]["revoked"]
            check(active == want, lambda: f"token {i} ({t['kind']}, based on "
                  f"{T.index(t['on']) if t['on'] else None}) is {'active' if active else 'inactive'}, "
                  f"model says {'active' if want else 'inactive'}")
        for i, g in enumerate(G):
            check(mngr.get_grant(g["sid"]).is_active() == (not g["revoked"]), f"grant {i}: wrong revocation state")

    for o in case["ops"]:
        if o["op"] == "mint":
            g = G[o["g"] % len(G)]
            kind = KINDS[o["k"]]
            on = None
            mine = [t for t in T if t["g"] is g]
            if o["on"] is not None and mine:
                on = mine[o["on"] % len(mine)]
            grant = mngr.get_grant(g["sid"])
            parent = grant.get_token(on["value"]) if on else None
            dead = g["revoked"] or (on is not None and on["revoked"])
            try:
                tok = grant.mint_token(g["sid"], op.ctx, kind, based_on=parent,
                                       usage_rules={"supports_minting": list(MINTS)})
            except REFUSED:
                tok = None
            if tok is None:
                check(dead, f"minting {kind} from something live was refused")
                rec.label("mint-refused")
            else:
                check(not dead, f"minted {kind} from something revoked")
                T.append({"g": g, "kind": kind, "on": on, "value": tok.value, "revoked": False})
                rec.label("mint")
        elif o["op"] == "revoke":
            if not T:
                continue
            t = T[o["t"] % len(T)]
            below = kids(t)
            if o["via"] == "manager":
                mngr.revoke_token(t["g"]["sid"], t["value"], recursive=o["rec"])
            elif o["via"] == "grant":
                mngr.get_grant(t["g"]["sid"]).revoke_token(value=t["value"], recursive=o["rec"])
            else:  # everything that was minted from t
                mngr.get_grant(t["g"]["sid"]).revoke_token(based_on=t["value"], recursive=o["rec"])
                for x in T:
                    if x["on"] is t:
                        x["revoked"] = True
            if o["via"] != "based_on":
                t["revoked"] = True
            if o["rec"]:
                for x in below:
                    x["revoked"] = True
                nontrivial |= bool(below)
            rec.label("revoke:" + o["via"], f"revoke-below-{min(len(below), 4)}")
        elif o["op"] == "grant":
            g = G[o["g"] % len(G)]
            mngr.revoke_grant(g["sid"])
            g["revoked"] = True
            rec.label("grant")
        else:
            g = G[o["g"] % len(G)]
            mngr.revoke_client_session(g["sid"])
            check(mngr.client_session_is_revoked(g["sid"]), "client session not marked revoked")
            n = 0
            for x in G:
                if x["user"] == g["user"] and x["cid"] == g["cid"]:
                    x["revoked"] = True
                    n += 1
                    nontrivial |= n > 1
            rec.label("client")
        verify()
    rec.nontrivial(nontrivial)


SUBS = [
    Sub("flows", lambda: hist.histories(W), run, quick=900, ids=True, rule="through the endpoints and the session manager"),
    Sub("trees", trees, run_tree, quick=1200, ids=True, rule="token forests of any shape built with mint_token"),
]
