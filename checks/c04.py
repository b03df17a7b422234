"""C04: a token is honoured exactly while it is live."""
from pbt import hist
from pbt.runner import Sub

RULE = ("a case is a history of authorizations, redemptions, refreshes, revocations and clock steps; it is "
        "non-trivial when at least one token stopped being live (expiry or revocation) before the last probe")


def run(case, rec):
    w = hist.World(case["conf"], "C04", rec)
    w.run(case["ops"])
    rec.nontrivial(any(not w.honoured(t) for t in w.toks if t.kind != "authorization_code"))


W = {"auth": 2, "code": 4, "refresh": 3, "revoke_token": 2, "revoke_grant": 1, "revoke_client": 1, "remove": 1,
     "advance": 4, "edge": 4, "probe": 1, "wrong_kind": 1, "refresh_bad": 1}

SUBS = [
    Sub("histories", lambda: hist.histories(W), run, quick=1500, ids=True),
]
