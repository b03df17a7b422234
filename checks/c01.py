"""C01: an authorization code yields tokens at most once."""
from pbt import hist
from pbt.runner import Sub

RULE = ("a case is a history of authorizations and token requests, some of them parsed early and processed late, "
        "some by other clients; non-trivial when a code that had been redeemed was presented again")


def run(case, rec):
    w = hist.World(case["conf"], "C01", rec)
    w.run(case["ops"])
    rec.nontrivial(any(k.startswith("code-refused") and "used" in k for k in rec.labels))


REPLAY = {"auth": 2, "code": 6, "code_bad": 2, "hold": 4, "release": 5, "refresh": 4, "advance": 1, "edge": 1, "probe": 1}
MIXED = {"auth": 2, "code": 5, "code_bad": 1, "hold": 3, "release": 3, "refresh": 3, "revoke_token": 2,
         "revoke_grant": 1, "advance": 3, "edge": 1, "probe": 1}

SUBS = [
    Sub("replays", lambda: hist.histories(REPLAY, max_size=12), run, quick=1000, ids=True,
        rule="token requests replayed in any order, held between parse and process"),
    Sub("mixed", lambda: hist.histories(MIXED, max_size=14), run, quick=500, ids=True,
        rule="the same with revocations and clock steps in between"),
]
