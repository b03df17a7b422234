"""C02: a code works only for the client and redirect URI it was issued for."""
from pbt import hist
from pbt.runner import Sub

RULE = ("a case is a history in which codes are presented by the rightful or another client, with the right, a "
        "sibling's or a near-miss redirect URI, at any time, and other tokens are presented as codes; non-trivial "
        "when a wrongly bound request was made and the same code was later presented correctly")


def run(case, rec):
    w = hist.World(case["conf"], "C02", rec)
    w.run(case["ops"])
    rec.nontrivial(rec.labels["code-refused:unbound"] and rec.labels["code-ok"])


W = {"auth": 2, "code": 3, "code_bad": 7, "wrong_kind": 2, "advance": 2, "edge": 1, "hold": 1, "release": 1}

SUBS = [Sub("histories", lambda: hist.histories(W, max_size=12), run, quick=1500, ids=True)]
