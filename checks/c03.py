"""C03: PKCE binds a code to the verifier of its requester."""
import base64
import hashlib

from hypothesis import strategies as st

from pbt import hist, ops
from pbt.runner import Sub, check

RULE = ("a case is a server PKCE configuration, clients that override it, authorization requests with challenges of "
        "any method, and token requests with right, wrong, swapped, downgraded or missing verifiers; non-trivial when "
        "a code with a challenge met a verifier that must be refused, or a request had to be refused")

METHODS = ["plain", "S256", "S384", "S512"]
HASH = {"S256": hashlib.sha256, "S384": hashlib.sha384, "S512": hashlib.sha512}
VCHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~"


def transform(method, verifier):
    if method == "plain":
        return verifier
    return base64.urlsafe_b64encode(HASH[method](verifier.encode()).digest()).decode().rstrip("=")


def verifier():
    return st.one_of(
        st.integers(0, 10 ** 9).map(lambda n: hashlib.sha256(str(n).encode()).hexdigest()),
        st.text(VCHARS, min_size=43, max_size=60),
        st.text(VCHARS, min_size=1, max_size=8),
    )


def cases():
    auth = st.fixed_dictionaries({
        "op": st.just("auth"), "c": st.integers(0, 2), "u": st.integers(0, 2), "v": verifier(),
        "m": st.sampled_from([None, "plain", "S256", "S256", "S384", "S512", "S1", "s256", "PLAIN", ""]),
        "ch": st.sampled_from(["yes", "yes", "yes", "yes", "no", "empty"]),
        "rt": st.sampled_from(["code", "code", "code id_token", "code token"]),
        "via": st.sampled_from(["plain", "plain", "par"])})
    code = st.fixed_dictionaries({
        "op": st.just("code"), "g": st.integers(0, 9),
        "how": st.sampled_from(["right", "right", "missing", "empty", "challenge", "swap", "case", "trunc", "pad", "extra",
                                "other-method", "random", "space"]),
        "x": verifier(), "m": st.sampled_from(METHODS), "say": st.sampled_from([None, None, "plain", "S256"])})
    return st.fixed_dictionaries({
        "flavour": st.sampled_from(["oidc", "oidc", "oauth2"]),
        "essential": st.sampled_from([None, True, False]),
        "ess_clients": st.lists(st.sampled_from([None, True, False]), min_size=2, max_size=2),
        "methods": st.lists(st.sampled_from(METHODS), min_size=1, max_size=4, unique=True),
        "key": st.sampled_from(["documented", "list", "list", "none"]),
        "first": auth, "ops": hist.sized_lists(st.one_of(auth, code, code), 1, 8)})


def run(case, rec):
    oidc = case["flavour"] == "oidc"
    conf = ops.base_conf(flavour=case["flavour"])
    if case["key"] == "documented":
        kw = {"code_challenge_method": " ".join(case["methods"])}
    elif case["key"] == "list":
        kw = {"code_challenge_methods": list(case["methods"])}
    else:
        kw, case = {}, dict(case, methods=METHODS)
    if case["essential"] is not None:
        kw["essential"] = case["essential"]
    conf["add_on"] = {"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": kw}}
    clients = []
    for i, e in enumerate(case["ess_clients"]):
        clients.append(ops.client_conf(i, **({} if e is None else {"pkce_essential": e})))
    op = ops.OP(conf=conf, clients=clients, flavour=case["flavour"])
    codes = []
    for o in [case["first"]] + case["ops"]:
        if o["op"] == "auth":
            ci = o["c"] % len(clients)
            client = clients[ci]
            rt = o["rt"] if oidc or "id_token" not in o["rt"] else "code"
            kw = {}
            method = o["m"] or "plain"
            if o["m"] is not None:
                kw["code_challenge_method"] = o["m"]
            chal = None
            if o["ch"] == "yes":
                chal = transform(method if method in METHODS else "S256", o["v"])
                kw["code_challenge"] = chal
            elif o["ch"] == "empty":
                kw["code_challenge"] = ""
            ess = case["ess_clients"][ci]
            if ess is None:
                ess = bool(case["essential"])
            if o["via"] == "par":
                ops.set_user(op, hist.USERS[o["u"]])
                req = ops.auth_request(client, response_type=rt, **kw)
                p = op.call("pushed_authorization", dict(req, client_secret=client["client_secret"]))
                if not p.ok:
                    rec.label("par-refused")
                    out = p
                else:
                    out = op.call("authorization", {"client_id": client["client_id"], "response_type": rt,
                                                    "scope": "openid", "redirect_uri": req["redirect_uri"], "nonce": req["nonce"],
                                                    "request_uri": p.raw["http_response"]["request_uri"]}, respond=False)
            else:
                out = ops.authorize(op, client, user=hist.USERS[o["u"]], response_type=rt, respond=False, **kw)
            issued = out.ok and "code" in (out.args or {})
            if chal is None:
                if ess and issued:
                    # an empty challenge counts as none
                    check(False, f"a code was issued without a challenge although PKCE is essential ({o['ch']})")
                if not ess and o["ch"] == "no":
                    check(issued, lambda: f"request without PKCE refused although it is optional: {out!r}")
                    codes.append(dict(o, code=out.args["code"], ci=ci, chal=None, method=None, used=False))
                rec.label("no-challenge" + ("-essential" if ess else ""))
                rec.nontrivial(ess)
                continue
            supported = method in case["methods"]
            if not supported:
                check(not issued, f"code_challenge_method {method!r} is not among {case['methods']}, code issued")
                rec.label("method-refused")
                rec.nontrivial()
                continue
            check(issued, lambda: f"PKCE request with {method} refused: {out!r}")
            codes.append(dict(o, code=out.args["code"], ci=ci, chal=chal, method=method, used=False))
            rec.label("challenge:" + method)
            continue
        if not codes:
            continue
        c = codes[o["g"] % len(codes)]
        how, right = o["how"], c["v"]
        v = right
        if how == "missing":
            v = None
        elif how == "empty":
            v = ""
        elif how == "challenge":
            v = c["chal"] or "x"
        elif how == "swap":
            v = codes[(o["g"] + 1) % len(codes)]["v"]
        elif how == "case":
            v = right.swapcase()
        elif how == "trunc":
            v = right[:-1]
        elif how == "pad":
            v = right + "="
        elif how == "extra":
            v = right + "a"
        elif how == "space":
            v = right + " "
        elif how == "other-method":
            v = transform(o["m"], right)
        elif how == "random":
            v = o["x"]
        kw = {}
        if v is not None:
            kw["code_verifier"] = v
        if o["say"]:
            kw["code_challenge_method"] = o["say"]
        out = ops.exchange(op, clients[c["ci"]], c["code"], **kw)
        if c["chal"] is None:
            ok = True
        else:
            ok = bool(v) and transform(c["method"], v) == c["chal"]
        if c["used"]:
            check(not out.ok, "a code was redeemed twice")
            rec.label("replay")
            continue
        if ok:
            check(out.ok, lambda: f"right verifier refused ({c['method']}): {out!r}")
            c["used"] = True
            rec.label("redeemed")
        else:
            check(not out.ok, f"code with {c['method']} challenge redeemed with a wrong verifier ({how})")
            a = out.args
            check(a is None or "access_token" not in a, "refusal carries a token")
            rec.label("refused:" + how)
            rec.nontrivial()


SUBS = [Sub("pkce", cases, run, quick=2400, ids=True)]
