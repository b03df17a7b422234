"""C12: cookies round-trip and cannot be forged or altered."""
import base64
import json

from hypothesis import strategies as st

from pbt import ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

from cryptojwt.jwk.hmac import SYMKey
from oidcop.cookie_handler import CookieHandler

RULE = ("a case makes 1-4 cookies with one handler (signing, encrypting, both, generated keys) and presents them back intact, "
        "mixed with cookies of other names, and altered in one of 16 ways; non-trivial when a value contains a delimiter, blank, "
        "non-ASCII character or the cookie was altered")

K = ["ghsNKDDLshZTPn974nOsIGhedULrsqnsGoBFBLwUKuJhE2ch", "0123456789abcdef0123456789abcdef0123", "another-sign-key-of-some-length-00"]
E = ["NXi6HD473d_YS4exVRn7z9z23mGmvU64", "MDEyMzQ1Njc4OWFiY2RlZjAxMjM0NTY3ODlhYmNkZWY", "ZmVkY2JhOTg3NjU0MzIxMA"]
NAMES = ["oidc_op", "oidc_op_rp", "sman", "OIDC_OP", "oidc_op2", ""]
TAMPER = ["flip", "flip", "drop", "insert", "truncate", "swap", "swap", "boundary", "boundary", "boundary", "other-keys", "other-sign",
          "other-enc", "no-mac", "empty-part", "extra-part", "case", "splice", "dup", "reencode"]

SPICE = ["::", "|", ":", "%", "%3A", " ", "\n", "a", "1", "é", "日", '"', "{", "\x00", "=", ";", "1600000000", "0:", "3:abc"]


def text():
    return st.one_of(st.text(max_size=12), st.lists(st.sampled_from(SPICE), max_size=6).map("".join),
                     st.sampled_from(["", "value", '{"sid": "a::b"}', "user::", "1234567890"]))


def cases():
    ck = st.fixed_dictionaries({"name": st.integers(0, 2), "value": text(), "typ": text(),
                                "ts": st.one_of(st.just(""), st.integers(1, 2 ** 33), st.integers(1, 2 ** 33).map(str)),
                                "as_list": st.booleans()})
    tm = st.fixed_dictionaries({"t": st.sampled_from(TAMPER), "i": st.integers(0, 3), "j": st.integers(0, 3),
                                "p": st.integers(0, 400), "ch": st.integers(0, 255)})
    return st.fixed_dictionaries({
        "mode": st.sampled_from(["sign", "sign", "enc", "both", "both", "keys", "keys-sign"]), "enc": st.integers(0, 2),
        "alg": st.sampled_from(["SHA256", "SHA256", "SHA384", "SHA512"]), "symkey": st.booleans(),
        "cookies": st.lists(ck, min_size=1, max_size=4), "tamper": st.lists(tm, min_size=1, max_size=5)})


def key(v, symkey):
    return SYMKey(k=v) if symkey else v


def handler(case, sign=0, enc=None):
    m = case["mode"]
    kw = {"sign_alg": case["alg"]}
    if m in ("keys", "keys-sign"):
        # the server's own key definition format, without files; keys are drawn from the case's reseeded generator
        defs = [{"type": "OCT", "use": ["sig"], "kid": "sig", "bytes": 24}]
        if m == "keys":
            defs.append({"type": "OCT", "use": ["enc"], "kid": "enc", "bytes": 24})
        return CookieHandler(keys={"key_defs": defs}, **kw)
    if m in ("sign", "both"):
        kw["sign_key"] = key(K[sign], case["symkey"])
    if m in ("enc", "both"):
        kw["enc_key"] = key(E[case["enc"] if enc is None else enc], case["symkey"])
    return CookieHandler(**kw)


def alter(v, t, made, case, ts):
    """An altered cookie value; None when the alteration does not apply."""
    k, p = t["t"], t["p"]
    parts = v.split("|")
    other = made[t["j"] % len(made)][1]
    if k == "flip":
        i = p % len(v)
        c = chr(t["ch"] % 95 + 32)
        return v[:i] + c + v[i + 1:]
    if k == "drop":
        i = p % len(v)
        return v[:i] + v[i + 1:]
    if k == "insert":
        i = p % (len(v) + 1)
        return v[:i] + chr(t["ch"] % 95 + 32) + v[i:]
    if k == "truncate":
        return v[:p % len(v)]
    if k == "swap":
        op = other.split("|")
        i = p % len(parts)
        if i >= len(op):
            return None
        return "|".join(parts[:i] + [op[i]] + parts[i + 1:])
    if k == "boundary":
        # move characters between the fields of a signed cookie
        if len(parts) < 2:
            return None
        n = p % 6 + 1
        how = t["ch"] % 4
        if how == 0:
            a, b = parts[0], "|".join(parts[1:])
            return a[n:] + "|" + a[:n] + b
        if how == 1:
            rest = "|".join(parts[1:-1])
            return parts[0][n:] + "|" + rest + parts[0][:n] + "|" + parts[-1]
        if how == 2:
            rest = "|".join(parts[1:-1])
            return rest[len(rest) - n:] + parts[0] + "|" + rest[:len(rest) - n] + "|" + parts[-1]
        rest = "|".join(parts[1:-1])
        return parts[0] + rest[:n] + "|" + rest[n:] + "|" + parts[-1]
    if k == "no-mac":
        return "|".join(parts[:-1] + [""])
    if k == "empty-part":
        i = p % len(parts)
        return "|".join(parts[:i] + [""] + parts[i + 1:])
    if k == "extra-part":
        return v + "|" + "AAAA" if t["ch"] & 1 else "|".join(parts[:1] + ["AAAA"] + parts[1:])
    if k == "case":
        return v.swapcase()
    if k == "splice":
        i = p % (min(len(v), len(other)) + 1)
        return v[:i] + other[i:]
    if k == "dup":
        return v + v
    if k == "reencode":
        # keep what is readable, rebuild the rest the way an outsider could
        mac = base64.b64encode(b"\x00" * 32).decode()
        return "|".join([str(ts), "evil::sso", mac])
    return None


def cookies(case, rec):
    h = handler(case)
    made, genuine = [], set()
    for c in case["cookies"]:
        CLOCK.advance(1)
        arg = [c["value"]] if c["as_list"] and c["value"] else c["value"]
        d = h.make_cookie_content(name=NAMES[c["name"]], value=arg, typ=c["typ"], timestamp=c["ts"])
        check(d["name"] == NAMES[c["name"]], "cookie name changed")
        ts = str(c["ts"]) if c["ts"] else str(CLOCK.now)
        empty = not c["value"] and not c["typ"]
        if not empty:
            genuine.add((c["value"], c["typ"], ts))
        made.append((d["name"], d["value"], None if empty else (c["value"], c["typ"], ts)))
        if any(x in c["value"] + c["typ"] for x in ("|", ":", " ", "%")) or not (c["value"] + c["typ"]).isascii():
            rec.nontrivial()
    jar = [{"name": n, "value": v} for n, v, _ in made]
    # ---- intact
    for name in NAMES:
        want = [dict(zip(("value", "type", "timestamp"), g)) for n, _, g in made if n == name and g]
        got = h.parse_cookie(name, jar)
        check(got == want, lambda: f"cookies named {name!r} came back as {got}, made with {want}")
    for n, v, g in made:
        if g and case["mode"] in ("enc", "both", "keys"):
            check(len(g[0]) < 8 or g[0] not in v, "an encrypted cookie shows its value")
    # ---- altered
    for t in case["tamper"]:
        name, v, g = made[t["i"] % len(made)]
        if not v:
            continue
        k = t["t"]
        if k in ("other-keys", "other-sign", "other-enc"):
            if case["mode"] in ("keys", "keys-sign"):
                h2 = handler(case)
            else:
                if k == "other-sign" and case["mode"] not in ("sign", "both"):
                    continue
                if k == "other-enc" and case["mode"] not in ("enc", "both"):
                    continue
                h2 = handler(case, sign=1 if k != "other-enc" else 0,
                             enc=(case["enc"] + 1) % 3 if k != "other-sign" else None)
            v2 = h2.make_cookie_content(name=name, value="evil", typ="sso")["value"]
            if case["mode"] == "sign" and k == "other-keys":
                v2 = h2.make_cookie_content(name=name, value=g[0] or "x", typ="forged")["value"]
        else:
            v2 = alter(v, t, made, case, CLOCK.now)
        if v2 is None or v2 == v or v2 in [m[1] for m in made]:
            continue
        rec.label("altered:" + k)
        rec.nontrivial()
        try:
            got = h.parse_cookie(name, [{"name": name, "value": v2}])
        except Exception:  # noqa: B902 - refused
            rec.label("refused by exception")
            continue
        for r in got or []:
            tr = (r["value"], r["type"], r["timestamp"])
            check(tr in genuine, lambda: f"altered cookie ({k}) yields {tr}, the server made {sorted(genuine)}: {v2[:120]!r}")
            rec.label("altered encoding of a genuine cookie")


# ------------------------------------------------------------------ the server's session cookies

def server_cases():
    return st.fixed_dictionaries({
        "cid": text().filter(lambda x: x), "uid": text().filter(lambda x: x), "state": text(), "p": st.integers(0, 400), "ch": st.integers(0, 255),
        "name": st.sampled_from(["session", "register", "session_management"])})


def server(case, rec):
    op = ops.OP()
    ctx = op.ctx
    sid = op.mngr.encrypted_session_id(case["uid"], case["cid"], "g1")
    kw = {"sub": case["uid"], "sid": sid, "state": case["state"], "client_id": case["cid"]}
    name = ctx.cookie_handler.name[case["name"]]
    d = ctx.new_cookie(name=name, **kw)
    got = ctx.cookie_handler.parse_cookie(name, [{"name": name, "value": d["value"]}, {"name": "other", "value": d["value"]}])
    check(got is not None and len(got) == 1, lambda: f"session cookie came back as {got}")
    check(json.loads(got[0]["value"]) == kw, lambda: f"session cookie of {kw} came back as {got[0]['value']}")
    rec.nontrivial(not (case["cid"] + case["uid"]).isalnum())
    v = d["value"]
    i = case["p"] % len(v)
    v2 = v[:i] + chr(case["ch"] % 95 + 32) + v[i + 1:]
    try:
        got = ctx.cookie_handler.parse_cookie(name, [{"name": name, "value": v2}])
    except Exception:  # noqa: B902
        got = []
    for r in got or []:
        check(json.loads(r["value"]) == kw, lambda: f"altered session cookie yields {r}")


SUBS = [Sub("cookies", cases, cookies, 8000, rule=RULE), Sub("server", server_cases, server, 800)]
