"""C25: issued values are unique, recognised as what they are, and nothing else is recognised."""
import base64
import hashlib
import hmac
import json

from hypothesis import strategies as st

from pbt import hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import JWS, SIGNER_ALGS
from oidcop.util import Crypt, lv_pack, lv_unpack

RULE = ("a case runs one to ten logins, exchanges and refreshes by users with arbitrary identifiers at two servers that share issuer name, clients and users but not keys, and then presents "
        "altered values, values of another kind, values of the other server and forged JWTs; non-trivial when an altered value still decodes, a value of another kind or server was "
        "presented, or a forged JWT was")

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
UIDS = ["diana", "babs", "a;;b", "a", "a;;client_0", "%3B%3B", "å∫ç", "0", " ", "diana ", "Diana", "a:b", "7:diana", "a%253Bb", "𝕌", "a\nb", "b;", ";c", "diana;;client_0;;x"]
MUTATIONS = ["flip", "flip", "delete", "insert", "insert junk", "truncate", "truncate segment", "append", "prepend", "swap case", "last bits", "padding", "spaces", "url alphabet",
             "splice", "json serialization", "repeat", "reverse segment", "quoted", "reencode", "extra segment", "percent"]
FORGED = ["client key", "attacker key", "attacker kid", "none", "none signed", "hs public", "hs secret", "jwk header", "other sid", "longer", "class", "as json", "client iss", "resigned header"]


def cases():
    fx = st.fixed_dictionaries
    uid = st.one_of(st.sampled_from(UIDS), st.text(min_size=1, max_size=6).filter(lambda s: s.encode("utf-8", "ignore").decode() == s))
    n = st.integers(0, 40)
    login = fx({"op": st.just("login"), "s": st.sampled_from([0, 0, 0, 1]), "u": st.integers(0, 2), "c": st.integers(0, 1),
                "rt": st.sampled_from(["code", "code", "code id_token token", "code token", "id_token", "code id_token"]), "off": st.booleans(),
                "exchange": st.sampled_from([True, True, False]), "refresh": st.booleans()})
    mut = fx({"op": st.just("mutate"), "n": n, "m": st.sampled_from(MUTATIONS), "p": st.integers(0, 3000), "ch": st.integers(0, 63), "o": n})
    ops_ = {"mutate": mut,
            "kind": fx({"op": st.just("kind"), "n": n}),
            "foreign": fx({"op": st.just("foreign"), "n": n}),
            "forge": fx({"op": st.just("forge"), "n": n, "o": n, "how": st.sampled_from(FORGED), "alg": st.sampled_from(["RS256", "ES256"])}),
            "sid": fx({"op": st.just("sid"), "n": n, "m": st.sampled_from(MUTATIONS[:14]), "p": st.integers(0, 3000), "ch": st.integers(0, 63), "o": n})}
    names = ["mutate"] * 4 + ["kind", "foreign", "forge", "forge", "sid"]
    return fx({"format": st.sampled_from(["jwt", "jwt", "opaque", "opaque", "jwt+opaque", "opaque+jwt"]), "lifetime": st.sampled_from([None, None, None, -1]),
               "passwords": st.booleans(), "sym": st.booleans(), "users": st.lists(uid, min_size=3, max_size=3, unique=True),
               "logins": hist.sized_lists(login, 1, 5), "ops": hist.sized_lists(st.sampled_from(names).flatmap(lambda x: ops_[x]), 1, 12)})


def b64(x):
    return base64.urlsafe_b64encode(x).rstrip(b"=").decode()


def unb64(x):
    return base64.urlsafe_b64decode(x + "=" * (-len(x) % 4))


def mutate(v, m, p, ch, other):
    i = p % len(v)
    c = B64[ch]
    seg = v.split(".")
    if m == "flip":
        return v[:i] + c + v[i + 1:]
    if m == "delete":
        return v[:i] + v[i + 1:]
    if m == "insert":
        return v[:i] + c + v[i:]
    if m == "insert junk":
        return v[:i] + "!*~\n\t $\\é\x00,;|="[p % 14] + v[i:]
    if m == "truncate":
        return v[:i]
    if m == "truncate segment":
        return ".".join(seg[:-1] or [v[:-4]])
    if m == "append":
        return v + ["=", "==", ".", c, " ", "\n", "A=", "%3D", "AAAA"][p % 9]
    if m == "prepend":
        return ["=", ".", c, " ", "\n", "Bearer ", "AAAA"][p % 7] + v
    if m == "swap case":
        return v[:i] + v[i:i + 1].swapcase() + v[i + 1:]
    if m == "last bits":        # bits no byte of the decoded value depends on
        body = v.rstrip("=")
        std = body[-1].replace("+", "-").replace("/", "_")
        return body[:-1] + B64[B64.index(std) ^ (1 + p % 3)] + v[len(body):]
    if m == "padding":
        return v.rstrip("=") + "=" * [1, 2, 3, 4][p % 4] if not v.endswith("=") or p % 2 else v.rstrip("=")
    if m == "spaces":
        return v[:i] + " " * (1 + p % 3) + v[i:]
    if m == "url alphabet":
        return v.replace("-", "+").replace("_", "/") if "-" in v or "_" in v else v.replace("+", "-").replace("/", "_")
    if m == "splice":
        if len(seg) > 1 and other.count(".") == v.count("."):
            k = p % len(seg)
            return ".".join(seg[:k] + [other.split(".")[k]] + seg[k + 1:])
        return v[:i] + other[i:]
    if m == "json serialization" and len(seg) == 3:
        return json.dumps([{"payload": seg[1], "protected": seg[0], "signature": seg[2]},
                           {"payload": seg[1], "signatures": [{"protected": seg[0], "signature": seg[2]}]}][p % 2])
    if m == "repeat":
        return v + v
    if m == "reverse segment":
        return ".".join(reversed(seg)) if len(seg) > 1 else v[::-1]
    if m == "quoted":
        return ['"%s"', "'%s'", "<%s>", '["%s"]'][p % 4] % v
    if m == "reencode":
        return b64(v.encode()) if len(seg) > 1 else base64.b64encode(base64.b64encode(base64.b64decode(v))).decode()
    if m == "extra segment":
        return v + "." + other.split(".")[0]
    if m == "percent":
        return v[:i] + "%%%02X" % ord(v[i]) + v[i + 1:]
    return v[:i] + c + v[i + 1:]


class Val:
    def __init__(self, value, kind, sess):
        self.value, self.kind, self.sess = value, kind, sess


class Sess:
    def __init__(self, s, uid, c, sid):
        self.s, self.uid, self.c, self.sid = s, uid, c, sid


def configure(case, s):
    conf = ops.base_conf(token_format="opaque" if case["format"].startswith("opaque") else "jwt",
                         usage_rules={"authorization_code": {"expires_in": 3000, "max_usage": 1, "supports_minting": ["access_token", "refresh_token", "id_token"]},
                                      "access_token": {}, "refresh_token": {"supports_minting": ["access_token", "refresh_token", "id_token"]}})
    tha = conf["token_handler_args"]
    if "+" in case["format"]:
        tha["refresh"] = ops.base_conf(token_format=case["format"].split("+")[1])["token_handler_args"]["refresh"]
    for k in ("token", "refresh"):
        if case["lifetime"] is not None:
            tha[k]["kwargs"]["lifetime"] = case["lifetime"]
    tha["jwks_file"] = f"private/c25_{s}.json"
    for k in ("code", "token", "refresh"):
        if not case["passwords"]:
            tha[k].pop("password", None)
        elif "password" in tha[k]:
            tha[k]["password"] += str(s)
    conf["session_params"] = {"password": f"session-password-{s}", "salt": f"salt-{s}"} if case["passwords"] else {}
    return conf


def run(case, rec):
    import os
    from pbt import boot
    for s in (0, 1):
        f = os.path.join(boot.scratch(), f"private/c25_{s}.json")
        if os.path.exists(f):
            os.remove(f)
    clients = [ops.client_conf(i, _keys=f"client{i}", allowed_scopes=["openid", "email", "offline_access"]) for i in (0, 1)]
    if case["sym"]:
        clients[0]["id_token_signed_response_alg"] = "HS256"
    clients[1]["id_token_signed_response_alg"] = "ES256"
    servers = [ops.OP(configure(case, s), clients=clients, keys=["server", "attacker"][s]) for s in (0, 1)]
    for op in servers:
        op.ctx.userinfo.db = {u: {"sub": u, "email": "x@example.org", "sid": "x", "token_class": "access_token", "ttype": "T"} for u in case["users"]}
    vals, sessions = [], []

    def note(value, kind, sess):
        for o in vals:
            check(o.value != value, f"the new {kind} is the same as an earlier {o.kind}")
        vals.append(Val(value, kind, sess))

    def collect(args, sess):
        for name, kind in (("code", "authorization_code"), ("access_token", "access_token"), ("refresh_token", "refresh_token"), ("id_token", "id_token")):
            if args.get(name):
                note(args[name], kind, sess)

    for o in case["logins"]:
        op, client, uid = servers[o["s"]], clients[o["c"]], case["users"][o["u"]]
        scope = ["openid", "email"] + (["offline_access"] if o["off"] else [])
        req = ops.auth_request(client, response_type=o["rt"], scope=scope, state="S%d" % len(sessions))
        ops.set_user(op, uid)
        out = op.call("authorization", req, http_info={"headers": {}})
        check(out.ok, lambda: f"login of {uid!r} failed: {out!r}")
        sid = op.mngr.encrypted_session_id(*last_path(op, out, uid, client["client_id"], [x.path for x in sessions if x.s == o["s"]]))
        sess = Sess(o["s"], uid, o["c"], sid)
        sess.path = op.mngr.decrypt_session_id(sid)
        sessions.append(sess)
        collect(out.args, sess)
        if out.args.get("code") and o["exchange"]:
            x = ops.exchange(op, client, out.args["code"], issue_refresh=True)
            check(x.ok, lambda: f"code exchange for {uid!r} failed: {x!r}")
            vals[[v.value for v in vals].index(out.args["code"])].kind = "used code"
            collect(x.args, sess)
            if x.args.get("refresh_token") and o["refresh"]:
                y = ops.refresh(op, client, x.args["refresh_token"], issue_refresh=True)
                check(y.ok, lambda: f"refresh for {uid!r} failed: {y!r}")
                vals[[v.value for v in vals].index(x.args["refresh_token"])].kind = "used refresh"
                collect(y.args, sess)
    allvalues = {v.value for v in vals}

    # ---- recognised as what they are
    for v in vals:
        op, c = servers[v.sess.s], clients[v.sess.c]
        kind = {"used code": "authorization_code", "used refresh": "refresh_token"}.get(v.kind, v.kind)
        for k, h in op.mngr.token_handler.handler.items():
            try:
                info = h.info(v.value)
            except Exception:
                check(k != kind, f"the {kind} is not recognised by its own handler")
                continue
            check(k == kind, f"the {k} handler recognises a {kind}")
            if kind != "id_token":
                check(info["token_class"] == kind, f"a {kind} is recognised as {info['token_class']}")
                check(op.mngr.decrypt_session_id(info["sid"]) == v.sess.path, f"a {kind} of {v.sess.path} is recognised as one of {op.mngr.decrypt_session_id(info['sid'])}")
        if kind != "id_token":
            si = op.mngr.get_session_info_by_token(v.value, grant=True)
            check([si["user_id"], si["client_id"], si["grant_id"]] == list(v.sess.path), f"the session of a {kind} of {v.sess.path} is {si['user_id'], si['client_id'], si['grant_id']}")
            t = si["grant"].get_token(v.value)
            check(t is not None and t.token_class == kind, f"the grant does not hold the {kind}")
        if kind == "access_token":
            u = ops.userinfo(op, v.value)
            check(u.ok and u.args.get("sub") == op.mngr.get(list(v.sess.path)).sub, lambda: f"userinfo for the access token of {v.sess.path}: {u!r}")

    def refused(op, value, what, legit=()):
        """The value means nothing at this server; legit names the uses it is meant for."""
        for c in clients:
            if "access" not in legit:
                o = ops.introspect(op, c, value)
                check(not (o.ok and o.args.get("active")), lambda: f"{what} is introspected as active: {o!r}")
            if "code" not in legit:
                o = ops.exchange(op, c, value, issue_refresh=True)
                check(not o.ok, lambda: f"{what} was exchanged as a code: {o!r}")
            if "refresh" not in legit:
                o = ops.refresh(op, c, value, issue_refresh=True)
                check(not o.ok, lambda: f"{what} was accepted as a refresh token: {o!r}")
        if "userinfo" not in legit:
            o = ops.userinfo(op, value)
            check(not o.ok, lambda: f"{what} opened userinfo: {o!r}")
            o = op.call("userinfo", {"access_token": value})
            check(not o.ok, lambda: f"{what} opened userinfo: {o!r}")

    def unknown(op, value, what):
        try:
            si = op.mngr.get_session_info_by_token(value, grant=True)
        except Exception:
            rec.label("not decoded")
        else:
            rec.label("still decodes")
            rec.nontrivial()
            check(si["grant"].get_token(value) is None, f"{what} is a token of the grant")
        refused(op, value, what)

    sids = [(s.s, s.sid, s.path) for s in sessions]
    for o in case["ops"]:
        k = o["op"]
        v = vals[o["n"] % len(vals)]
        other = vals[o["o"] % len(vals)] if "o" in o else None
        op = servers[v.sess.s]
        if k == "mutate":
            m = mutate(v.value, o["m"], o["p"], o["ch"], other.value)
            if m in allvalues:
                continue
            rec.label("mutate " + o["m"])
            unknown(op, m, f"a {v.kind} altered by {o['m']}")
        elif k == "kind":
            legit = {"access_token": ["access", "userinfo"], "authorization_code": ["code"], "refresh_token": ["refresh", "access"], "used refresh": ["access"],
                     "id_token": [], "used code": []}[v.kind]
            if v.kind == "used code":
                continue    # a replay has effects of its own (C01)
            rec.label("kind " + v.kind)
            rec.nontrivial()
            if v.kind == "used refresh":
                legit = legit + ["refresh"]
            refused(op, v.value, f"a {v.kind} of another use", legit)
        elif k == "foreign":
            rec.label("foreign " + v.kind)
            rec.nontrivial()
            a = servers[1 - v.sess.s]
            try:
                info = a.mngr.token_handler.info(v.value)
            except Exception:
                pass
            else:
                # the key of an HS256 ID Token is the client's secret, which is the same here
                check(v.kind == "id_token" and ops.jwt_header(v.value)["alg"] == "HS256", f"a {v.kind} of another server is recognised: {info.get('sid')}")
            refused(a, v.value, f"a {v.kind} of another server")
            try:
                path = a.mngr.decrypt_session_id(v.sess.sid)
            except ValueError:
                pass
            else:
                check(False, f"a session identifier of another server is recognised as {path}")
        elif k == "forge":
            f = forge(op, v, other, o, clients)
            if f is None or f in allvalues:
                continue
            rec.label("forge " + o["how"])
            rec.nontrivial()
            try:
                info = op.mngr.token_handler.info(f)
            except Exception:
                pass
            else:
                check(False, f"a JWT forged by '{o['how']}' is recognised as {info.get('token_class')} {info.get('sid')}")
            refused(op, f, f"a JWT forged by '{o['how']}'")
        else:
            s, sid, path = sids[o["n"] % len(sids)]
            if not o["p"] % 5:
                again = servers[s].mngr.encrypted_session_id(*path)
                check(again not in [x[1] for x in sids], "two session identifiers are the same")
                sids.append((s, again, path))
            m = mutate(sid, o["m"], o["p"], o["ch"], sids[o["o"] % len(sids)][1])
            rec.label("sid")
            try:
                got = servers[s].mngr.decrypt_session_id(m)
            except ValueError:
                continue
            if m not in [x[1] for x in sids]:
                check(got == path, f"an altered session identifier of {path} leads to {got}")
            unknown(servers[s], m, "a session identifier")
    # what was attempted above did no harm
    for v in vals:
        if v.kind in ("access_token", "refresh_token"):
            o = ops.introspect(servers[v.sess.s], clients[v.sess.c], v.value)
            check(o.ok and o.args.get("active"), lambda: f"after the attempts the {v.kind} is no longer active: {o!r}")
        elif v.kind == "authorization_code":
            o = ops.exchange(servers[v.sess.s], clients[v.sess.c], v.value)
            check(o.ok, lambda: f"after the attempts the code can not be exchanged: {o!r}")


def last_path(op, out, uid, cid, known):
    """The grant the login made."""
    info = op.mngr.get([uid, cid])
    new = [g for g in info.subordinate if [uid, cid, g] not in [list(k) for k in known]]
    check(len(new) == 1, f"login of {uid!r} at {cid}: {len(new)} new grants")
    return uid, cid, new[0]


def sign(header, payload, key, alg):
    msg = b64(json.dumps(header).encode()) + "." + b64(json.dumps(payload).encode())
    return msg + "." + b64(SIGNER_ALGS[alg].sign(msg.encode(), key.key if isinstance(key, SYMKey) else key.private_key()))


def first(name, ty):
    ks = ops.keyjar(name).get_signing_key("RSA" if ty == "RS256" else "EC", issuer_id="")
    return [k for k in ks if k.kty == "RSA" or k.crv == "P-256"][0]


def forge(op, v, other, o, clients):
    """A JWT like the value, but not one this server made."""
    me = "server" if v.sess.s == 0 else "attacker"
    them = "attacker" if v.sess.s == 0 else "server"
    how, alg = o["how"], o["alg"]
    if v.value.count(".") == 2:
        h, p = ops.jwt_header(v.value), ops.jwt_payload(v.value)
    else:
        h = {"alg": alg}
        p = {"iss": ops.ISSUER, "sid": v.sess.sid, "token_class": "access_token", "ttype": "T", "exp": CLOCK.now + 600, "iat": CLOCK.now, "aud": ["client_0"], "jti": "x"}
    key, hdr = first(them, alg), {"alg": alg}
    if how == "client key":
        key = first(f"client{v.sess.c}", alg)
    elif how == "client iss":
        key = first(f"client{v.sess.c}", alg)
        p["iss"] = f"client_{v.sess.c}"
    elif how == "attacker kid":
        hdr["kid"] = first(me, alg).kid
    elif how == "none":
        return b64(json.dumps({"alg": ["none", "None", "NONE", ""][o["o"] % 4]}).encode()) + "." + b64(json.dumps(p).encode()) + "."
    elif how == "none signed":
        return b64(json.dumps({**h, "alg": "none"}).encode()) + "." + b64(json.dumps(p).encode()) + "." + v.value.split(".")[-1]
    elif how == "hs public":
        pub = first(me, alg).serialize(private=False)
        secret = [json.dumps(pub), first(me, alg).kid or "", pub.get("n") or pub.get("x"), ""][o["o"] % 4].encode()
        msg = b64(json.dumps({"alg": "HS256", "kid": first(me, alg).kid}).encode()) + "." + b64(json.dumps(p).encode())
        return msg + "." + b64(hmac.new(secret, msg.encode(), hashlib.sha256).digest())
    elif how == "hs secret":
        if v.kind == "id_token" and "HS256" == clients[v.sess.c].get("id_token_signed_response_alg") and not p.get("token_class"):
            p["token_class"] = "access_token"
        if "HS256" in [c.get("id_token_signed_response_alg") for c in clients] and p.get("aud") and "client_0" in p["aud"]:
            return None     # a client can make its own HS256 ID Tokens
        key, alg, hdr = SYMKey(key=clients[v.sess.c]["client_secret"], alg="HS256"), "HS256", {"alg": "HS256"}
    elif how == "jwk header":
        hdr["jwk"] = key.serialize(private=False)
        if o["o"] % 2:
            hdr["kid"] = first(me, alg).kid
    elif v.value.count(".") == 2 and how in ("other sid", "longer", "class", "resigned header"):
        if how == "other sid":
            p["sid"] = other.sess.sid
        elif how == "longer":
            p["exp"] = CLOCK.now + 10 ** 9
        elif how == "class":
            p["token_class"] = ["access_token", "refresh_token", "T", "R"][o["o"] % 4]
            p["ttype"] = p["token_class"][0].upper()
        else:
            h["typ"] = "at+jwt"
        f = b64(json.dumps(h).encode()) + "." + b64(json.dumps(p).encode()) + "." + v.value.split(".")[2]
        return f if [ops.jwt_header(f), ops.jwt_payload(f)] != [ops.jwt_header(v.value), ops.jwt_payload(v.value)] else None
    elif how == "as json":
        msg = sign(hdr, p, key, alg).split(".")
        return json.dumps({"payload": msg[1], "signatures": [{"protected": msg[0], "signature": msg[2], "header": {"kid": first(me, alg).kid}}]})
    return sign(hdr, p, key, alg)


# ------------------------------------------------------------------------------------------------
def containers():
    fx = st.fixed_dictionaries
    text = st.one_of(st.text(max_size=12), st.text(alphabet=" ;:%0123B\n\t", max_size=8), st.sampled_from(UIDS + [""])).filter(lambda s: s.encode("utf-8", "ignore").decode() == s)
    return fx({"parts": st.lists(text, min_size=0, max_size=5), "other": st.lists(text, min_size=0, max_size=5), "pw": text, "pw2": text, "flip": st.integers(0, 5000), "bit": st.integers(0, 7),
               "path": st.lists(text, min_size=1, max_size=3), "path2": st.lists(text, min_size=1, max_size=3)})


_OP = []


def run_containers(case, rec):
    a, b = case["parts"], case["other"]
    packed = lv_pack(*a)
    check(lv_unpack(packed) == a, f"lv_unpack(lv_pack({a!r})) = {lv_unpack(packed)!r}")
    check((lv_pack(*b) == packed) == (a == b), f"{a!r} and {b!r} are packed alike")
    text = "".join(a)
    c1, c2 = Crypt(case["pw"]), Crypt(case["pw2"])
    x = c1.encrypt(text)
    check(c1.decrypt(x) == text, f"decrypt(encrypt({text!r})) = {c1.decrypt(x)!r}")
    check(c1.encrypt(text) != x, "the same text is encrypted the same way twice")
    raw = bytearray(base64.urlsafe_b64decode(x))
    raw[case["flip"] % len(raw)] ^= 1 << case["bit"]
    for c, val, what in ((c1, base64.urlsafe_b64encode(bytes(raw)), "altered"), (c2, x, "encrypted with another password")):
        if c is c2 and case["pw"] == case["pw2"]:
            continue
        try:
            got = c.decrypt(val)
        except Exception:
            continue
        check(False, f"{what} ciphertext decrypts to {got!r}")
    if not _OP:
        _OP.append(ops.OP(ops.base_conf()))
    m = _OP[0].mngr
    p, q = case["path"], case["path2"]
    check(m.unpack_session_key(m.session_key(*p)) == p, f"unpack_session_key(session_key{p!r}) = {m.unpack_session_key(m.session_key(*p))!r}")
    check((m.session_key(*p) == m.session_key(*q)) == (p == q), f"{p!r} and {q!r} have the same session key")
    check(m.decrypt_session_id(m.encrypted_session_id(*p)) == p, f"the session identifier of {p!r} decrypts to {m.decrypt_session_id(m.encrypted_session_id(*p))!r}")
    rec.nontrivial(any(ch in t for t in a + p for ch in ";:% "))


SUBS = [Sub("tokens", cases, run, quick=700), Sub("containers", containers, run_containers, quick=1500)]
