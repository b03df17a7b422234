"""C17: logout ends exactly the sessions it is meant to end."""
import base64
import html.parser
import json
from urllib.parse import parse_qs, parse_qsl, urlencode, urlsplit

from hypothesis import strategies as st

from pbt import hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import JWS, factory

RULE = ("a case configures four clients (back-channel, front-channel, both, none; three signing algorithms) and interleaves logins of three users, "
        "token and refresh requests, end-session requests with right and wrong cookies, hints, redirect URIs and client ids, and confirmations "
        "(genuine, late, altered or other signed tokens) for one client or all; after every confirmation all tokens of all users are probed; "
        "non-trivial when a logout was carried out while sessions existed that must survive it, or a forged step was refused")

FC = ["https://rp%d.example.com/fc", "https://rp%d.example.com/fc?x=1&y=%%20z&x=2&x=1", "https://rp%d.example.com:8443/a/b/fc?k=&l=1"]
BC = ["https://rp%d.example.com/bc", "https://rp%d.example.com/bc?x=1", "https://rp%d.example.com:444/deep/bc"]
PLO = [("https://rp%d.example.com/plo", ""), ("https://rp%d.example.com/plo", {}), ("https://rp%d.example.com/plo", {"a": ["1"]})]
EVENT = "http://schemas.openid.net/event/backchannel-logout"


def cases():
    idx = st.integers(0, 9)
    fx = st.fixed_dictionaries
    client = fx({"kind": st.sampled_from(["bc", "bc", "fc", "fc", "both", None]), "bc": st.integers(0, 2), "fc": st.integers(0, 2), "plo": st.integers(0, 2),
                 "flsr": st.booleans(), "alg": st.sampled_from([None, "RS256", "ES256", "HS256", None]),
                 "status": st.sampled_from([200, 200, 204, 501, 400, 500, "raise"])})
    login = fx({"op": st.just("login"), "u": st.integers(0, 2), "c": st.integers(0, 3),
                "rt": st.sampled_from(["code", "code", "code id_token", "code id_token token", "id_token token", "code token"]),
                "ex": st.sampled_from([True, True, True, False])})
    ref = fx({"op": st.just("refresh"), "n": idx})
    out = fx({"op": st.just("logout"), "n": idx, "ck": st.sampled_from(["own"] * 8 + ["none", "flip", "alien", "raw", "token"]),
              "hint": st.sampled_from([None, "own", "own", "own", "own", "client", "user", "forged-client", "forged-attacker", "none", "payload", "garbage"]),
              "plo": st.sampled_from([None, "own", "own", "own", "other", "other+id", "prefix", "query", "fragment", "redirect", "slash"]),
              "state": st.sampled_from([None, "abc", "a b&c=d%"]),
              "sj": st.sampled_from(["go"] * 8 + ["late", "flip", "access", "id", "alien", "none", "client", "logout", "skip"]),
              "all": st.booleans()})
    tick = fx({"op": st.just("tick"), "dt": st.sampled_from([1, 10, 901, 3601, 40000])})
    s = {"login": login, "refresh": ref, "logout": out, "tick": tick}
    step = st.sampled_from(["login"] * 4 + ["refresh"] + ["logout"] * 5 + ["tick"]).flatmap(lambda n: s[n])
    base = {"clients": st.lists(client, min_size=4, max_size=4), "fmt": st.sampled_from(["jwt", "opaque"]), "salg": st.sampled_from(["ES256", "ES256", "RS256"])}
    free = fx(dict(base, pre=st.lists(login, min_size=1, max_size=4), ops=hist.sized_lists(step, 2, 10)))
    # One user logged in at most of the clients, some of them without any logout URI, leaves them all
    one = fx({"op": st.just("login"), "u": st.just(0), "rt": st.sampled_from(["code", "code id_token"]), "ex": st.booleans()})
    # at some of them a login that never led to an ID token came first
    many = st.tuples(st.permutations([0, 1, 2, 3]), st.lists(one, min_size=3, max_size=4), st.lists(st.integers(0, 3), max_size=3, unique=True)).map(
        lambda t: [{"op": "login", "u": 0, "c": c, "rt": "code", "ex": False} for c in t[2]] + [dict(o, c=c) for c, o in zip(t[0], t[1])])
    leave = fx({"op": st.just("logout"), "n": idx, "ck": st.just("own"), "hint": st.sampled_from([None, "own"]), "plo": st.just(None), "state": st.just(None),
                "sj": st.just("go"), "all": st.just(True)})
    spread = fx(dict(base, pre=many, ops=st.tuples(leave, hist.sized_lists(step, 0, 3)).map(lambda t: [t[0]] + t[1]),
                     clients=st.lists(st.tuples(client, st.sampled_from([None, None, "bc", "fc", "both"])).map(lambda t: dict(t[0], kind=t[1])), min_size=4, max_size=4)))
    return st.sampled_from(["free", "free", "free", "spread"]).flatmap(lambda n: {"free": free, "spread": spread}[n])


class Frames(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.src = []

    def handle_starttag(self, tag, attrs):
        self.src.append((tag, dict(attrs).get("src")))


class S:
    def __init__(self, u, c, ck):
        self.u, self.c, self.cookies = u, c, [ck]
        self.ended, self.open = False, False
        self.sids, self.idts, self.codes, self.ats, self.rts = [], [], [], [], []
        self.sub = None
        self.t = CLOCK.now


def b64(x):
    return base64.urlsafe_b64encode(x).decode().rstrip("=")


def run(case, rec):
    clients = []
    for i, k in enumerate(case["clients"]):
        kw = {"_keys": f"client{i % 3}"}
        base, q = PLO[k["plo"]]
        kw["post_logout_redirect_uri"] = (base % i, q)
        if k["kind"] in ("bc", "both"):
            kw["backchannel_logout_uri"] = BC[k["bc"]] % i
        if k["kind"] in ("fc", "both"):
            kw["frontchannel_logout_uri"] = FC[k["fc"]] % i
            if k["flsr"]:
                kw["frontchannel_logout_session_required"] = True
        if k["alg"]:
            kw["id_token_signed_response_alg"] = k["alg"]
        clients.append(ops.client_conf(i, **kw))
    conf = ops.base_conf(token_format=case["fmt"], at_lifetime=200000, rt_lifetime=400000, grant_expires_in=400000, usage_rules={
        "authorization_code": {"expires_in": 200000, "max_usage": 1, "supports_minting": ["access_token", "refresh_token", "id_token"]},
        "access_token": {"expires_in": 200000}, "refresh_token": {"expires_in": 400000, "supports_minting": ["access_token", "refresh_token"]}})
    conf["endpoint"]["session"]["kwargs"]["signing_alg"] = case["salg"]
    op = ops.OP(conf, clients=clients)
    alien = ops.OP(dict(ops.base_conf(), session_params={"password": "another", "salt": "another"}), clients=clients, keys="attacker")
    alien.ctx.cookie_handler.sign_key = SYMKey(k="bm90LXRoZS1zYW1lLWtleS1hdC1hbGwtMDEyMzQ1Njc4OTAxMjM0NTY3ODk")
    ep = op.ep("session")
    for i, k in enumerate(case["clients"]):
        if "backchannel_logout_uri" in clients[i]:
            op.httpc.status[clients[i]["backchannel_logout_uri"]] = k["status"]

    def post(url, data=None, headers=None, **kw):
        op.httpc.posts.append((url, data, headers))
        stt = op.httpc.status.get(url, 200)
        if stt == "raise":
            raise ConnectionError("no route to host")
        r = type("R", (), {})()
        r.status_code, r.text = stt, ""
        return r

    op.httpc.post = post
    sess, jtis = [], set()

    def keep(s, args):
        a = args.to_dict() if hasattr(args, "to_dict") else dict(args)
        if a.get("code"):
            s.codes.append(a["code"])
        if a.get("access_token"):
            s.ats.append(a["access_token"])
        if a.get("refresh_token"):
            s.rts.append(a["refresh_token"])
        if a.get("id_token"):
            pl = ops.jwt_payload(a["id_token"])
            s.idts.append(a["id_token"])
            s.sub = pl["sub"]
            s.sids.append(pl.get("sid"))

    def login(o):
        c = clients[o["c"]]
        out = ops.authorize(op, c, user=hist.USERS[o["u"]], response_type=o["rt"], scope=("openid", "profile"))
        check(out.ok, lambda: f"login refused: {out!r}")
        s = S(o["u"], o["c"], ops.find_cookies(out, "oidc_op"))
        check(s.cookies[0], "no session cookie")
        keep(s, out.args)
        if s.codes and o["ex"]:
            r = ops.exchange(op, c, s.codes.pop(), issue_refresh=True)
            check(r.ok, lambda: f"code refused: {r!r}")
            keep(s, r.args)
            ck = ops.find_cookies(r, "oidc_op")
            if ck:
                s.cookies.append(ck)
        sess.append(s)

    def probe(final=False):
        for n, s in enumerate(sess):
            c = clients[s.c]
            for what, lst in (("access", s.ats), ("refresh", s.rts)):
                for t in lst:
                    a = ops.is_active(op, c, t)
                    check(a is not None, "introspection failed")
                    if s.open:
                        continue
                    if s.ended:
                        check(not a, lambda: f"{what} token of session {n} (user {s.u}, client {s.c}) still active after logout")
                    else:
                        check(a, lambda: f"{what} token of session {n} (user {s.u}, client {s.c}) died though nobody logged out from it")
            if final and not s.open:
                for t in s.codes:
                    r = ops.exchange(op, c, t)
                    check(r.ok is not s.ended, lambda: f"code of session {n}, ended={s.ended}: {r!r}")
                for t in s.rts:
                    r = ops.refresh(op, c, t)
                    check(r.ok is not s.ended, lambda: f"refresh token of session {n}, ended={s.ended}: {r!r}")
                for t in s.ats if s.ended or CLOCK.now < s.t + 3500 else []:
                    r = ops.userinfo(op, t)
                    check(r.ok is not s.ended, lambda: f"access token at userinfo, session {n}, ended={s.ended}: {r!r}")

    def of(u, c):
        return [s for s in sess if s.u == u and s.c == c]

    def names(sid, ids, chosen, ci):
        """A session of which the client got an ID token; or the one the user leaves, when its ID token was never fetched."""
        if sid in ids:
            return True
        mine = op.mngr.decrypt_session_id(sid)[:2] == [hist.USERS[chosen.u], clients[ci]["client_id"]]
        return mine and (not ids or (chosen.c == ci and not chosen.sids))

    def judge_logout_token(url, data, chosen):
        ci = next((i for i, c in enumerate(clients) if c.get("backchannel_logout_uri") == url), None)
        check(ci is not None, lambda: f"a logout token was sent to {url}")
        t = parse_qs(data).get("logout_token", [None])[0]
        check(t, "no logout_token")
        alg = clients[ci].get("id_token_signed_response_alg") or "RS256"
        hdr = ops.jwt_header(t)
        check(hdr["alg"] == alg, lambda: f"logout token signed with {hdr['alg']}, the client wants {alg}")
        if alg.startswith("HS"):
            keys = [SYMKey(key=clients[ci]["client_secret"].encode())]
            keys[0].kid = hdr.get("kid", "")
        else:
            keys = ops.keyjar("server").get_signing_key("EC" if alg[0] == "E" else "RSA", issuer_id="")
        pl = factory(t, alg=alg).verify_compact(t, keys)
        check(pl["iss"] == op.ctx.issuer and pl["aud"] in (clients[ci]["client_id"], [clients[ci]["client_id"]]), lambda: f"logout token: {pl}")
        check(pl["events"] == {EVENT: {}} and "nonce" not in pl and pl["iat"] == CLOCK.now and pl.get("exp", CLOCK.now + 1) > CLOCK.now, lambda: f"logout token: {pl}")
        check(pl.get("jti") and pl["jti"] not in jtis, "jti of a logout token")
        jtis.add(pl["jti"])
        mine = of(chosen.u, ci)
        check(mine, lambda: f"client {ci} was notified, user {chosen.u} was never there")
        ids = [x for s in mine for x in s.sids]
        check(names(pl["sid"], ids, chosen, ci), "the logout token names a session the client does not know")
        if "sub" in pl:
            check(pl["sub"] in [s.sub for s in mine], "sub of logout token")
        return ci

    def judge_frame(frame, chosen):
        f = Frames()
        f.feed(frame)
        check(len(f.src) == 1 and f.src[0][0] == "iframe" and f.src[0][1], lambda: f"frame {frame}")
        u = urlsplit(f.src[0][1])
        for ci, c in enumerate(clients):
            want = c.get("frontchannel_logout_uri")
            if not want:
                continue
            w = urlsplit(want)
            if (w.scheme, w.netloc, w.path) != (u.scheme, u.netloc, u.path):
                continue
            q = parse_qsl(u.query, keep_blank_values=True)
            extra = {k: v for k, v in q if k in ("iss", "sid")}
            rest = sorted(x for x in q if x[0] not in ("iss", "sid"))
            check(rest == sorted(parse_qsl(w.query, keep_blank_values=True)), lambda: f"frame {f.src[0][1]} is not for {want}")
            if c.get("frontchannel_logout_session_required"):
                check(set(extra) == {"iss", "sid"}, lambda: f"frame {frame} lacks issuer and session")
            if extra:
                check(extra.get("iss") == op.ctx.issuer, "iss in frame")
                ids = [x for s in of(chosen.u, ci) for x in s.sids]
                check(names(extra["sid"], ids, chosen, ci), "the frame names a session the client does not know")
            check(of(chosen.u, ci), lambda: f"client {ci} gets a frame, user {chosen.u} was never there")
            return ci
        check(False, lambda: f"frame for nobody: {frame}")

    def confirm(sid, s, everywhere):
        before = len(op.httpc.posts)
        frames = list(ep.do_verified_logout(sid, alla=everywhere))
        posts = op.httpc.posts[before:]
        noted_bc = [judge_logout_token(u, d, s) for u, d, _ in posts]
        noted_fc = [judge_frame(f, s) for f in frames]
        check(len(set(noted_bc)) == len(noted_bc) and len(set(noted_fc)) == len(noted_fc), lambda: f"notified twice: {noted_bc} {noted_fc}")
        noted = set(noted_bc) | set(noted_fc)
        must = set()
        for i, c in enumerate(clients):
            mine = of(s.u, i)
            if not mine or not (everywhere or i == s.c) or case["clients"][i]["kind"] is None:
                continue
            if i == s.c and not everywhere:
                must.add(i)
            elif any(x.sids and not x.ended and not x.open for x in mine):
                must.add(i)
        check(must <= noted, lambda: f"clients {sorted(must - noted)} were not notified (logout from {'all' if everywhere else s.c})")
        if not everywhere:
            check(noted <= {s.c}, lambda: f"clients {sorted(noted - {s.c})} were notified of a logout from client {s.c}")
        for i in must:
            k = case["clients"][i]["kind"]
            check(i in (noted_bc if k in ("bc", "both") else noted_fc), "notified in the wrong way")
        survivors = False
        for x in sess:
            if x.u == s.u and (x.c == s.c or x.c in noted):
                x.ended, x.open = True, False
            elif x.u == s.u and everywhere and not x.ended:
                x.open = True  # never notified: the property leaves it open
            elif not x.ended:
                survivors = True
        rec.label("logout-" + ("all" if everywhere else "client"))
        if survivors:
            rec.nontrivial()
        probe()

    def logout(o):
        s = sess[o["n"] % len(sess)]
        me = clients[s.c]
        ck = {"own": s.cookies[0], "token": s.cookies[-1], "none": None, "flip": None, "alien": None, "raw": None}[o["ck"]]
        genuine = o["ck"] in ("own", "token")
        if o["ck"] == "flip":
            v = s.cookies[0][0]["value"]
            i = len(v) // 2
            ck = [dict(s.cookies[0][0], value=v[:i] + ("A" if v[i] != "A" else "B") + v[i + 1:])]
        elif o["ck"] == "alien":
            a = ops.authorize(alien, me, user=hist.USERS[s.u])
            ck = ops.find_cookies(a, "oidc_op")
        elif o["ck"] == "raw":
            ck = [{"name": "oidc_op", "value": json.dumps({"sub": s.sub, "sid": s.sids[0] if s.sids else "x", "client_id": me["client_id"]})}]
        req = {}
        hint, hint_ok, hint_open = o["hint"], True, False
        src = s
        if hint == "client":
            src = next((x for x in sess if x.u == s.u and x.c != s.c and x.idts), None)
            hint_ok = False
        elif hint == "user":
            src = next((x for x in sess if x.u != s.u and x.c == s.c and x.idts), None)
            hint_ok = False
        if hint and (src is None or not src.idts):
            hint = None
            hint_ok = True
        if hint:
            t = src.idts[-1]
            pl = ops.jwt_payload(t)
            if hint == "forged-client":
                pl["iss"] = me["client_id"]
                t = JWS(json.dumps(pl), alg="ES256").sign_compact(ops.keyjar(f"client{s.c % 3}").get_signing_key("EC", issuer_id=""))
            elif hint == "forged-attacker":
                t = JWS(json.dumps(pl), alg="RS256").sign_compact(ops.keyjar("attacker").get_signing_key("RSA", issuer_id=""))
            elif hint == "none":
                t = b64(b'{"alg":"none"}') + "." + b64(json.dumps(pl).encode()) + "."
            elif hint == "payload":
                h, p, g = t.split(".")
                t = h + "." + b64(json.dumps(dict(pl, nonce="x")).encode()) + "." + g
            elif hint == "garbage":
                t = "not-a-token"
            if hint not in ("own", "client", "user"):
                hint_ok = False
            # keys of symmetric algorithms are not available here, and old tokens need not be accepted
            hint_open = ops.jwt_header(src.idts[-1])["alg"].startswith("HS") or pl["exp"] < CLOCK.now
            req["id_token_hint"] = t
        base, q = me["post_logout_redirect_uri"]
        own = base + ("?" + urlencode(q, doseq=True) if q else "")
        ob, oq = clients[(s.c + 1) % 4]["post_logout_redirect_uri"]
        other = ob + ("?" + urlencode(oq, doseq=True) if oq else "")
        plo = {None: None, "own": own, "other": other, "other+id": other, "prefix": own + "x", "query": own + ("&" if q else "?") + "z=1", "fragment": own + "#f",
               "redirect": ops.join_uri(me["redirect_uris"][0]), "slash": base + "/"}[o["plo"]]
        if plo:
            req["post_logout_redirect_uri"] = plo
        if o["plo"] == "other+id":
            req["client_id"] = clients[(s.c + 1) % 4]["client_id"]
        if o["state"]:
            req["state"] = o["state"]
        good = genuine and hint_ok and (plo is None or (o["plo"] == "own" and bool(hint)))
        out = op.call("session", req, {"headers": {}, "cookie": ck} if ck else {"headers": {}}, respond=False)
        loc = out.raw.get("redirect_location") if out.ok and out.raw else None
        if not loc:
            check(not good or hint_open, lambda: f"logout refused: {o} {out!r}")
            rec.label("refused")
            if hint or plo:
                rec.nontrivial()
            probe()
            return
        check(good, lambda: f"a logout was prepared: cookie {o['ck']}, hint {hint}, redirect {plo}, registered {own}")
        u = urlsplit(loc)
        check(loc.startswith("https://op.example.com/verify_logout?"), lambda: f"sent to {loc[:80]}")
        sj = parse_qs(u.query)["sjwt"][0]
        pl = ops.jwt_payload(sj)
        if plo:
            want = plo + (("&" if "?" in plo else "?") + urlencode({"state": o["state"]}) if o["state"] else "")
            check(pl["redirect_uri"] == want, lambda: f"redirect_uri {pl['redirect_uri']}, wanted {want}")
        else:
            check(pl["redirect_uri"] == "https://op.example.com/post_logout", lambda: f"redirect_uri {pl['redirect_uri']}")
        check(op.mngr.decrypt_session_id(pl["sid"])[:2] == [hist.USERS[s.u], me["client_id"]], "a logout of another session was prepared")
        probe()
        k = o["sj"]
        if k == "skip":
            return
        bad = sj
        if k == "late":
            CLOCK.advance(86401)
        elif k == "flip":
            h, p, g = sj.split(".")
            other_s = sess[(o["n"] + 1) % len(sess)]
            alt = (other_s.sids or ["x"])[0]
            bad = h + "." + b64(json.dumps(dict(pl, sid=alt if alt != pl["sid"] else "x")).encode()) + "." + g
        elif k == "access":
            bad = next((t for t in s.ats if t.count(".") == 2), None)
        elif k == "id":
            bad = s.idts[-1] if s.idts else None
        elif k == "alien":
            bad = JWS(json.dumps(pl), alg=case["salg"]).sign_compact(ops.keyjar("attacker").get_signing_key("EC" if case["salg"][0] == "E" else "RSA", issuer_id=""))
        elif k == "client":
            bad = JWS(json.dumps(pl), alg=case["salg"]).sign_compact(ops.keyjar(f"client{s.c % 3}").get_signing_key("EC" if case["salg"][0] == "E" else "RSA", issuer_id=""))
        elif k == "none":
            bad = b64(b'{"alg":"none"}') + "." + b64(json.dumps(pl).encode()) + "."
        elif k == "logout":
            bad = next((parse_qs(d)["logout_token"][0] for _, d, _ in op.httpc.posts), None)
        if k != "go":
            if bad is None:
                return
            try:
                info = ep.unpack_signed_jwt(bad)
            except Exception:
                rec.label("confirmation refused")
                rec.nontrivial()
                return
            check(False, lambda: f"{k}: not the server's signed confirmation, but accepted: {list(info)}")
        info = ep.unpack_signed_jwt(sj)
        check(info["redirect_uri"] == pl["redirect_uri"], "confirmation altered")
        confirm(info["sid"], s, o["all"])

    for o in case["pre"] + case["ops"]:
        k = o["op"]
        if k == "login":
            login(o)
        elif k == "tick":
            if CLOCK.now + o["dt"] < 1_700_000_000 + 150000:
                CLOCK.advance(o["dt"])
        elif k == "refresh":
            s = sess[o["n"] % len(sess)]
            if s.rts and not s.open:
                r = ops.refresh(op, clients[s.c], s.rts[-1])
                check(r.ok is not s.ended, lambda: f"refresh, session ended={s.ended}: {r!r}")
                if r.ok:
                    a = r.args.to_dict() if hasattr(r.args, "to_dict") else dict(r.args)
                    s.ats.append(a["access_token"])
        else:
            if CLOCK.now > 1_700_000_000 + 150000:
                continue
            logout(o)
    if CLOCK.now < 1_700_000_000 + 190000:
        probe(True)


SUBS = [Sub("logout", cases, run, quick=700, ids=True)]
