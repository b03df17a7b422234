"""C27: a login needs the user's own credential, and completes exactly the request that asked for it."""
import base64
import hashlib
import html.parser
import json
import os

from hypothesis import strategies as st

from pbt import boot, hist, ops
from pbt.boot import CLOCK
from pbt.runner import Sub, check

from cryptography.hazmat.primitives.ciphers.aead import AESGCM
from cryptojwt.jws.jws import JWS
from oidcmsg.oauth2 import AuthorizationRequest as OAuth2Request
from oidcmsg.oidc import AuthorizationRequest as OIDCRequest

RULE = ("page: a case sends one or two authorization requests (plain, as request object, pushed) to a server that shows its login page and to a server that knows the user already, logs in through the pages (after "
        "wrong passwords and forged page tokens, in any order) and uses the results at both; non-trivial when a login through the page was completed and compared. "
        "credentials: a case draws users and passwords and presents right and wrong credentials to the login page, Basic and symmetric key methods; non-trivial when one was right and one wrong")

TEMPLATES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pbt", "templates")
VERIFIER = "v" * 50
CHALLENGE = base64.urlsafe_b64encode(hashlib.sha256(VERIFIER.encode()).digest()).decode().rstrip("=")
CLAIMS = [None, {"userinfo": {"email": None, "nickname": {"essential": True}}}, {"id_token": {"nickname": {"essential": True}, "email": {"value": "x y+z"}}},
          {"id_token": {"acr": {"values": ["urn:acr:1", "urn:acr:2"]}, "auth_time": {"essential": True}}, "userinfo": {"phone_number": None}}]
URIS = [None, "", "https://rp.example.com/tos", "https://rp.example.com/p?a=1&b=2", "https://rp.example.com/\"><script>alert(1)</script>", "https://rp.example.com/'x'", "https://rp.example.com/å?q=%22&lt;"]
TEXTS = ["Log in", "Sign <b>in</b>", "\"quoted\" & 'so'", "</h1><script>x</script>", "Logga in åäö", "{{ 7*7 }}"]


def page_cases():
    fx = st.fixed_dictionaries
    req = fx({"c": st.sampled_from([0, 0, 0, 1]), "rt": st.sampled_from(["code", "code", "code", "code id_token", "id_token token", "code id_token token", "token"]),
              "scope": st.lists(st.sampled_from(["email", "profile", "offline_access", "phone", "other"]), max_size=4, unique=True),
              "state": st.one_of(st.sampled_from(["S", "a+b &=%", "é/..?#", "0", "x" * 300, "{\"a\":1}", "a b"]), st.text(st.characters(blacklist_categories=("Cs",)), min_size=1, max_size=8)),
              "nonce": st.sampled_from(["N", "n+ &=%25", "\u00e9", "0"]), "claims": st.sampled_from([0, 0, 1, 2, 3]), "pkce": st.booleans(), "mode": st.sampled_from([None, None, None, "form_post"]),
              "extra": st.dictionaries(st.sampled_from(["ui_locales", "display", "resource", "foo", "login_hint", "acr_values"]),
                                       st.sampled_from(["x", "a b", "https://rs.example.com/?a=1&b=2", "urn:acr:1", "&amp;\"<"]), max_size=3),
              "how": st.sampled_from(["plain", "plain", "object", "par"]), "ri": st.integers(0, 2), "form": st.booleans()})
    return fx({"flavour": st.sampled_from(["oidc", "oidc", "oidc", "oauth2"]), "reqs": st.lists(req, min_size=1, max_size=2), "swap": st.booleans(), "user": st.integers(0, 2),
               "wrong": st.lists(st.sampled_from(["password", "case", "empty", "other", "user", "space", "prefix"]), max_size=2),
               "forge": st.lists(st.sampled_from(["payload", "client key", "none", "secret", "id_token", "other server", "cut"]), max_size=2),
               "uris": st.lists(st.integers(0, len(URIS) - 1), min_size=6, max_size=6), "texts": st.lists(st.integers(0, len(TEXTS) - 1), min_size=4, max_size=4),
               "action": st.sampled_from(["verify/user", "https://op.example.com/verify?x=1&y=2", ""]), "file": st.booleans()})


class Page(html.parser.HTMLParser):
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.tags, self.attrs, self.data = [], [], {}
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        self.tags.append((tag, tuple(k for k, _ in attrs)))
        self.attrs.append((tag, dict(attrs)))
        self.open = len(self.tags) - 1

    handle_startendtag = handle_starttag

    def handle_data(self, data):
        if self.tags:
            self.data[self.open] = self.data.get(self.open, "") + data

    def get(self, tag, **kw):
        return [a for t, a in self.attrs if t == tag and all(a.get(k) == v for k, v in kw.items())]

    def text(self, n):
        return self.data.get(n, "").strip()


NAMES = ["diana", "bob", "Ål & <co>"]
WORDS = {"diana": "krall", "bob": "bu:ild er", "Ål & <co>": "Krall"}


def build(case, page, i=0):
    if page:
        texts = [TEXTS[x] for x in case["texts"]]
        db = {"class": "builtins.dict", "kwargs": dict(WORDS)}
        if case["file"]:
            fn = os.path.join(boot.scratch(), "passwd.json")
            with open(fn, "w") as f:
                json.dump(WORDS, f)
            db = {"class": "oidcop.util.JSONDictDB", "kwargs": {"filename": fn}}
        kw = {"template": "login.jinja2", "db": db, "page_header": texts[0], "user_label": texts[1], "passwd_label": texts[2], "submit_btn": texts[3]}
        if case["action"]:
            kw["verify_endpoint"] = case["action"]
        authn = {"m0": {"acr": "urn:acr:1", "class": "oidcop.user_authn.user.UserPassJinja2", "kwargs": kw}}
    else:
        authn = {"anon": {"acr": "urn:acr:1", "class": "oidcop.user_authn.user.NoAuthn", "kwargs": {"user": NAMES[case["user"]]}}}
    conf = ops.base_conf(flavour=case["flavour"], authn=authn, **({"issuer": "https://other.example.com/"} if i else {}))
    conf["template_dir"] = TEMPLATES
    conf["add_on"] = {"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {"essential": False, "code_challenge_method": "S256"}}}
    clients = []
    for k in range(2):
        kw = {n: URIS[u] for n, u in zip(("logo_uri", "tos_uri", "policy_uri"), case["uris"][3 * k:3 * k + 3]) if URIS[u] is not None}
        clients.append(ops.client_conf(k, _keys=f"client{k}", redirect_uris=[(f"https://rp{k}.example.com/cb", {}), (f"https://rp{k}.example.com/cb", {"a": ["1 &"]}), (f"https://rp{k}.example.com/other", {})], **kw))
    op = ops.OP(conf, clients=clients, flavour=case["flavour"])
    op.ctx.userinfo.db = {n: {"email": f"u{j}@example.com", "nickname": f"nick{j}", "phone_number": f"+46{j}", "name": n} for j, n in enumerate(NAMES)}
    return op, clients


def make_request(op, clients, flavour, r):
    c = clients[r["c"]]
    oidc = flavour == "oidc"
    scope = [s for s in r["scope"] if not (s == "offline_access" and r["how"] == "par")]
    kw = dict(r["extra"])
    if oidc and CLAIMS[r["claims"]]:
        kw["claims"] = json.dumps(CLAIMS[r["claims"]])
    if r["pkce"]:
        kw.update(code_challenge=CHALLENGE, code_challenge_method="S256")
    if r["mode"]:
        kw["response_mode"] = r["mode"]
    if kw.get("display"):
        kw["display"] = "popup"
    rt = r["rt"] if oidc else {"code id_token": "code", "id_token token": "token", "code id_token token": "code token"}.get(r["rt"], r["rt"])
    q = ops.auth_request(c, response_type=rt, scope=(["openid"] if oidc else []) + scope or None, state=r["state"], nonce=r["nonce"], redirect_uri=ops.join_uri(c["redirect_uris"][r["ri"]]), **kw)
    if r["how"] == "object" and oidc:
        d = dict(q)
        if "claims" in d:
            d["claims"] = json.loads(d["claims"])
        d.update(iss=c["client_id"], aud=[ops.ISSUER])
        j = JWS(json.dumps(d), alg="RS256").sign_compact(ops.keyjar(f"client{r['c']}").get_signing_key("RSA", issuer_id=""))
        q = {k: q[k] for k in ("client_id", "response_type", "scope", "redirect_uri", "nonce") if k in q}
        if "offline_access" in scope:
            q["prompt"] = "consent"
        q["request"] = j
    elif r["how"] == "par":
        o = op.call("pushed_authorization", dict(q, client_secret=c["client_secret"]))
        check(o.ok, lambda: f"pushing the request failed: {o!r}")
        q = {k: q[k] for k in ("client_id", "response_type", "scope", "redirect_uri", "nonce") if k in q}
        q["request_uri"] = o.raw["http_response"]["request_uri"]
    if r["form"]:
        from urllib.parse import urlencode
        return urlencode(q)
    return q


MASK = {"code", "access_token", "refresh_token", "session_state", "at_hash", "c_hash", "sid", "jti"}


def canon(d):
    out = {}
    for k, v in d.items():
        if k == "id_token" and isinstance(v, str):
            v = canon(ops.jwt_payload(v))
        out[k] = "*" if k in MASK else (sorted(v) if isinstance(v, list) and all(isinstance(x, str) for x in v) else v)
    return out


def outcome(op, c, args, r, flavour):
    """What the response says, and what it can be used for."""
    ep = op.ep("authorization")
    ra = args.get("response_args")
    if ra is None and isinstance(args.get("response_msg"), str):
        ra = dict(f for f in ops.parse_form(args["response_msg"]).fields if f[0])
    ra = dict(ra.to_dict() if hasattr(ra, "to_dict") else ra or {})
    res = {"args": canon(ra), "session": None}
    h = ep.do_response(request=None, **{k: v for k, v in args.items() if k != "client_id"})["response"]
    if "response_msg" in args:
        f = ops.parse_form(h)
        res["to"] = [f.action, f.method, [n for n, _ in f.fields]]
    else:
        base, q, fr = ops.split_response(h)
        res["to"] = [base, canon(q), {k: (v if k not in MASK and k != "id_token" else "*") for k, v in fr.items()}]
    if "session_id" in args:
        u, cid, _ = op.mngr.decrypt_session_id(args["session_id"])
        g = op.mngr[args["session_id"]]
        res["session"] = [u, cid, sorted(g.scope), g.sub, canon(g.claims), sorted(g.resources), g.authentication_event["authn_info"], g.authentication_event["authn_time"]]
    use = []
    if "code" in ra:
        if r["pkce"]:
            x = ops.exchange(op, c, ra["code"], redirect_uri=ops.join_uri(c["redirect_uris"][r["ri"]]), code_verifier="w" * 50)
            check(not x.ok, lambda: f"another code verifier is accepted: {x!r}")
        x = ops.exchange(op, c, ra["code"], redirect_uri=ops.join_uri(c["redirect_uris"][r["ri"]]), **({"code_verifier": VERIFIER} if r["pkce"] else {}))
        use.append(canon(x.args) if x.ok else x.error)
        if x.ok and "access_token" in x.args:
            ra = dict(ra, access_token=x.args["access_token"])
    if "access_token" in ra:
        if flavour == "oidc":
            x = ops.userinfo(op, ra["access_token"])
            use.append(canon(x.args) if x.ok else x.error)
        x = ops.introspect(op, c, ra["access_token"])
        use.append(canon(x.args) if x.ok else x.error)
    res["use"] = use
    return res


def forged(kind, token, op, case, idt):
    h, p, s = token.split(".")
    d = ops.jwt_payload(token)
    d["authn_class_ref"] = "urn:acr:forged"
    body = json.dumps(d)
    if kind == "payload":
        return h + "." + base64.urlsafe_b64encode(body.encode()).decode().rstrip("=") + "." + s
    if kind == "client key":
        return JWS(json.dumps(dict(d, iss="client_0")), alg="RS256").sign_compact(ops.keyjar("client0").get_signing_key("RSA", issuer_id=""))
    if kind == "none":
        return base64.urlsafe_b64encode(b'{"alg":"none"}').decode().rstrip("=") + "." + base64.urlsafe_b64encode(body.encode()).decode().rstrip("=") + "."
    if kind == "secret":
        from cryptojwt.jwk.hmac import SYMKey
        return JWS(json.dumps(dict(d, iss="client_0")), alg="HS256").sign_compact([SYMKey(key=ops.client_conf(0)["client_secret"])])
    if kind == "other server":
        return JWS(body, alg="RS256").sign_compact(ops.keyjar("attacker").get_signing_key("RSA", issuer_id=""))
    if kind == "cut":
        return token[:-8] if case["swap"] else h + "." + p + "."
    return idt


def run_page(case, rec):
    # the server that knows the user
    flavour = case["flavour"]
    user = NAMES[case["user"]]
    CLOCK.reset()
    boot.reseed(1)
    op, clients = build(case, False)
    direct, idt = [], None
    for r in case["reqs"]:
        out = op.call("authorization", make_request(op, clients, flavour, r), {"headers": {}}, respond=False)
        if not out.ok:
            direct.append(out.error)
            continue
        direct.append(outcome(op, clients[r["c"]], out.raw, r, flavour))
    op, clients = build(case, True)
    meth = op.ctx.authn_broker["m0"]["method"]
    ep = op.ep("authorization")
    cls = OIDCRequest if flavour == "oidc" else OAuth2Request
    pages = []
    for i, r in enumerate(case["reqs"]):
        out = op.call("authorization", make_request(op, clients, flavour, r), {"headers": {}}, respond=False)
        if not out.ok:
            check(direct[i] == out.error, lambda: f"request {r} is answered {direct[i]} when the user is known, {out!r} when not")
            continue
        check(isinstance(direct[i], dict), lambda: f"request {r} is answered {direct[i]} when the user is known, with {str(out.raw)[:200]} when not")
        h = out.raw.get("http_response")
        check(isinstance(h, str), lambda: f"no login page but {str(out.raw)[:300]}")
        check(not any(k in NAMES for k in list(op.mngr.db.db)), "a session exists before the login")
        pg = Page(h)
        # nothing but the form of the template
        want = [("html", ("lang",)), ("head", ()), ("title", ()), ("body", ()), ("h1", ()), ("form", ("action", "method")), ("input", ("type", "name", "value")), ("label", ("for",)), ("input", ("type", "name")),
                ("label", ("for",)), ("input", ("type", "name")), ("img", ("src", "alt")), ("a", ("class", "href")), ("a", ("class", "href")), ("input", ("type", "value"))]
        check(pg.tags == want, lambda: f"the login page has elements {pg.tags}")
        ci = clients[r["c"]]
        texts = [TEXTS[x] for x in case["texts"]]
        check([pg.text(4), pg.text(7), pg.text(9), pg.get("input", type="submit")[0]["value"]] == texts, lambda: f"texts of the login page: {pg.data}, should be {texts}")
        check(pg.get("img")[0]["src"] == (ci.get("logo_uri") or ""), lambda: f"logo {pg.get('img')}, the client has {ci.get('logo_uri')!r}")
        check(pg.get("a", **{"class": "tos"})[0]["href"] == (ci.get("tos_uri") or ""), lambda: f"terms {pg.get('a')}, the client has {ci.get('tos_uri')!r}")
        check(pg.get("a", **{"class": "policy"})[0]["href"] == (ci.get("policy_uri") or ""), lambda: f"policy {pg.get('a')}, the client has {ci.get('policy_uri')!r}")
        check(pg.get("form")[0]["action"] == (case["action"] or "/verify/user_pass_jinja"), lambda: f"the form goes to {pg.get('form')}")
        pages.append((i, r, pg.get("input", name="token")[0]["value"]))
    if case["swap"]:
        pages.reverse()
    for i, r, token in pages:
        for k in case["wrong"]:
            w = WORDS[user]
            u, w = {"password": (user, w + "x"), "case": (user, w.swapcase()), "empty": (user, ""), "other": (user, WORDS[NAMES[(case["user"] + 1) % 3]]), "user": (user + "x", w), "space": (user, w + " "),
                    "prefix": (user, w[:-1])}[k]
            try:
                who = meth.verify(username=u, password=w, token=token)
            except Exception:  # noqa: B902
                continue
            check(not who, lambda: f"{u!r} logs in with password {w!r}, it is {WORDS.get(u)!r}")
        check(meth.verify(username=user, password=WORDS[user], token=token) == user, "the right password does not log in")
        info = meth.unpack_token(token)
        check(info.get("authn_class_ref") == "urn:acr:1", lambda: f"the page is for class {info.get('authn_class_ref')}")
        areq = cls().from_urlencoded(info["query"])
        sid = ep.create_session(areq, user, info["authn_class_ref"], info["iat"], meth)
        args = ep.authz_part2(request=areq, session_id=sid)
        check(isinstance(args, dict), lambda: f"authorization after the login: {args}")
        got = outcome(op, clients[r["c"]], args, r, flavour)
        check(got == direct[i], lambda: f"request {r}: a user who is known gets {direct[i]}, one who logs in gets {got}")
        idt = idt or (args.get("response_args") or {}).get("id_token")
        for k in case["forge"]:
            t = forged(k, token, op, case, idt)
            if t is None:
                continue
            try:
                info = meth.unpack_token(t)
                info["query"]
            except Exception:  # noqa: B902
                continue
            check(False, f"a page token that is forged ({k}) is accepted")
        rec.nontrivial()
        rec.label(f"{r['how']} {r['rt']}")
    for w in case["wrong"]:
        rec.label("wrong " + w)


# ---------------------------------------------------------------------------------- credentials
def cred_cases():
    fx = st.fixed_dictionaries
    name = st.one_of(st.sampled_from(["alice", "bob", "Alice", "al", "é", "a b", "a@b.example", "x+y", "0", "a;;b", "client_0"]), st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="%:"), min_size=1, max_size=5))
    word = st.one_of(st.sampled_from(["secret", "Secret", "se:cret", ":", "s e", "pä", "secret ", "%41", "a" * 80, "12345"]), st.text(st.characters(blacklist_categories=("Cs",)), min_size=1, max_size=5))
    att = fx({"u": st.sampled_from([0, 0, 1, 2, "none"]), "p": st.sampled_from(["own", "own", "own", "other", "empty", "longer", "shorter", "case", "reversed", "newline"]),
              "form": st.sampled_from(["normal", "normal", "normal", "bare", "no colon", "not base64", "empty", "lower"]), "flip": st.integers(0, 60), "cookie": st.sampled_from(["-", "-", 0, 1, 2])})
    return fx({"kind": st.sampled_from(["page", "basic", "basic", "symkey", "symkey"]), "names": st.lists(name, min_size=3, max_size=3, unique=True), "words": st.lists(word, min_size=3, max_size=3),
               "keys": st.sampled_from([16, 24, 32]), "nonce": st.sampled_from([8, 12, 12, 16]), "atts": hist.sized_lists(att, 3, 12)})


def run_cred(case, rec):
    names, words = case["names"], case["words"]
    db = dict(zip(names, words))
    kind = case["kind"]
    key = bytes(range(48, 48 + case["keys"]))
    kw = {"page": {"template": "login.jinja2", "db": {"class": "builtins.dict", "kwargs": dict(db)}}, "basic": {"pwd": dict(db)}, "symkey": {"ttl": 10, "symkey": key.decode()}}[kind]
    cls = {"page": "UserPassJinja2", "basic": "BasicAuthn", "symkey": "SymKeyAuthn"}[kind]
    conf = ops.base_conf(authn={"m0": {"acr": "urn:acr:1", "class": "oidcop.user_authn.user." + cls, "kwargs": kw}})
    conf["template_dir"] = TEMPLATES
    clients = [ops.client_conf(0)]
    op = ops.OP(conf, clients=clients)
    op.ctx.userinfo.db = {n: {} for n in names}
    meth = op.ctx.authn_broker["m0"]["method"]
    cookies = {}
    good = bad = 0
    for n, a in enumerate(case["atts"]):
        u = "nobody-at-all" if a["u"] == "none" else names[a["u"]]
        own = db.get(u, "secret")
        w = {"own": own, "other": words[(a["u"] + 1) % 3] if a["u"] != "none" else words[0], "empty": "", "longer": own + "x", "shorter": own[:-1], "case": own.swapcase(), "reversed": own[::-1], "newline": own + "\n"}[a["p"]]
        right = db.get(u) == w
        if kind == "page":
            try:
                who = meth.verify(username=u, password=w, token="")
            except Exception:  # noqa: B902
                who = None
            check(who == (u if right else None) or (not right and not who), lambda: f"{u!r} with password {w!r} is {who!r}; the passwords are {db}")
            good, bad = good + right, bad + (not right)
            continue
        if kind == "basic":
            raw = f"{u}:{w}".encode() if a["form"] != "no colon" else f"{u}".encode()
            h = base64.b64encode(raw).decode()
            h = {"normal": "Basic " + h, "bare": h, "not base64": "Basic " + h[:-1] + "\u00e9", "empty": "Basic ", "lower": "Basic " + h.lower()}.get(a["form"], "Basic " + h)
            if a["form"] in ("no colon", "not base64", "empty", "lower"):
                right = False
                try:
                    got = base64.b64decode(h[6:]).decode().partition(":")
                    right = db.get(got[0]) == got[2] and got[1] == ":"
                    u = got[0]
                except Exception:  # noqa: B902
                    pass
        else:
            import random
            rnd = random.Random(a["flip"] * 1000 + n)
            iv = bytes(rnd.randrange(256) for _ in range(case["nonce"]))
            k = key if a["p"] in ("own", "longer", "shorter") else key[::-1]
            right = a["u"] != "none" and k == key
            u = names[a["u"]] if a["u"] != "none" else "x"
            enc = AESGCM(k).encrypt(iv, u.encode(), None)
            if a["form"] in ("no colon", "empty", "not base64"):
                right = False
            if a["form"] == "lower" or a["u"] == "none":
                i = a["flip"] % len(enc)
                enc = enc[:i] + bytes([enc[i] ^ 1]) + enc[i + 1:]
                right = False
            raw = enc + (b"" if a["form"] == "no colon" else b":") + iv
            h = "" if a["form"] == "empty" else base64.b64encode(raw).decode()
            if a["form"] == "not base64":
                h = h[:-3] + "\u00e9"
        info = {"headers": {}}
        if a["cookie"] != "-" and names[a["cookie"]] in cookies:
            info["cookie"] = cookies[names[a["cookie"]]]
        before = len(op.mngr.db.db)
        out = op.call("authorization", ops.auth_request(clients[0], state=f"s{n}", nonce=f"n{n}"), info, authn=h)
        sid = out.raw.get("session_id") if out.ok and isinstance(out.raw, dict) else None
        if right:
            good += 1
            check(sid is not None, lambda: f"{kind}: {u!r} with the right credential {h[:40]!r} ({raw!r}) is not logged in: {out!r}")
            who = op.mngr.decrypt_session_id(sid)[0]
            check(who == u or ("cookie" in info and who == names[a["cookie"]]), lambda: f"{kind}: the credential of {u!r} logs in {who!r}")
            x = ops.exchange(op, clients[0], out.args["code"])
            check(x.ok, lambda: f"the code cannot be exchanged: {x!r}")
            if "cookie" not in info:
                cookies[u] = ops.find_cookies(out, "oidc_op")
        else:
            bad += 1
            check(sid is None and not (out.ok and out.args), lambda: f"{kind}: credential {h!r} ({raw!r}) is accepted; users {db}: {out!r}")
            check(len(op.mngr.db.db) == before, lambda: f"{kind}: a refused credential left a session")
    rec.nontrivial(good and bad)
    rec.label(kind)


SUBS = [Sub("page", page_cases, run_page, quick=350), Sub("credentials", cred_cases, run_cred, quick=350)]
