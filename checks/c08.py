"""C08: users are only ever redirected to registered URIs."""
from urllib.parse import parse_qsl, quote, unquote, urlencode, urlsplit

from hypothesis import strategies as st

from pbt import hist, ops
from oidcop.exception import NoSuchAuthentication
from pbt.runner import Sub, check

RULE = ("a case registers up to three redirect and post-logout URIs for each of two clients (statically or through the "
        "registration endpoint) and presents registered URIs, other clients' URIs and string-level near misses at the "
        "authorization, pushed authorization and logout endpoints and inside request objects; non-trivial when a URI that "
        "differs from all registered ones was presented, or a registered one with a query, an escape or a twin base")

HOSTS = ["https://rp%d.example.com", "https://rp%d.example.com:8443", "http://localhost:80%d0", "https://a.b.rp%d.example.com"]
PATHS = ["/cb", "/", "", "/a/b/cb", "/cb/", "/c%20b", "/c%2Fb", "/cb;v=1", "/caf%C3%A9", "/~x/cb-1"]
QUERIES = [[], [], [], [("a", "1")], [("a", "1"), ("b", "2")], [("a", "1"), ("a", "2")], [("u", "x&y=z")], [("p", "50%")],
           [("a", "")], [("b", "2")], [("x y", "å+b")]]
MUTS = ["append", "prefix-host", "suffix-host", "userinfo", "port", "path-case", "slash", "dots", "dslash", "encode", "decode",
        "add-param", "drop-param", "val", "val-ext", "key-case", "fragment", "fragment0", "enc-fragment", "tab", "newline", "lead-space",
        "trail-space", "backslash", "nul", "semicolon", "blank-param", "enc-query", "scheme", "trunc", "double-enc", "enc-q", "repeat", "repeat"]


def uri_spec():
    return st.fixed_dictionaries({"h": st.integers(0, len(HOSTS) - 1), "p": st.integers(0, len(PATHS) - 1),
                                  "q": st.integers(0, len(QUERIES) - 1)})


def specs():
    def twin(l, t):
        return l + [dict(l[0], q=t)] if t is not None else l
    return st.builds(twin, st.lists(uri_spec(), min_size=1, max_size=2),
                     st.one_of(st.none(), st.integers(0, len(QUERIES) - 1)))


def cases():
    pres = st.fixed_dictionaries({
        "op": st.sampled_from(["auth", "auth", "auth", "par", "object", "logout", "logout", "logout-hint", "none-prompt"]),
        "c": st.integers(0, 1), "of": st.integers(0, 1), "i": st.integers(0, 2),
        "mut": st.one_of(st.just(None), st.sampled_from(MUTS), st.sampled_from(MUTS)), "n": st.integers(0, 5),
        "kind": st.sampled_from(["own", "own", "own", "own", "other-type", "absent"]),
        "rt": st.sampled_from(["code", "code", "id_token", "code token"]), "rm": st.sampled_from([None, None, "form_post"]),
        "state": st.sampled_from(["s1", "a&b=c", "åäö", "x?y#z"])})
    return st.fixed_dictionaries({
        "flavour": st.sampled_from(["oidc", "oidc", "oauth2"]),
        "how": st.lists(st.sampled_from(["static", "static", "string", "registered"]), min_size=2, max_size=2),
        "reg": st.lists(specs(), min_size=2, max_size=2),
        "plu": st.lists(uri_spec(), min_size=2, max_size=2),
        "plform": st.sampled_from(["single", "list", "strings"]),
        "ops": hist.sized_lists(pres, 1, 6)})


def build(s, i):
    base = HOSTS[s["h"]] % i + PATHS[s["p"]]
    q = urlencode(QUERIES[s["q"]])
    return base + ("?" + q if q else "")


def parts(u):
    base, _, q = u.partition("?")
    return base, sorted(parse_qsl(q, keep_blank_values=True))


def as_tuple(u):
    base, _, q = u.partition("?")
    d = {}
    for k, v in parse_qsl(q, keep_blank_values=True):
        d.setdefault(k, []).append(v)
    return (base, d)


def mutate(u, m, n):
    base, _, q = u.partition("?")
    scheme, _, rest = base.partition("://")
    host, sl, path = rest.partition("/")
    path = sl + path
    qq = "?" + q if q else ""
    pos = [0, len(u) // 3, len(u) // 2, len(u) - 1, len(u) - 2, len(u)][n]
    if m == "append":
        return base + ["x", ".evil.example", "/evil", "%00", "..", "@evil.example"][n] + qq
    if m == "prefix-host":
        return f"{scheme}://evil{host}{path}{qq}"
    if m == "suffix-host":
        return f"{scheme}://{host}.evil.example{path}{qq}"
    if m == "userinfo":
        return [f"{scheme}://{host}@evil.example{path}{qq}", f"{scheme}://user@{host}{path}{qq}"][n % 2]
    if m == "port":
        return f"{scheme}://{host.split(':')[0]}:9999{path}{qq}"
    if m == "path-case":
        return f"{scheme}://{host}{path.swapcase()}x{qq}" if path.swapcase() == path else \
            f"{scheme}://{host}{path.swapcase()}{qq}"
    if m == "slash":
        return (base[:-1] if path.endswith("/") else base + "/") + qq
    if m == "dots":
        return f"{scheme}://{host}/x/..{path or '/'}{qq}"
    if m == "dslash":
        return f"{scheme}://{host}/{path}{qq}" if path else f"{scheme}:///{host}{qq}"
    if m == "encode":
        k = len(scheme) + 3 + (n % max(1, len(rest)))
        return u[:k] + "%%%02X" % ord(u[k]) + u[k + 1:] if k < len(base) and ord(u[k]) < 128 else base + "%2E" + qq
    if m == "decode":
        return unquote(base) + qq
    if m == "add-param":
        return u + ("&" if q else "?") + "evil=1"
    if m == "drop-param":
        return base + ("?" + "&".join(q.split("&")[1:]) if "&" in q else "")
    if m == "val":
        return base + "?" + q + "1" if q else base + "?a=1"
    if m == "val-ext":
        return u + ("&" if q else "?") + "a=9"
    if m == "key-case":
        return base + ("?" + q[0].swapcase() + q[1:] if q else "?A=1")
    if m == "fragment":
        return u + "#frag"
    if m == "fragment0":
        return u + "#"
    if m == "enc-fragment":
        return u + "%23" + ["", "x"][n % 2]
    if m in ("tab", "newline", "nul"):
        ch = {"tab": "\t", "newline": ["\n", "\r\n"][n % 2], "nul": "\0"}[m]
        return u[:pos] + ch + u[pos:]
    if m == "lead-space":
        return [" ", "\u00a0", "\x01"][n % 3] + u
    if m == "trail-space":
        return u + [" ", "\n", "\t", "\x00"][n % 4]
    if m == "backslash":
        return f"{scheme}://{host}\\{path[1:]}{qq}" if path else f"{scheme}:\\\\{host}{qq}"
    if m == "semicolon":
        return base + ";x" + qq
    if m == "blank-param":
        return u + ("&" if q else "?") + ["zz=", "zz", "a="][n % 3]
    if m == "enc-query":
        return base + "%3F" + q
    if m == "scheme":
        return ("http" if scheme == "https" else "https") + "://" + rest + qq
    if m == "trunc":
        return base[:-1 - n % 2] + qq
    if m == "repeat":
        return u + "&" + q.split("&")[n % len(q.split("&"))] if q else u + "?a=1&a=1"
    if m == "double-enc":
        return u.replace("%", "%25") if "%" in u else quote(u, safe=":/?&=")[:-1]
    if m == "enc-q":
        return base + ("?" + q.replace("=", "%3D").replace("&", "%26") if q else "%3F")
    raise AssertionError(m)


def is_registered(u, regs):
    """True: exactly a registered one; False: none; None: same thing written differently (left open)"""
    if u in regs:
        return True
    if "#" in u:
        return False
    scheme = u.partition(":")[0]
    for r in regs:
        if u.lower() == r.lower() and u[len(scheme):] == r[len(scheme):]:
            return None
        if parts(u) == parts(r):
            return None
    return False


def where(outcome):
    """Every place the answer would send the user to."""
    res = []
    for d in (outcome.raw, outcome.args):
        if d is None:
            continue
        for k in ("return_uri", "redirect_location", "redirect_uri"):
            try:
                v = d.get(k)
            except AttributeError:
                v = None
            if v:
                res.append(v)
    h = outcome.http
    if h and isinstance(h.get("response"), str):
        t = h["response"]
        if "<form" in t:
            res.append(ops.parse_form(t).action)
        elif "://" in t.split("?")[0]:
            res.append(t)
    return res


def run(case, rec):
    oidc = case["flavour"] == "oidc"
    op = ops.OP(conf=ops.base_conf(flavour=case["flavour"]), flavour=case["flavour"])
    clients, regs, plus = [], [], []
    for i in range(2):
        us = []
        for s in case["reg"][i]:
            u = build(s, i)
            # two registered URIs that are the same thing would make the oracle ambiguous
            if all(parts(u) != parts(x) for x in us):
                us.append(u)
        pl = build(case["plu"][i], i).replace("://", "://out.")
        how = case["how"][i] if oidc or case["how"][i] != "registered" else "static"
        if how == "registered":
            us = [u.replace("http://localhost", "https://local") for u in us]
            pl = pl.replace("http://", "https://")
            out = op.call("registration", {"redirect_uris": us, "post_logout_redirect_uri": pl,
                                           "application_type": "web", "response_types": ops.ALL_RESPONSE_TYPES[:-1],
                                           "grant_types": ["authorization_code", "implicit", "refresh_token"],
                                           "token_endpoint_auth_method": "client_secret_post"}, respond=False)
            check(out.ok, lambda: f"registration refused: {out!r} {us}")
            c = op.ctx.cdb[out.args["client_id"]]
            check(list(out.args["redirect_uris"]) == us or
                  [parts(x) for x in out.args["redirect_uris"]] == [parts(x) for x in us],
                  lambda: f"registration answers other redirect URIs: {out.args['redirect_uris']} for {us}")
            clients.append(dict(client_id=out.args["client_id"], client_secret=out.args["client_secret"], redirect_uris=us))
            c["allowed_scopes"] = ["openid"]
        else:
            items = [as_tuple(u) if how == "static" else u for u in us]
            kw = {"redirect_uris": items}
            if case["plform"] == "single":
                kw["post_logout_redirect_uri"] = as_tuple(pl)
            elif case["plform"] == "list":
                kw["post_logout_redirect_uris"] = [as_tuple(pl)]
            else:
                kw["post_logout_redirect_uris"] = [pl]
            c = ops.client_conf(i, _keys=f"client{i}", **kw)
            op.add_client(c)
            clients.append(dict(c, redirect_uris=us))
        regs.append(us)
        plus.append([pl])
    logins = {}
    for o in case["ops"]:
        ci = o["c"]
        client = clients[ci]
        logout = o["op"].startswith("logout")
        if logout and not oidc:
            continue
        src = plus if logout else regs
        mine = src[ci]
        other = regs if logout else plus
        owner = (ci + o["of"]) % 2
        pool = other[owner] if o["kind"] == "other-type" else src[owner]
        u = pool[o["i"] % len(pool)]
        if o["mut"]:
            u = mutate(u, o["mut"], o["n"])
        verdict = is_registered(u, mine)
        if o["kind"] == "absent":
            u = None
        if not logout:
            rt = o["rt"] if oidc or "id_token" not in o["rt"] else "code"
            req = ops.auth_request(client, response_type=rt, redirect_uri="x", state=o["state"],
                                   response_mode=o["rm"])
            req.pop("redirect_uri")
            if u is not None:
                req["redirect_uri"] = u
            elif oidc:
                pass
            ops.set_user(op, "diana")
            if o["op"] == "none-prompt":
                if not oidc:
                    continue
                req["prompt"] = "none"
                op.ctx.authn_broker.db["anon"]["method"].fail = NoSuchAuthentication
            if o["op"] == "par":
                p = op.call("pushed_authorization", dict(req, client_secret=client["client_secret"]))
                if p.ok:
                    q = {"client_id": client["client_id"], "response_type": rt, "scope": "openid", "nonce": "n",
                         "redirect_uri": mine[0], "request_uri": p.raw["http_response"]["request_uri"]}
                    out = op.call("authorization", q)
                else:
                    out = p
            elif o["op"] == "object":
                kj = ops.keyjar(f"client{ci}", "") if case["how"][ci] != "registered" else None
                if kj is None or u is None:
                    continue
                from cryptojwt.jwt import JWT
                kj.import_jwks(ops.raw_jwks(f"client{ci}"), client["client_id"])
                pay = dict(req, iss=client["client_id"], aud=op.ctx.issuer)
                j = JWT(key_jar=kj, iss=client["client_id"], sign_alg="RS256", lifetime=300)
                jwt = j.pack(payload=pay)
                out = op.call("authorization", dict(req, redirect_uri=mine[0], request=jwt))
            else:
                out = op.call("authorization", req)
            op.ctx.authn_broker.db["anon"]["method"].fail = None
            where_to = where(out)
            if u is None:
                if out.ok or where_to:
                    check(len(mine) == 1, f"a request without redirect_uri was sent to {where_to}")
                    tgt = where_to[0]
                    check(any(parts(w)[0] == parts(mine[0])[0] for w in where_to), f"sent to {tgt}, registered {mine}")
                    # exactly the registered one
                    rec.label("absent-one")
                rec.label("absent")
                continue
            if verdict is False:
                rec.nontrivial()
                rec.label("refused:" + (o["mut"] or o["kind"]))
                if o["op"] == "object" and not oidc:
                    # plain OAuth2 ignores the parameter
                    check(all(w.startswith(mine[0]) for w in where_to), lambda: f"user is sent to {where_to}")
                    continue
                check(not out.ok, lambda: f"{o['op']}: {u!r} accepted, registered are {mine}")
                for w in where_to:
                    # with a request object the URI outside it may serve for the error
                    if o["op"] in ("object", "par") and is_registered(w.partition("#")[0], mine):
                        continue
                    check(False, lambda: f"{o['op']}: refused, yet the user is sent to {w!r}, registered {mine}")
                bad = [k for k in ("code", "access_token", "id_token") if out.args is not None and k in out.args]
                check(not bad, f"credentials {bad} in a refusal")
            elif verdict is True:
                twin = len({parts(x)[0] for x in mine}) < len(mine)
                if "?" in u or "%" in u or twin:
                    rec.nontrivial()
                rec.label("registered")
                if o["op"] == "object" and not oidc:
                    continue
                if o["op"] == "none-prompt":
                    check(not out.ok and out.error == "login_required", lambda: f"prompt=none: {out!r}")
                    check(all(w == u or w.startswith(u) for w in where_to), lambda: f"error goes to {where_to}")
                    continue
                check(out.ok, lambda: f"{o['op']}: registered URI {u!r} refused: {out!r}")
                check(where_to, "nowhere to go")
                for w in where_to:
                    check(w == u or w.startswith(u + ("&" if "?" in u else "?")) or w.startswith(u + "#"),
                          lambda: f"the user is sent to {w!r} instead of {u!r}")
                logins[ci] = out
            else:
                rec.label("open")
            continue
        # ------------------------------------------------------------- logout
        out = logins.get(ci)
        if out is None or "id_token" not in (out.args or {}):
            out = ops.authorize(op, client, user="diana", response_type="id_token", redirect_uri=regs[ci][0],
                                respond=False)
            check(out.ok, lambda: f"login refused: {out!r}")
            logins[ci] = out
        cookies = ops.find_cookies(out, "oidc_op")
        req = {"state": o["state"]}
        hint = o["op"] == "logout-hint" or u is not None
        if hint:
            req["id_token_hint"] = out.args["id_token"]
        if u is not None:
            req["post_logout_redirect_uri"] = u
        res = op.call("session", req, {"headers": {}, "cookie": cookies})
        if u is None:
            check(res.ok, lambda: f"logout without redirect URI refused {res!r}")
            verdict, expect = True, None
        if verdict is False:
            rec.nontrivial()
            rec.label("logout-refused:" + (o["mut"] or o["kind"]))
            check(not res.ok and not where(res), lambda: f"logout towards {u!r} prepared, registered {mine}")
        elif verdict is True:
            check(res.ok, lambda: f"logout towards registered {u!r} refused: {res!r}")
            loc = res.raw["redirect_location"]
            check(loc.startswith(op.ctx.issuer.rstrip("/") + "/verify_logout?sjwt="), lambda: f"logout sent to {loc}")
            sjwt = dict(parse_qsl(urlsplit(loc).query))["sjwt"]
            tgt = ops.jwt_payload(sjwt)["redirect_uri"]
            if u is None:
                want = op.ctx.issuer.rstrip("/") + "/post_logout"
            else:
                want = u + ("&" if "?" in u else "?") + urlencode({"state": o["state"]})
            check(tgt == want or (parts(tgt) == parts(want) and "#" not in tgt), f"logout leads to {tgt!r}, want {want!r}")
            rec.label("logout-ok")
            if u is not None and "?" in u:
                rec.nontrivial()
        else:
            rec.label("logout-open")


SUBS = [Sub("uris", cases, run, quick=2000, ids=True)]
