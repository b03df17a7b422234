"""Histories of flows against a server, with a reference model of grants and tokens.

A history is a list of JSON operations; every reference to an earlier entity is an index taken
modulo the number of entities that exist, so that any sub-list of a history is again a history.

A disagreement between server and model is a Mismatch with tags (property ids).  A check only
reports mismatches that carry its own tag; another one ends the case.
"""
from hypothesis import strategies as st

from . import ops
from .boot import CLOCK
from .runner import Violation

SCOPES = ["openid", "profile", "email", "address", "phone", "offline_access"]
USERS = ["diana", "babs", "upper"]


class Mismatch(Exception):
    def __init__(self, tags, msg, sig=None):
        super().__init__(msg)
        self.tags, self.sig = tags, sig


# what ops.base_conf gives the token handlers; used where the rules say nothing
HANDLER_LIFETIMES = {"authorization_code": 600, "access_token": 3600, "refresh_token": 86400}


class Tok:
    __slots__ = ("kind", "value", "parent", "grant", "scope", "exp", "revoked", "used", "once", "mints",
                 "fuzzy", "idx", "issued")

    def __init__(self, kind, value, grant, parent=None, scope=None, exp=None, mints=(), once=False):
        self.kind, self.value, self.grant, self.parent = kind, value, grant, parent
        self.scope, self.exp, self.mints = list(scope or []), exp, list(mints)
        self.revoked = False
        self.used = 0
        self.once = once
        self.fuzzy = False  # liveness left open by the property
        self.issued = CLOCK.now

    def expired(self):
        return bool(self.exp) and CLOCK.now > self.exp

    def live(self):
        return not (self.revoked or self.expired() or (self.once and self.used))


class Gr:
    def __init__(self, user, ci, sid, scope, redirect_uri, exp, rules, auth_until):
        self.user, self.ci, self.sid, self.scope = user, ci, sid, list(scope)
        self.redirect_uri, self.exp, self.rules, self.auth_until = redirect_uri, exp, rules, auth_until
        self.revoked = False
        self.removed = False
        self.tokens = []
        self.at = CLOCK.now

    def expired(self):
        return bool(self.exp) and CLOCK.now > self.exp

    def active(self):
        return not (self.revoked or self.expired() or self.removed)


def merged_rules(server, client):
    """A client's own rules override the server's, per token kind."""
    out = {k: dict(v) for k, v in server.items()}
    for k, v in (client or {}).items():
        if v == {}:
            out[k] = {}
        else:
            out.setdefault(k, {}).update(v)
    return out


class World:
    """conf: {flavour, fmt, rules?, crules?: {i: rules}, nclients, grant_exp, revoke_on_issue: [..]}"""

    def __init__(self, conf, pid, rec):
        self.conf, self.pid, self.rec = conf, pid, rec
        self.flavour = conf.get("flavour", "oidc")
        self.rules = conf.get("rules") or ops.USAGE_RULES
        if conf.get("code_max"):
            # whatever the rules say about them, codes are for one use
            self.rules = dict(self.rules, authorization_code=dict(self.rules["authorization_code"], max_usage=conf["code_max"]))
        self.clients = []
        for i in range(conf.get("nclients", 2)):
            kw = {}
            cr = (conf.get("crules") or {}).get(str(i))
            if cr is not None:
                kw["token_usage_rules"] = cr
            roi = (conf.get("roi") or {}).get(str(i))
            if roi is not None:
                kw["revoke_refresh_on_issue"] = roi
            c = ops.client_conf(i, **kw)
            c["redirect_uris"].append((f"https://rp{i}.example.com/cb2", {}))
            self.clients.append(c)
        self.op = self.make_op()
        self.grants, self.toks = [], []
        self.held = []
        self.seen_values = set()

    def make_op(self):
        op = ops.OP(flavour=self.flavour, token_format=self.conf.get("fmt", "jwt"), clients=self.clients,
                    usage_rules=self.rules, grant_expires_in=self.conf.get("grant_exp", 43200))
        if self.conf.get("ep_roi"):
            op.ep("token").revoke_refresh_on_issue = True
        return op

    # -------------------------------------------------------------- reporting
    def mismatch(self, tags, msg, sig=None):
        raise Mismatch(tags, msg, sig)

    def expect(self, cond, tags, msg, sig=None):
        if not cond:
            self.mismatch(tags, msg() if callable(msg) else msg, sig)

    # ----------------------------------------------------------------- helpers
    def rules_of(self, ci):
        return merged_rules(self.rules, self.clients[ci].get("token_usage_rules"))

    def new_tok(self, kind, value, grant, parent, scope, mints=None, once=False, exp_in=None):
        rules = grant.rules.get(kind, {})
        if exp_in is None:
            exp_in = rules.get("expires_in", HANDLER_LIFETIMES.get(kind))
        if exp_in is not None:
            exp_in = int(exp_in)
        t = Tok(kind, value, grant, parent, scope, CLOCK.now + exp_in if exp_in else None,
                rules.get("supports_minting", []) if mints is None else mints, once)
        self.expect(value not in self.seen_values, {"C25"}, f"a {kind} value was issued twice")
        self.seen_values.add(value)
        t.idx = len(self.toks)
        self.toks.append(t)
        grant.tokens.append(t)
        return t

    def pick(self, kinds, idx):
        l = [t for t in self.toks if t.kind in kinds]
        return l[idx % len(l)] if l else None

    def descendants(self, tok):
        out, todo = [], [tok]
        while todo:
            p = todo.pop()
            for t in tok.grant.tokens:
                if t.parent is p:
                    out.append(t)
                    todo.append(t)
        return out

    # -------------------------------------------------------------- operations
    def run(self, oplist):
        """Executes; raises Violation for a mismatch tagged with our property."""
        try:
            for o in oplist:
                getattr(self, "op_" + o["op"])(o)
            self.probe_all()
        except Mismatch as m:
            if self.pid in m.tags:
                raise Violation(str(m), m.sig)
            self.rec.label("other-property-mismatch")

    def op_advance(self, o):
        CLOCK.advance(o["s"])
        self.rec.label("advance")

    def op_edge(self, o):
        """Moves the clock close to a moment when something ends, and tries what depends on it."""
        moments = [m for t in self.toks for m in [t.exp] if m] + [g.exp for g in self.grants if g.exp] + [g.auth_until for g in self.grants]
        moments = sorted({m for m in moments if m + o["d"] > CLOCK.now})
        if not moments:
            return
        CLOCK.advance(moments[min(o["n"], len(moments) - 1)] + o["d"] - CLOCK.now)
        self.rec.label("edge")
        if o["do"] == "refresh":
            self.op_refresh({"t": o["t"], "rt": True, "scope": None, "sub": False})
        elif o["do"] == "code":
            self.op_code({"g": o["t"], "rt": True})
        else:
            self.probe_all()

    def op_auth(self, o):
        ci = o["c"] % len(self.clients)
        client = self.clients[ci]
        user = USERS[o["u"] % len(USERS)]
        rt = o.get("rt", "code")
        if self.flavour == "oauth2" and rt not in ("code", "token", "code token"):
            rt = "code"
        scope = [s for s in SCOPES if s in o["scope"]]
        if self.flavour == "oidc" and "openid" not in scope:
            scope = ["openid"] + scope
        ri = o.get("ri", 0) % len(client["redirect_uris"])
        redirect = ops.join_uri(client["redirect_uris"][ri])
        n = len(self.grants)
        out = ops.authorize(self.op, client, user=user, response_type=rt, scope=scope, state=f"s{n}", nonce=f"n{n}",
                            redirect_uri=redirect, respond=False)
        self.expect(out.ok, {"C09", "C04", "C01", "C06"}, lambda: f"a plain authorization request was refused: {out!r}")
        a = out.args
        g = Gr(user, ci, out.raw.get("session_id"), scope, redirect,
               CLOCK.now + self.conf.get("grant_exp", 43200) if self.conf.get("grant_exp", 43200) else None,
               self.rules_of(ci), CLOCK.now + 3600)
        self.grants.append(g)
        want = set(rt.split())
        got = {k for k, v in (("code", "code"), ("token", "access_token"), ("id_token", "id_token")) if v in a}
        self.expect(want == got, {"C09"}, f"{rt}: response carries {sorted(got)}")
        rs = a.get("scope") or []
        for s in " ".join([rs] if isinstance(rs, str) else rs).split():
            self.expect(s in scope, {"C06"}, f"response scope {s} was not requested")
        if "code" in a:
            cr = g.rules.get("authorization_code", {})
            self.new_tok("authorization_code", a["code"], g, None, scope, once=True,
                         mints=cr.get("supports_minting", ["access_token", "refresh_token", "id_token"]))
        if "access_token" in a:
            t = self.new_tok("access_token", a["access_token"], g, None, scope)
            self.announced(a, t)
        self.rec.label("auth:" + rt)

    def announced(self, args, tok):
        want = (tok.exp - CLOCK.now) if tok.exp else None
        got = args.get("expires_in")
        self.expect(got == want, {"C18"}, f"announced expires_in {got}, rules give {want}")

    def token_request_for(self, o, code):
        g = code.grant
        ci = g.ci if not o.get("wc") else (g.ci + 1 + o["wc"] % max(1, len(self.clients) - 1)) % len(self.clients)
        client = self.clients[ci]
        redirect = g.redirect_uri
        if o.get("wr"):
            variants = [ops.join_uri(x) for x in self.clients[g.ci]["redirect_uris"]] + [
                redirect + "/", redirect + "?a=1", redirect.upper(), redirect.replace("https", "http")]
            variants = [v for v in variants if v != redirect]
            redirect = variants[o["wr"] % len(variants)]
        req = ops.code_request(client, code.value, redirect_uri=redirect)
        ok_binding = ci == g.ci and redirect == g.redirect_uri
        return client, req, ok_binding

    def op_code(self, o):
        code = self.pick(["authorization_code"], o["g"])
        if code is None:
            return
        client, req, bound = self.token_request_for(o, code)
        out = self.op.call("token", req, issue_refresh=True) if o.get("rt") else self.op.call("token", req)
        self.judge_code(code, bound, out, bool(o.get("rt")), parsed=None)

    def op_hold(self, o):
        code = self.pick(["authorization_code"], o["g"])
        if code is None:
            return
        client, req, bound = self.token_request_for(o, code)
        parsed = self.op.parse("token", req)
        if isinstance(parsed, ops.Outcome):
            self.judge_code(code, bound, parsed, False, parsed=None)
            return
        self.expect(code.live() or code.fuzzy, {"C01", "C04", "C02", "C05"},
                    "a request with a dead code passed the parse step" if False else
                    f"token request accepted by parse for a code that is {self.why(code)}")
        self.held.append((code, bound, parsed))
        self.rec.label("held")

    def op_release(self, o):
        if not self.held:
            return
        code, bound, parsed = self.held.pop(o["g"] % len(self.held))
        out = self.op.process("token", parsed, **({"issue_refresh": True} if o.get("rt") else {}))
        self.judge_code(code, bound, out, bool(o.get("rt")), parsed=parsed)

    def why(self, t):
        g = t.grant
        return "/".join(x for x, c in (("revoked", t.revoked), ("expired", t.expired()), ("used", t.once and t.used),
                                       ("grant revoked", g.revoked), ("grant expired", g.expired()),
                                       ("session removed", g.removed)) if c) or "live"

    def has_tokens(self, out):
        a = out.args
        if a is None:
            return False
        try:
            return any(k in a for k in ("access_token", "refresh_token", "id_token"))
        except TypeError:
            return False

    def judge_code(self, code, bound, out, want_rt, parsed):
        g = code.grant
        live = code.live() and g.active() and not g.removed
        held = parsed is not None
        if not out.ok:
            self.expect(not self.has_tokens(out), {"C23", "C01", "C02"}, f"refusal carries tokens: {out!r}")
            self.rec.label("code-refused:" + (self.why(code) if bound else "unbound"))
            if live and bound and "access_token" in code.mints and not code.fuzzy:
                self.mismatch({"C01", "C02", "C04"},
                              f"the rightful owner's redemption of a live code was refused: {out!r}")
            if code.used and not g.removed:
                if self.flavour == "oidc":
                    for t in self.descendants(code):
                        if held:
                            t.fuzzy = True
                        else:
                            t.revoked = True
                    if self.descendants(code):
                        self.rec.label("replay-revokes")
            return
        # success
        if code.used:
            self.mismatch({"C01"}, f"a code was redeemed {code.used + 1} times")
        if code.expired():
            self.mismatch({"C02", "C04"}, "an expired code was redeemed")
        if code.revoked or g.revoked or g.removed:
            self.mismatch({"C05", "C04"}, f"a code that is {self.why(code)} was redeemed")
        if not bound:
            self.mismatch({"C02"}, "a code was redeemed by another client or with another redirect_uri")
        if g.expired():
            self.mismatch({"C04", "C05"}, "something was minted under an expired grant")
        self.rec.label("code-ok")
        a = out.args
        code.used += 1
        self.expect("access_token" in a and "access_token" in code.mints, {"C18"},
                    "access token issued although the code may not mint one")
        if "scope" in a:
            sc = a["scope"] if isinstance(a["scope"], list) else a["scope"].split()
            self.expect(set(sc) <= set(g.scope), {"C06"}, f"token response scope {sc}, granted {g.scope}")
        t = self.new_tok("access_token", a["access_token"], g, code, g.scope)
        self.announced(a, t)
        want_refresh = (want_rt or (self.flavour == "oidc" and "offline_access" in g.scope)) \
            and "refresh_token" in code.mints
        self.expect(("refresh_token" in a) == want_refresh, {"C18"},
                    f"refresh token {'issued' if 'refresh_token' in a else 'not issued'}, rules say {want_refresh}")
        if "refresh_token" in a:
            rr = g.rules.get("refresh_token", {})
            self.new_tok("refresh_token", a["refresh_token"], g, code, g.scope,
                         mints=rr.get("supports_minting", ["access_token", "refresh_token"]))
        if self.flavour == "oidc":
            self.expect(("id_token" in a) == ("openid" in g.scope and "id_token" in code.mints), {"C18", "C14"},
                        f"id_token in response: {'id_token' in a}")

    def op_refresh(self, o):
        tok = self.pick(["refresh_token"], o["t"])
        if tok is None:
            return
        g = tok.grant
        ci = g.ci if not o.get("wc") else (g.ci + 1 + o["wc"] % max(1, len(self.clients) - 1)) % len(self.clients)
        client = self.clients[ci]
        basis = tok.parent.scope if tok.parent is not None else g.scope
        scope = None
        if o.get("scope") is not None:
            scope = [s for s in SCOPES if s in o["scope"]] or None
        if scope is not None and o.get("sub"):
            scope = [s for s in basis if s in o["scope"]] or None
        kw = {"issue_refresh": True} if o.get("rt") else {}
        out = ops.refresh(self.op, client, tok.value, scope=scope, **kw)
        live = tok.live() and g.active()
        may = "access_token" in tok.mints
        subset = scope is None or set(scope) <= set(basis)
        if not out.ok:
            self.expect(not self.has_tokens(out), {"C23", "C06"}, f"refusal carries tokens: {out!r}")
            self.rec.label("refresh-refused:" + (self.why(tok) if ci == g.ci else "wrong-client")
                           + ("" if subset else "+scope"))
            if live and ci == g.ci and may and subset and not tok.fuzzy:
                self.mismatch({"C04", "C06", "C18"}, f"refresh with a live refresh token was refused: {out!r}")
            return
        self.rec.label("refresh-ok" + ("-downscoped" if scope is not None and set(scope) < set(basis) else ""))
        if not tok.fuzzy:
            if tok.revoked or g.revoked or g.removed:
                # tokens of a replayed code are C01's business as well
                self.mismatch({"C04", "C05", "C01", "C17"}, f"refresh honoured a token that is {self.why(tok)}")
            if tok.expired():
                self.mismatch({"C04", "C18"}, "refresh honoured an expired refresh token")
        if g.expired():
            self.mismatch({"C04", "C05"}, "refresh under an expired grant")
        if ci != g.ci:
            self.mismatch({"C02", "C07", "C04"}, "refresh by a client the token was not issued to")
        if not subset:
            self.mismatch({"C06"}, f"refresh for {scope} succeeded, the token's parent has {basis}")
        self.expect(may, {"C18"}, "refresh token minted an access token although its rules forbid it")
        a = out.args
        got_scope = a.get("scope")
        got_scope = got_scope if isinstance(got_scope, list) else (got_scope or "").split()
        want_scope = scope if scope is not None else basis
        self.expect(set(got_scope) <= set(basis), {"C06"}, f"refreshed scope {got_scope} beyond {basis}")
        self.expect(set(got_scope) == set(want_scope), {"C06", "C18"},
                    f"refresh asked for {want_scope} and got {got_scope}")
        tok.used += 1
        t = self.new_tok("access_token", a["access_token"], g, tok, want_scope)
        self.announced(a, t)
        want_refresh = (o.get("rt") or (self.flavour == "oidc" and "offline_access" in want_scope)) \
            and "refresh_token" in tok.mints
        self.expect(("refresh_token" in a) == bool(want_refresh), {"C18"},
                    f"refresh token {'re' if 'refresh_token' in a else 'not re'}issued, rules say {want_refresh}")
        if "refresh_token" in a:
            self.new_tok("refresh_token", a["refresh_token"], g, tok, want_scope, mints=tok.mints)
        roi = self.clients[g.ci].get("revoke_refresh_on_issue")
        if roi is None:
            roi = self.conf.get("ep_roi", False)
        if roi:
            tok.revoked = True
            self.rec.label("retired-on-issue")

    def op_revoke_token(self, o):
        tok = self.pick(["authorization_code", "access_token", "refresh_token"], o["t"])
        if tok is None or tok.grant.removed:
            return
        rec = bool(o.get("rec"))
        if o.get("via") == "grant":
            self.op.mngr.get_grant(tok.grant.sid).revoke_token(value=tok.value, recursive=rec)
        else:
            self.op.mngr.revoke_token(tok.grant.sid, tok.value, recursive=rec)
        tok.revoked = True
        tok.fuzzy = False
        if rec:
            for t in self.descendants(tok):
                t.revoked = True
                t.fuzzy = False
        self.rec.label("revoke-token" + ("-rec" if rec else "") + (":deep" if rec and len(self.descendants(tok)) > 1
                                                                    else ""))

    def op_revoke_grant(self, o):
        if not self.grants:
            return
        g = self.grants[o["g"] % len(self.grants)]
        if g.removed:
            return
        self.op.mngr.revoke_grant(g.sid)
        g.revoked = True
        self.rec.label("revoke-grant")

    def op_revoke_client(self, o):
        if not self.grants:
            return
        g = self.grants[o["g"] % len(self.grants)]
        if g.removed:
            return
        self.op.mngr.revoke_client_session(g.sid)
        n = 0
        for x in self.grants:
            if x.user == g.user and x.ci == g.ci:
                x.revoked = True
                n += 1
        self.rec.label("revoke-client" + (":many" if n > 1 else ""))

    def op_remove(self, o):
        if not self.grants:
            return
        g = self.grants[o["g"] % len(self.grants)]
        if g.removed:
            return
        self.op.mngr.remove_session(g.sid)
        g.removed = True
        self.rec.label("remove")

    def op_wrong_kind(self, o):
        """A live access or refresh token presented as a code, and a code or access token as refresh token."""
        tok = self.pick(["access_token", "refresh_token"], o["t"])
        if tok is not None:
            g = tok.grant
            out = self.op.call("token", ops.code_request(self.clients[g.ci], tok.value, redirect_uri=g.redirect_uri))
            self.expect(not out.ok, {"C02", "C04", "C25"}, f"{tok.kind} was accepted as an authorization code")
        tok = self.pick(["authorization_code", "access_token"], o["t"])
        if tok is not None:
            out = ops.refresh(self.op, self.clients[tok.grant.ci], tok.value)
            self.expect(not out.ok, {"C02", "C04", "C25"}, f"{tok.kind} was accepted as a refresh token")
        self.rec.label("wrong-kind")

    # ------------------------------------------------------------------ probes
    def honoured(self, t):
        """C04: neither expired nor revoked, itself, its grant or its session."""
        return t.live() and not t.grant.revoked and not t.grant.removed

    LIVE_TAGS = {"C04", "C05", "C01"}

    def live_tags(self, t):
        tags = {"C04"}
        if t.revoked or t.grant.revoked or t.grant.removed:
            tags |= {"C05"}
        # what a replay of the code did or must not have done
        tags |= {"C01"}
        if t.expired():
            tags = {"C04", "C18"}
        return tags

    def op_probe(self, o):
        self.probe_all()

    def probe_all(self):
        for t in self.toks:
            self.probe(t)

    def probe(self, t):
        want = self.honoured(t) and t.kind in ("access_token", "refresh_token")
        prober = self.clients[t.idx % len(self.clients)]
        out = ops.introspect(self.op, prober, t.value)
        if not out.ok:
            self.mismatch({"C04", "C21"}, f"introspection of a {t.kind} that is {self.why(t)} failed: {out!r}",
                          "introspection-fails")
        act = bool(out.args.get("active"))
        d = out.args.to_dict()
        if not t.fuzzy:
            self.expect(act == want, self.live_tags(t),
                        lambda: f"introspection says active={act} for a {t.kind} that is {self.why(t)}")
        if not act:
            self.expect(set(d) <= {"active"}, {"C04", "C21"}, f"inactive introspection response discloses {sorted(d)}")
        else:
            sc = d.get("scope", "")
            sc = sc.split() if isinstance(sc, str) else sc
            self.expect(set(sc) == set(t.scope), {"C06", "C21"},
                        f"introspection scope {sc}, the token was issued with {t.scope}")
            self.expect(set(sc) <= set(t.grant.scope), {"C06"}, f"scope {sc} beyond the grant {t.grant.scope}")
            if t.exp:
                self.expect(d.get("exp") == t.exp, {"C18", "C21"}, f"introspection exp {d.get('exp')} != {t.exp}")
            self.expect(d.get("client_id") == self.clients[t.grant.ci]["client_id"], {"C21"},
                        f"introspection client_id {d.get('client_id')}")
            self.expect(d.get("iat") == t.issued, {"C21"}, f"introspection iat {d.get('iat')} != {t.issued}")
        if self.conf.get("fmt", "jwt") == "jwt" and t.kind in ("access_token", "refresh_token") and not act:
            pass
        if self.flavour == "oidc":
            u = ops.userinfo(self.op, t.value, respond=False)
            want_u = self.honoured(t) and t.kind == "access_token" and CLOCK.now <= t.grant.auth_until
            if not t.fuzzy:
                self.expect(u.ok == want_u, self.live_tags(t),
                            lambda: f"userinfo {'honours' if u.ok else 'refuses'} a {t.kind} that is {self.why(t)}"
                                    f" ({u!r})")
        if self.conf.get("fmt", "jwt") == "jwt" and t.kind in ("access_token", "refresh_token"):
            p = ops.jwt_payload(t.value)
            self.expect(set(p.get("scope", [])) == set(t.scope), {"C06"},
                        f"JWT {t.kind} carries scope {p.get('scope')}, issued with {t.scope}")
            if t.exp:
                self.expect(p["exp"] == t.exp, {"C18"}, f"JWT {t.kind} exp {p['exp']} != {t.exp}")


# ---------------------------------------------------------------------- strategies
def op_strategies():
    idx = st.integers(0, 9)
    scope = st.lists(st.sampled_from(SCOPES), max_size=5, unique=True)
    rts = st.sampled_from(["code", "code", "code", "token", "code token", "code id_token", "id_token token",
                           "code id_token token"])
    b = st.booleans()
    return {
        "auth": st.fixed_dictionaries({"op": st.just("auth"), "c": idx, "u": idx, "rt": rts, "scope": scope,
                                       "ri": st.integers(0, 1)}),
        "code": st.fixed_dictionaries({"op": st.just("code"), "g": idx, "rt": b}),
        "code_bad": st.fixed_dictionaries({"op": st.just("code"), "g": idx, "rt": b,
                                           "wc": st.integers(0, 2), "wr": st.integers(0, 5)}),
        "hold": st.fixed_dictionaries({"op": st.just("hold"), "g": idx, "wc": st.sampled_from([0, 0, 0, 1])}),
        "release": st.fixed_dictionaries({"op": st.just("release"), "g": idx, "rt": b}),
        "refresh": st.fixed_dictionaries({"op": st.just("refresh"), "t": idx, "rt": b,
                                          "scope": st.one_of(st.none(), scope), "sub": b}),
        "refresh_bad": st.fixed_dictionaries({"op": st.just("refresh"), "t": idx, "rt": b, "wc": st.integers(1, 2)}),
        "revoke_token": st.fixed_dictionaries({"op": st.just("revoke_token"), "t": idx, "rec": b,
                                               "via": st.sampled_from(["manager", "grant"])}),
        "revoke_grant": st.fixed_dictionaries({"op": st.just("revoke_grant"), "g": idx}),
        "revoke_client": st.fixed_dictionaries({"op": st.just("revoke_client"), "g": idx}),
        "remove": st.fixed_dictionaries({"op": st.just("remove"), "g": idx}),
        "advance": st.fixed_dictionaries({"op": st.just("advance"),
                                          "s": st.sampled_from([1, 10, 299, 300, 301, 599, 600, 601, 1800, 3599, 3600,
                                                                3601, 43200, 86400, 86401])}),
        "edge": st.fixed_dictionaries({"op": st.just("edge"), "n": st.integers(0, 4), "d": st.sampled_from([-1, 1, 1, 7, 30, 55, 90]), "t": idx,
                                       "do": st.sampled_from(["probe", "refresh", "code"])}),
        "probe": st.just({"op": "probe"}),
        "wrong_kind": st.fixed_dictionaries({"op": st.just("wrong_kind"), "t": idx}),
    }


def sized_lists(elem, lo, hi):
    """Lists whose length is uniform in lo..hi (hypothesis' own lists are mostly short)."""
    return st.integers(lo, hi).flatmap(lambda n: st.lists(elem, min_size=n, max_size=n))


def prefixes():
    """Standard openings, so that later operations meet tokens of every kind and depth."""
    s = op_strategies()
    fixed = st.fixed_dictionaries
    full = st.lists(st.sampled_from(SCOPES[1:5]), max_size=4, unique=True).map(lambda l: ["openid"] + l)
    auth = fixed({"op": st.just("auth"), "c": st.integers(0, 1), "u": st.integers(0, 1),
                  "rt": st.sampled_from(["code", "code", "code token", "code id_token token"]),
                  "scope": full.map(lambda l: l + ["offline_access"]), "ri": st.integers(0, 1)})
    code = fixed({"op": st.just("code"), "g": st.integers(0, 3), "rt": st.just(True)})
    ref = fixed({"op": st.just("refresh"), "t": st.integers(0, 3), "rt": st.booleans(),
                 "scope": st.one_of(st.none(), st.lists(st.sampled_from(SCOPES), max_size=5, unique=True)),
                 "sub": st.booleans()})
    return st.one_of(
        s["auth"].map(lambda a: [a]),
        st.tuples(auth, code).map(list),
        st.tuples(auth, code, ref).map(list),
        st.tuples(auth, code, ref, ref).map(list),
        st.tuples(auth, code, auth, code).map(list),
        st.tuples(auth, auth, code, ref, code).map(list),
    )


def histories(weights, max_size=14, min_size=1, conf=None):
    """weights: {operation: weight}.  Every history starts with an authorization."""
    s = op_strategies()
    pool = []
    for name, w in weights.items():
        pool += [name] * w
    step = st.sampled_from(pool).flatmap(lambda n: s[n])
    confs = conf if conf is not None else conf_strategy()
    return st.tuples(confs, prefixes(), sized_lists(step, min_size, max_size)).map(
        lambda t: {"conf": t[0], "ops": t[1] + t[2]})


def conf_strategy(fmts=("jwt", "opaque"), flavours=("oidc", "oidc", "oauth2")):
    return st.fixed_dictionaries({
        "flavour": st.sampled_from(list(flavours)), "fmt": st.sampled_from(list(fmts)),
        "nclients": st.sampled_from([2, 3]), "code_max": st.sampled_from([0, 0, 0, 1, 3])})
