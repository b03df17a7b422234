"""C13: subject identifiers follow the client's subject type."""
import json
import os

from hypothesis import strategies as st

from pbt import boot, hist, ops
from pbt.runner import Sub, check

RULE = ("a case configures four clients (public, pairwise in three sectors, ephemeral; static or registered), one to four users with "
        "awkward ids and up to ten logins, some with the session cookie of an earlier one, on one server and on a restarted one; "
        "non-trivial when at least two users or two clients were compared")

UIDS = ["diana", "babs", "upper", "diana2", "Diana", "diana ", "user@example.com", "åsa", "u", "ur", "urp1.example.com", "rp1.example.com",
        "p1.example.com", "a;;b", "0", "12345", "salt", "dianasession-salt", "x" * 80, "session-salt"]
SECTORS = [None, None, "https://sector.example.org/uris.json", "https://sector.example.org/other.json", "https://rp1.example.com/s.json",
           "https://p1.example.com/uris.json"]
HOSTS = ["https://rp0.example.com/cb", "https://rp1.example.com/cb", "https://rp1.example.com/cb2", "https://p1.example.com/cb",
         "https://rp1.example.com:8443/cb", "https://RP1.example.com/cb"]


def cases():
    client = st.fixed_dictionaries({
        "type": st.sampled_from(["public", "pairwise", "pairwise", "pairwise", "ephemeral", None]),
        "sector": st.integers(0, len(SECTORS) - 1), "host": st.integers(0, len(HOSTS) - 1),
        "how": st.sampled_from(["static", "static", "uri", "registered"])})
    login = st.fixed_dictionaries({
        "u": st.integers(0, 3), "c": st.integers(0, 3), "rt": st.sampled_from(["code", "code", "code id_token", "id_token token"]),
        "sso": st.booleans(), "srv": st.sampled_from([0, 0, 0, 1]), "refresh": st.booleans(),
        "evil": st.sampled_from([None, None, "https://sector.example.org/uris.json"])})
    return st.fixed_dictionaries({
        "clients": st.lists(client, min_size=4, max_size=4),
        "users": st.one_of(st.just(["u", "ur", "diana", "urp1.example.com"]), st.lists(st.one_of(st.sampled_from(UIDS), st.sampled_from(UIDS), st.text(min_size=1, max_size=12)), min_size=4, max_size=4, unique=True)),
        "sub_func": st.sampled_from([None, None, "class", "file", "function"]), "ops": hist.sized_lists(login, 2, 10)})


def my_pairwise(uid, sector_identifier, salt="", **kwargs):
    import hashlib
    return hashlib.sha256(json.dumps([uid, sector_identifier, salt]).encode()).hexdigest()


def sector_of(c):
    s = SECTORS[c["sector"]]
    u = s or HOSTS[c["host"]]
    return u.split("//")[1].split("/")[0].split(":")[0].lower()


def build(case):
    users = {u: {"sub": "db-" + str(i), "name": f"N{i}", "email": f"u{i}@x.org"} for i, u in enumerate(case["users"])}
    conf = ops.base_conf()
    fn = {"class": {"public": {"class": "oidcop.session.manager.PublicID", "kwargs": {"salt": "pub-salt"}},
                    "pairwise": {"class": "oidcop.session.manager.PairWiseID", "kwargs": {"salt": "pw-salt"}}},
          "file": {"public": {"class": "oidcop.session.manager.PublicID", "kwargs": {"filename": os.path.join(boot.scratch(), "public.salt")}},
                   "pairwise": {"class": "oidcop.session.manager.PairWiseID",
                                "kwargs": {"filename": os.path.join(boot.scratch(), "pairwise.salt")}}},
          "function": {"pairwise": {"function": my_pairwise}}}
    if case["sub_func"]:
        conf["session_params"]["sub_func"] = fn[case["sub_func"]]
    op = ops.OP(conf)
    op.ctx.userinfo.db = users
    return op


def add_clients(op, case, first):
    """first: the clients as they were set up on the first server, the second has the same registered"""
    if first:
        for c in first:
            op.add_client(c["_cdb"])
        return first
    out = []
    for i, c in enumerate(case["clients"]):
        uri = HOSTS[c["host"]]
        si = SECTORS[c["sector"]]
        if c["how"] == "registered" and c["type"] != "ephemeral":
            req = {"redirect_uris": [uri], "response_types": ["code", "code id_token", "id_token token"], "application_type": "web",
                   "grant_types": ["authorization_code", "implicit", "refresh_token"], "token_endpoint_auth_method": "client_secret_post"}
            if c["type"]:
                req["subject_type"] = c["type"]
            if si:
                req["sector_identifier_uri"] = si
                op.httpc.pages[si] = json.dumps(HOSTS)
            r = op.call("registration", req, respond=False)
            check(r.ok, lambda: f"registration refused: {r!r}")
            if c["type"]:
                check(r.args.get("subject_type") == c["type"], "registration answers another subject type")
            cid = r.args["client_id"]
            cdb = dict(op.ctx.cdb[cid], client_id=cid)
            op.ctx.cdb[cid]["allowed_scopes"] = cdb["allowed_scopes"] = ["openid", "profile", "email", "offline_access"]
            out.append({"client_id": cid, "client_secret": r.args["client_secret"], "redirect_uris": [uri], "_cdb": cdb})
        else:
            kw = {"redirect_uris": [(uri, {})]}
            if c["type"]:
                kw["subject_type"] = c["type"]
            if si:
                kw["sector_id" if c["how"] == "static" else "sector_identifier_uri"] = si
            d = ops.client_conf(i, **kw)
            op.add_client(d)
            out.append(dict(d, _cdb=d))
    return out


def subs(case, rec):
    for f in ("public.salt", "pairwise.salt"):
        p = os.path.join(boot.scratch(), f)
        if os.path.exists(p):
            os.remove(p)
    servers = [build(case)]
    clients = add_clients(servers[0], case, None)
    seen = {}      # (kind, uid, sector) -> sub
    owner = {}     # sub -> (uid, key)
    cookies = {}
    for n, o in enumerate(case["ops"]):
        if o["srv"] and len(servers) == 1:
            servers.append(build(case))
            add_clients(servers[1], case, clients)
        op = servers[o["srv"]]
        c, cc = clients[o["c"]], case["clients"][o["c"]]
        uid = case["users"][o["u"]]
        ck = cookies.get((o["srv"], o["u"], o["c"])) if o["sso"] else None
        extra = {"sector_identifier_uri": o["evil"]} if o["evil"] else {}
        out = ops.authorize(op, c, user=uid, cookies=ck, response_type=o["rt"], scope=["openid", "email"], nonce=f"N{n}", **extra)
        check(out.ok, lambda: f"login failed: {out!r}")
        cookies[(o["srv"], o["u"], o["c"])] = ops.find_cookies(out)
        got = {}
        if "id_token" in out.args:
            got["front id_token"] = ops.jwt_payload(out.args["id_token"])["sub"]
        at = out.args.get("access_token")
        if "code" in out.args:
            t = ops.exchange(op, c, out.args["code"], issue_refresh=o["refresh"])
            check(t.ok, lambda: f"code exchange failed: {t!r}")
            got["id_token"] = ops.jwt_payload(t.args["id_token"])["sub"]
            at = t.args["access_token"]
            if o["refresh"] and "refresh_token" in t.args:
                r = ops.refresh(op, c, t.args["refresh_token"])
                check(r.ok, lambda: f"refresh failed: {r!r}")
                if "id_token" in r.args:
                    got["refreshed id_token"] = ops.jwt_payload(r.args["id_token"])["sub"]
                at = r.args["access_token"]
        pl = ops.jwt_payload(at)
        check("sub" in pl, "the access token names no subject")
        got["access_token"] = pl["sub"]
        i = ops.introspect(op, c, at)
        check(i.ok and i.args.get("active"), lambda: f"introspection failed: {i!r}")
        got["introspection"] = i.args.get("sub")
        u = ops.userinfo(op, at)
        check(u.ok, lambda: f"userinfo failed: {u!r}")
        got["userinfo"] = u.args.get("sub")
        check(len(set(got.values())) == 1, lambda: f"different subjects in one session: {got}")
        sub = got["userinfo"]
        check(isinstance(sub, str) and sub, "empty subject")
        if len(uid) > 2 and not all(x in "0123456789abcdef" for x in uid):
            check(uid.strip() not in sub, lambda: f"subject {sub} reveals the user {uid!r}")
        kind = cc["type"] or "public"
        rec.label(kind)
        if kind == "ephemeral":
            check(sub not in owner, "an ephemeral subject identifier was used before")
            owner[sub] = (uid, ("ephemeral", len(owner)), "")
            continue
        sec = sector_of(cc) if kind == "pairwise" else None
        key = (kind, uid, sec)
        if key in seen:
            check(seen[key] == sub, lambda: f"subject of {key} was {seen[key]}, now {sub} (client {cc}, {HOSTS[cc['host']]})")
            rec.label("seen again")
        else:
            seen[key] = sub
            cat = uid + (sec or "")
            if sub in owner:
                ouid, okey, ocat = owner[sub]
                msg = f"{key} and {okey} share a subject identifier"
                if case["sub_func"] != "function" and ocat == cat and (sec or okey[2]):
                    rec.find("pairwise-concatenation", msg)
                else:
                    check(False, msg)
            owner[sub] = (uid, key, cat)
    rec.nontrivial(len({k[1] for k in seen}) > 1 or len({k[2] for k in seen}) > 1)


SUBS = [Sub("subs", cases, subs, 800, rule=RULE)]
