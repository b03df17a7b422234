"""Writes demolib.py (a stand-alone version of pbt/ops.py for the demonstrations in seeded/)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(HERE, "..", "pbt", "ops.py")).read()
head = '''"""Stand-alone test driver for the demonstrations: a server, its clients, a movable clock."""
import importlib, logging, os, pkgutil, sys, time, warnings
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import oidcop
for _m in pkgutil.walk_packages(oidcop.__path__, "oidcop."):
    importlib.import_module(_m.name)
import datetime as _dt
import cryptojwt.jwt, oidcmsg.oidc.session, oidcmsg.oauth2


class CLOCK:
    now = 1700000000

    @classmethod
    def advance(cls, s):
        cls.now += int(s)


def _now(*a):
    return int(CLOCK.now)


class _FakeDT(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        return _dt.datetime.fromtimestamp(CLOCK.now, tz)

    @classmethod
    def utcnow(cls):
        return _dt.datetime.fromtimestamp(CLOCK.now, _dt.timezone.utc).replace(tzinfo=None)


for _n, _mod in list(sys.modules.items()):
    if _mod is None or _n.split(".")[0] not in ("oidcop", "oidcmsg", "cryptojwt"):
        continue
    if callable(getattr(_mod, "utc_time_sans_frac", None)):
        _mod.utc_time_sans_frac = _now
    if hasattr(_mod, "time_sans_frac"):
        _mod.time_sans_frac = _now
    if getattr(_mod, "datetime", None) is _dt.datetime:
        _mod.datetime = _FakeDT
time.time = lambda: float(CLOCK.now)


class boot:
    @staticmethod
    def scratch():
        for d in ("private", "template"):
            os.makedirs(d, exist_ok=True)
        return os.getcwd()

'''
out = []
for line in src.splitlines():
    if line.startswith("from . import boot") or line.startswith("from .boot"):
        continue
    out.append(line)
body = "\n".join(out[1:])
a = body.index("KEYDIR =")
b = body.index("def public_jwks")
body = body[:a] + '''from cryptojwt.key_jar import build_keyjar
_KEYCACHE = {}


def raw_jwks(name):
    if name not in _KEYCACHE:
        _KEYCACHE[name] = build_keyjar([{"type": "RSA", "key": "", "use": ["sig"]},
                                        {"type": "EC", "crv": "P-256", "use": ["sig"]}]).export_jwks(private=True)
    return copy.deepcopy(_KEYCACHE[name])


''' + body[b:]
open(sys.argv[1], "w").write(head + body + '''


def demo(fn):
    """exit status 0: the property holds"""
    try:
        fn()
    except AssertionError as e:
        print("PROPERTY BROKEN:", e)
        sys.exit(1)
    print("ok")
    sys.exit(0)
''')
