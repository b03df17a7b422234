"""Process set-up: import the code under test from /repo/src, nothing else of it.

Runs under /opt/venv/bin/python (the interpreter the repository is installed in);
hypothesis comes from the tooling venv, appended to sys.path.
"""
import importlib
import logging
import os
import pkgutil
import random
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
sys.path[:] = [p for p in sys.path if os.path.realpath(p) != os.path.realpath("/repo/src")]
sys.path.insert(0, SRC)
for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

import hypothesis  # noqa: E402
import hypothesis.internal.conjecture.engine as _eng  # noqa: E402
import oidcop  # noqa: E402

assert os.path.realpath(oidcop.__file__).startswith(os.path.realpath(SRC)), oidcop.__file__

_eng.MAX_SHRINKING_SECONDS = 60

for _m in pkgutil.walk_packages(oidcop.__path__, "oidcop."):
    importlib.import_module(_m.name)

import cryptojwt.jwt  # noqa: E402,F401
import oidcmsg.oidc.session  # noqa: E402,F401
import oidcmsg.oauth2  # noqa: E402,F401

# RSA_check_key takes 70 ms for each private key load: load each private key once.
import cryptojwt.jwk.rsa as _rsa  # noqa: E402

_rsa_orig = _rsa.rsa_construct_private
_rsa_cache = {}


def _rsa_construct_private(numbers):
    key = tuple(sorted((k, v) for k, v in numbers.items() if v))
    if key not in _rsa_cache:
        _rsa_cache[key] = _rsa_orig(numbers)
    return _rsa_cache[key]


_rsa.rsa_construct_private = _rsa_construct_private

# ----------------------------------------------------------------- determinism
_REAL_URANDOM = os.urandom
_prng = random.Random(1)


def _fake_urandom(n):
    return _prng.randbytes(n)


def reseed(n=1):
    """Every case starts from the same state of the 'system' randomness."""
    _prng.seed(n)


os.urandom = _fake_urandom
random._urandom = _fake_urandom

# ----------------------------------------------------------------------- clock
EPOCH0 = 1_700_000_000


class Clock:
    def __init__(self):
        self.now = EPOCH0

    def reset(self):
        self.now = EPOCH0

    def advance(self, secs):
        self.now += int(secs)


CLOCK = Clock()


def _utc_time_sans_frac():
    return int(CLOCK.now)


def install_clock():
    for name, mod in list(sys.modules.items()):
        if mod is None or name.split(".")[0] not in ("oidcop", "oidcmsg", "cryptojwt"):
            continue
        if callable(getattr(mod, "utc_time_sans_frac", None)):
            mod.utc_time_sans_frac = _utc_time_sans_frac
        if hasattr(mod, "time_sans_frac"):
            mod.time_sans_frac = _utc_time_sans_frac
    import datetime as _dt
    import time

    time.time = lambda: float(CLOCK.now)

    class FakeDateTime(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return _dt.datetime.fromtimestamp(CLOCK.now, tz)

        @classmethod
        def utcnow(cls):
            return _dt.datetime.fromtimestamp(CLOCK.now, _dt.timezone.utc).replace(tzinfo=None)

    for name, mod in list(sys.modules.items()):
        if mod is None or name.split(".")[0] not in ("oidcop", "oidcmsg", "cryptojwt"):
            continue
        if getattr(mod, "datetime", None) is _dt.datetime:
            mod.datetime = FakeDateTime


import time as _time  # noqa: E402

real_time = _time.time
perf = _time.perf_counter
install_clock()

# --------------------------------------------------------------------- scratch
_SCRATCH = None


def scratch():
    global _SCRATCH
    if _SCRATCH is None or _SCRATCH[0] != os.getpid():
        d = tempfile.mkdtemp(prefix=f"oidcop-verif-{os.getpid()}-")
        _SCRATCH = (os.getpid(), d)
        os.makedirs(os.path.join(d, "private"), exist_ok=True)
        os.makedirs(os.path.join(d, "template"), exist_ok=True)
    os.chdir(_SCRATCH[1])
    return _SCRATCH[1]


def drop_scratch():
    global _SCRATCH
    if _SCRATCH is not None and _SCRATCH[0] == os.getpid():
        import shutil

        os.chdir("/")
        shutil.rmtree(_SCRATCH[1], ignore_errors=True)
        _SCRATCH = None
