"""The same case in another process, with another order of sets: python3-vt -m net.twin answers one JSON line per case."""
import atexit
import hashlib
import json
import os
import select
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = ("1", "4")
_procs = {}


def digests(c, quick):
    """per step: ok/err/hang and the digest of each file"""
    from . import real, fast
    fast.FAST = quick
    try:
        out = []
        for s in c["steps"]:
            k, rb = real.attempt(real.build, c["b"])
            if k != "ok":
                return None
            s = dict(s)
            k, o = real.attempt(real.outputs, s.pop("kind"), rb, **s)
            out.append([k, {f: hashlib.blake2b(x, digest_size=16).hexdigest() for f, x in o.items()} if k == "ok" else {}])
        return out
    except fast.NotPossible:
        return None
    finally:
        fast.FAST = False


def ask(c, quick, seed):
    """what another process with the hash seed answers, None if it does not"""
    key = (os.getpid(), seed)
    p = _procs.get(key)
    if p is None:
        p = _procs[key] = subprocess.Popen([sys.executable, "-m", "net.twin"], cwd=HERE, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                           stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONHASHSEED=seed), text=True)
        atexit.register(stop, p)
    if p.poll() is not None:
        return None
    try:
        p.stdin.write(json.dumps([c, quick]) + "\n")
        p.stdin.flush()
        if not select.select([p.stdout], [], [], 60)[0]:
            p.kill()
            return None
        return json.loads(p.stdout.readline())
    except (OSError, ValueError):
        return None


def stop(p):
    try:
        p.stdin.close()
        p.kill()
        p.wait(5)
    except (OSError, subprocess.TimeoutExpired):
        pass


def stop_all():
    for k in [k for k in _procs if k[0] == os.getpid()]:
        stop(_procs.pop(k))


if __name__ == "__main__":
    import warnings
    warnings.filterwarnings("ignore")
    from net import real, twin
    real.setup()
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        try:
            a = twin.digests(*json.loads(line))
        except Exception:  # noqa
            a = None
        out.write(json.dumps(a) + "\n")
        out.flush()
