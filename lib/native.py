"""The native reading of the contract harnesses: seeded search and replay on the real code."""
import os, re
from common import *

CRATE = f"{VERIF}/harness/native"


def build(prop, work, release, timeout=300):
    target = f"{work}/native"
    cmd = ["cargo", "build", "--offline", "--locked", "--features", prop.lower(), "--target-dir", target] + \
          (["--release"] if release else [])
    r = run(cmd, timeout, native_env(), CRATE)
    return (f"{target}/{'release' if release else 'debug'}/hn" if r.rc == 0 else None), r


FAIL = re.compile(r"^FAIL harness=(\S+) seed=(\d+) draws=(\S*) what=(.*)$", re.M)
RAN = re.compile(r"^RAN harness=(\S+) ok=(\d+) rejected=(\d+)", re.M)


APART = re.compile(r"^APART harness=(\S+)", re.M)


def sweep(exe, prop, seed, secs, harness=None):
    left_out = []
    while True:
        sel = [harness] if harness else ["-" + ",".join(left_out)] if left_out else []
        r = run([exe, "sweep", prop, str(seed), str(secs)] + sel, secs * 2 + 60, native_env(), mem_gb=8)
        m = APART.search(r.out)
        if not m or harness or m.group(1) in left_out:
            break
        # reached into memory that could not be given: this harness says nothing natively
        left_out.append(m.group(1))
    return ([dict(harness=a, seed=b, draws=c, what=d) for a, b, c, d in FAIL.findall(r.out)],
            {a: (int(b), int(c)) for a, b, c in RAN.findall(r.out)}, r)


def replay(exe, prop, harness, mode, arg):
    r = run([exe, "replay", prop, harness, mode, arg or "-"], 60, native_env(), mem_gb=8)
    m = FAIL.search(r.out)
    return m.group(4) if m else None
