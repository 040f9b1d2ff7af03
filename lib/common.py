"""Shared pieces of the checks: running commands under limits, paths, environments."""
import os, resource, signal, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
KANI_BIN = None
for d in sorted(os.listdir("/root/.kani")) if os.path.isdir("/root/.kani") else []:
    if d.startswith("kani-"):
        KANI_BIN = f"/root/.kani/{d}/bin"
        KANI_LIB = f"/root/.kani/{d}"
CARGO_PATH = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
PINNED = "/root/.rustup/toolchains/nightly-2023-01-28-x86_64-unknown-linux-gnu/bin/"


def base_env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0",
             PATH=CARGO_PATH + ":" + os.environ.get("PATH", ""))
    return e


def native_env():
    """The environment /opt/vp/env.sh sets: cargo 1.70 driving the pinned rustc"""
    e = base_env()
    e.update(RUSTUP_TOOLCHAIN="1.70.0", RUSTC=PINNED + "rustc", RUSTDOC=PINNED + "rustdoc",
             RUSTC_WRAPPER="")
    return e


class Result:
    def __init__(self, rc, out, secs, timed_out):
        self.rc, self.out, self.secs, self.timed_out = rc, out, secs, timed_out


def run(cmd, timeout, env=None, cwd=None, mem_gb=None):
    t = time.time()

    def pre():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))

    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env or base_env(),
                         cwd=cwd, preexec_fn=pre, stdin=subprocess.DEVNULL)
    timed_out = False
    try:
        out, _ = p.communicate(timeout=max(timeout, 1))
    except subprocess.TimeoutExpired:
        timed_out = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
    return Result(p.returncode, out.decode("utf-8", "replace"), time.time() - t, timed_out)
