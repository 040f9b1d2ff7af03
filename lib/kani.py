"""Contract harnesses through Kani's compiler and CBMC.

Kani compiles the harnesses and /repo's crates to goto programs; CBMC is then run here, harness by
harness, with the flags Kani itself uses but in text mode: in its JSON mode CBMC builds a trace for
every satisfied reachability check, runs out of memory on the large symbolic arrays used here, and
Kani then reports success on the truncated result.
"""
import glob, json, os, re, shutil, time
from concurrent.futures import ThreadPoolExecutor
from common import *
import loops

CRATE = f"{VERIF}/harness/kani"
CBMC_FLAGS = ("--no-malloc-may-fail --no-undefined-shift-check --no-signed-overflow-check --nan-check "
              "--no-self-loops-to-assumptions --no-pointer-primitive-check --object-bits 16").split()


def kani_env(panics):
    e = base_env()
    if panics:
        # what must panic must do so without debug assertions as well
        e["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
    return e


def codegen(prop, work, panics, thorough, timeout, crate=CRATE):
    feats = [prop.lower()] + (["panics"] if panics else []) + (["thorough"] if thorough else [])
    target = f"{work}/kani{'-p' if panics else ''}"
    cmd = ["cargo", "kani", "--features", ",".join(feats), "-Z", "stubbing", "--only-codegen",
           "--target-dir", target]
    r = run(cmd, timeout, kani_env(panics), crate)
    metas = [m for m in glob.glob(f"{target}/**/*kani-metadata.json", recursive=True)
             if os.path.basename(m).startswith("hk-")]
    if r.rc != 0 or not metas:
        return None, r
    meta = max(metas, key=os.path.getmtime)
    d = json.load(open(meta))
    hs = []
    for h in d["proof_harnesses"]:
        path = h["pretty_name"].split("::")[1:]
        hs.append(dict(name="_".join(path), native=path[0], full=h["pretty_name"], mangled=h["mangled_name"],
                       goto=h["goto_file"], unwind=h["attributes"]["unwind_value"] or 1, panics=panics))
    return hs, r


LINE = re.compile(r"^\[(?P<id>[^\n]+?\.\d+)\] (?:line \d+ )?(?P<desc>.*?): (?P<st>SUCCESS|FAILURE|UNKNOWN|ERROR)$",
                  re.M | re.S)
KID = re.compile(r"^\[KANI_CHECK_ID[^\]]*\] ?")


def klass(pid):
    m = re.search(r"(?:^|\.)([A-Za-z_\-]+)\.\d+$", pid)
    return m.group(1) if m else ""


def loop_rule(h, x, env):
    """Replaces `next` by the loop rule in the goto program, after checking its side condition"""
    r = run([f"{KANI_BIN}/goto-instrument", "--show-goto-functions", x], 120, env)
    if r.rc != 0:
        return f"goto program could not be listed: {r.out[-300:]}"
    fs = loops.functions(r.out)
    pairs, missing = loops.replacements(fs)
    if not pairs:
        return "loop rule: no loop over a slice of the elements"
    if missing and h["name"].startswith(("l_final", "l_correct")):
        return f"loop rule: no loop over a slice of {missing[0]}"
    why = loops.side_condition(fs, pairs, allow_writes="writes" in h["name"])
    if why:
        return "loop rule's side condition: " + why
    if h["name"].startswith("l_final"):
        # these take the loop over a group's positions as shown by `l_correct_*`
        for nxt, _, t in pairs:
            for _, (pretty, ins) in fs.items():
                if t == "usize" and any(i.startswith("CALL ") and nxt + "(" in i for _, i in ins) \
                        and not pretty.endswith("PtrGroup::correct_ptrs"):
                    return f"loop rule: a loop over positions in {pretty}"
    cmd = [f"{KANI_BIN}/goto-instrument"]
    for nxt, rule, _ in pairs:
        cmd += ["--replace-calls", f"{nxt}:{rule}"]
    for glue, none in loops.drops(fs):
        cmd += ["--replace-calls", f"{glue}:{none}"]
    r = run(cmd + [x, x], 120, env)
    if r.rc != 0:
        return f"loop rule: goto-instrument failed: {r.out[-300:]}"
    return None


def check_one(h, work, timeout, mem_gb):
    out = dict(name=h["name"], native=h["native"], full=h["full"], panics=h["panics"], failed=[], obligations=0, discharged=0,
               secs=0.0, status="undecided", why="", unreached=[], nopanic=[], solver_s=0.0)
    t0 = time.time()
    sym = h["goto"]
    x = f"{work}/{h['name']}.goto"
    path = KANI_BIN + ":" + CARGO_PATH
    env = base_env()
    env["PATH"] = path
    steps = [
        ["goto-cc", sym, f"{KANI_LIB}/library/kani/kani_lib.c", "-o", x],
        ["goto-cc", x, "--function", h["mangled"], "-o", x],
        ["goto-instrument", "--add-library", "--no-malloc-may-fail", x, x],
        ["goto-instrument", "--generate-function-body-options", "assert-false-assume-false",
         "--generate-function-body", ".*", "--drop-unused-functions", x, x],
        ["goto-instrument", "--ensure-one-backedge-per-target", x, x],
    ]
    for s in steps:
        r = run([f"{KANI_BIN}/{s[0]}"] + s[1:], 120, env)
        if r.rc != 0:
            out["why"] = f"{s[0]} failed: {r.out[-300:]}"
            out["secs"] = time.time() - t0
            return out
    if h["name"].startswith("l_"):
        why = loop_rule(h, x, env)
        if why:
            out["why"] = why
            out["secs"] = time.time() - t0
            return out
    solver = h.get("solver", "cadical")
    cmd = [f"{KANI_BIN}/cbmc"] + CBMC_FLAGS + ["--unwind", str(h["unwind"]), "--sat-solver", solver,
                                                "--slice-formula", x, "--verbosity", "8"]
    left = timeout - (time.time() - t0)
    r = run(cmd, left, env, mem_gb=mem_gb)
    out["secs"] = time.time() - t0
    try:
        os.remove(x)
    except OSError:
        pass
    if r.timed_out:
        out["why"] = f"solver time limit of {timeout:.0f} s"
        return out
    out["solver_s"] = sum(float(m) for m in re.findall(r"Runtime decision procedure: ([\d.e+-]+)s", r.out))
    summary = re.search(r"^\*\* (\d+) of (\d+) failed", r.out, re.M)
    if r.rc not in (0, 10) or not summary or int(summary.group(2)) == 0:
        out["why"] = f"cbmc ended with {r.rc}: {r.out[-300:]}"
        return out
    seen = 0
    undecided = []
    results = r.out[r.out.find("** Results:"):]
    for m in LINE.finditer(results):
        seen += 1
        k, desc, st = klass(m["id"]), KID.sub("", m["desc"]).replace("\n", " ").strip(), m["st"]
        if k == "reachability_check" or "KANI_CHECK_ID" in desc:
            continue
        if not desc:
            continue
        if k == "cover" or desc.startswith(("REACH: ", "NOPANIC: ")):
            hit = st == "FAILURE"
            if desc.startswith("NOPANIC: "):
                out["obligations"] += 1
                if hit:
                    out["failed"].append(("panic", desc))
                else:
                    out["discharged"] += 1
            elif not hit:
                # those which only some harnesses reach say which
                m = re.match(r"REACH: for (\S+): ", desc.replace("\\\\", "\\"))
                if re.match(m.group(1), h["name"]) if m else not h["name"].endswith(("_step", "_step_writes")):
                    out["unreached"].append(desc)
            continue
        if h["panics"] and k in ("assertion",) and not desc.startswith("CHECK: "):
            # here a panic is what is asked for
            if st == "FAILURE":
                out["nopanic"].append(desc)
                if "overflow" in desc and desc.startswith("attempt to"):
                    out["failed"].append(("overflow", desc))
            continue
        out["obligations"] += 1
        if st == "SUCCESS":
            out["discharged"] += 1
            continue
        if k in ("unwind", "sanity_check", "unsupported_construct", "no-body", "recursion") or "unwinding assertion" in desc \
                or "is not currently supported by Kani" in desc or desc.startswith("UNSUPPORTED: ") or st != "FAILURE" or "no body" in desc:
            undecided.append(f"{k}: {desc}")
        elif k == "assertion" or desc.startswith("CHECK: ") or "overflow" in k:
            out["failed"].append(("check", desc))
        elif h["name"].startswith(("a_", "p_")):
            # addresses handed out by the allocator's contract are not CBMC objects
            undecided.append(f"{k}: {desc}")
        else:
            out["failed"].append(("memory", desc))
    if seen != int(summary.group(2)):
        out["why"] = "solver output is incomplete"
        out["failed"] = []
        out["obligations"] = out["discharged"] = 0
        return out
    if out["failed"]:
        out["status"] = "failed"
        out["log"] = "\n".join(l for l in r.out.splitlines() if l.endswith(": FAILURE"))[-6000:]
    elif undecided:
        out["why"] = "; ".join(undecided[:3])
    elif out["unreached"]:
        out["why"] = "vacuous: not reachable: " + "; ".join(out["unreached"][:3])
    elif out["obligations"] == 0 or (h["panics"] and not out["nopanic"]):
        out["why"] = "no obligation was generated"
    else:
        out["status"] = "proved"
    return out


def check_all(hs, work, timeout, deadline, jobs=8, mem_gb=14, hints=None):
    hints = hints or {}
    hs = sorted(hs, key=lambda h: -hints.get(h["name"], 120 if h["name"].startswith("l_") else 30))

    def go(h):
        left = deadline - time.time()
        if left < 10:
            return dict(name=h["name"], native=h["native"], full=h["full"], panics=h["panics"], failed=[], obligations=0, discharged=0,
                        secs=0, status="undecided", why="check's time limit", unreached=[], nopanic=[], solver_s=0)
        return check_one(h, work, min(timeout, left), mem_gb)

    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(go, hs))


def playback(prop, full, work, panics, timeout, tag=0):
    """Counterexample of a failing harness with small sizes: the list of recorded choices"""
    feats = [prop.lower(), "small"] + (["panics"] if panics else [])
    cmd = ["cargo", "kani", "--features", ",".join(feats), "-Z", "stubbing", "-Z", "concrete-playback",
           "--concrete-playback=print", "--harness", full, "--exact", "--target-dir", f"{work}/kani-cex{tag}"]
    r = run(cmd, timeout, kani_env(panics), CRATE, mem_gb=12)
    res = []
    for m in re.finditer(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\];", r.out, re.S):
        vals = [[int(b) for b in v.split(",") if b.strip()] for v in re.findall(r"vec!\[([\d, ]*)\]", m.group(1))]
        res.append(vals)
    return res
