#!/usr/bin/env python3
"""Decides one property of ser_raw on /repo's current tree.
  check.py <ID>                      tier from VERIF_TIER (quick by default)
  check.py <ID> --replay <file>      replay a reported violation against /repo's current tree
  check.py --setup
"""
import json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from concurrent.futures import ThreadPoolExecutor
from common import *
import kani, native, props

T0 = time.time()


def replay_file(prop, **kw):
    d = f"{VERIF}/evidence/replay"
    os.makedirs(d, exist_ok=True)
    path = f"{d}/{prop}.json"
    json.dump(dict(property=prop, **kw), open(path, "w"), indent=1)
    return path


def do_replay(prop, path):
    d = json.load(open(path))
    work = f"{VERIF}/.build/{prop}"
    os.makedirs(work, exist_ok=True)
    if "harness" not in d or not d.get("mode"):
        print(json.dumps(d, indent=1))
        print("nothing to replay: no failing input was found; the failed obligations are above")
        return 0
    exe, r = native.build(prop, work, d["build"] == "release")
    if not exe:
        print(r.out)
        return 2
    w = native.replay(exe, prop, d["harness"], d["mode"], d["arg"])
    print(f"harness {d['harness']} with {d['mode']} {d['arg']}: {w or 'passes'}")
    return 1 if w else 0


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        return 0
    if "--replay" in sys.argv:
        return do_replay(prop, sys.argv[sys.argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    conf = props.PROPS[prop]
    conf = dict(conf, extra=props.extras(prop))
    budget = conf.get("budget", (560, 5400))[thorough]
    deadline = T0 + budget
    work = f"{VERIF}/.build/{prop}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)

    # ---- build everything side by side
    jobs = {}
    with ThreadPoolExecutor(8) as ex:
        if conf.get("kani", True):
            jobs["kani"] = ex.submit(kani.codegen, prop, work, False, thorough, 300)
        if conf.get("panics"):
            jobs["kani-p"] = ex.submit(kani.codegen, prop, work, True, thorough, 300)
        if conf.get("native", True):
            jobs["debug"] = ex.submit(lambda: native.build(prop, work, False))
            jobs["release"] = ex.submit(lambda: native.build(prop, work + "/r", True))
        for name, f in conf.get("extra", {}).items():
            jobs[name] = ex.submit(f, work, thorough, seed)
    res = {k: j.result() for k, j in jobs.items()}

    notes = []
    harnesses = []
    for k in ("kani", "kani-p"):
        if k in res:
            hs, r = res[k]
            if hs is None:
                notes.append(f"contract harnesses could not be compiled by Kani: {r.out[-1500:]}")
            else:
                harnesses += hs
    exes = {}
    for k in ("debug", "release"):
        if k in res:
            exe, r = res[k]
            if exe is None:
                notes.append(f"native harnesses could not be built ({k}): {r.out[-1500:]}")
            else:
                exes[k] = exe
    extras = {k: res[k] for k in conf.get("extra", {})}
    if conf.get("derives"):
        # the derive macros expand to something that is refused, for a type they are documented to take
        bad = [x for x in (refused(res[k][1].out) for k in ("debug", "release") if k in res and not res[k][0]) if x]
        if bad:
            path = replay_file(prop, what="derived implementation does not compile", compiler_output=bad[0])
            print("\n".join(notes))
            print(f"  derived implementation does not compile: {bad[0][:200]}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
    if not harnesses and not exes and not extras:
        print("\n".join(notes))
        print(f"{prop}: nothing could be built from the current tree")
        return 2

    # ---- native search (runtime reading of the same contracts), a short one
    nsecs = conf.get("native_s", (12, 240))[thorough]
    nfail, nruns = [], {}

    def do_native():
        for k, exe in exes.items():
            f, ran, r = native.sweep(exe, prop, seed, nsecs / max(len(exes), 1))
            for x in f:
                x["build"] = k
                nfail.append(x)
            for h, (a, b) in ran.items():
                o = nruns.get(h, (0, 0))
                nruns[h] = (o[0] + a, o[1] + b)
            if not f and (r.rc != 0 or r.timed_out):
                notes.append(f"native search ended with {r.rc}: {r.out[-300:]}")

    do_native()

    # ---- proof obligations
    os.makedirs(f"{work}/goto", exist_ok=True)
    kres = kani.check_all(harnesses, f"{work}/goto", conf.get("timeout", (400, 2400))[thorough], deadline,
                          jobs=conf.get("jobs", 8), mem_gb=conf.get("mem_gb", 14), hints=props.HINTS.get(prop))
    failed = [h for h in kres if h["status"] == "failed"]
    violation = None
    if nfail:
        f = nfail[0]
        ok = native.replay(exes[f["build"]], prop, f["harness"], "seed", f["seed"])
        path = replay_file(prop, harness=f["harness"], mode="seed", arg=f["seed"], build=f["build"],
                           what=f["what"], choices=f["draws"], all_failures=nfail,
                           failed_obligations=[dict(harness=h["full"], obligations=[d for _, d in h["failed"]]) for h in failed],
                           replayed=bool(ok))
        violation = (path, True, f"{f['harness']} ({f['build']} build): {f['what']}")
    elif failed:
        violation = confirm(prop, work, failed, exes, seed, deadline, notes)
        mem = conf.get("memory", ".")
        soft = [h for h in failed if any(k == "memory" for k, _ in h["failed"]) and not (mem and re.search(mem, h["name"]))]
        if violation and not violation[1] and soft:
            # CBMC loses track of pointers kept in vectors of pointer groups: without a failing input
            # a failed dereference is no verdict in the serializer harnesses (see DESIGN.md)
            for h in soft:
                h["status"], h["why"] = "undecided", "dereference not shown valid, no failing input: " + h["failed"][0][1]
            failed = [h for h in failed if h not in soft]
            violation = confirm(prop, work, failed, {}, seed, 0, notes) if failed else None
    for k, e in extras.items():
        notes += e.get("notes", [])
        if e.get("violation") and (not violation or (e.get("confirmed") and not violation[1])):
            path = replay_file(prop, **e["violation"])
            violation = (path, e.get("confirmed", True), e["what"])

    # ---- evidence
    full = [h for h in kres if not h["name"].startswith("b_")]
    bnd = [h for h in kres if h["name"].startswith("b_")]
    dec = [h for h in full if h["status"] != "undecided"]
    bdec = [h for h in bnd if h["status"] != "undecided"]
    obligations = sum(h["obligations"] for h in dec) + sum(e.get("obligations", 0) for e in extras.values())
    discharged = sum(h["discharged"] for h in dec) + sum(e.get("discharged", 0) for e in extras.values())
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd=f"python3 check.py {prop}  (Kani {os.path.basename(KANI_LIB)} compiler; CBMC {' '.join(CBMC_SHOW)}; see DESIGN.md)",
        trusted_base=props.TRUSTED + conf.get("trusted", []),
        functions_under_contract=conf.get("functions", []),
        back_ends=sorted({"CBMC/CaDiCaL"} | {b for e in extras.values() for b in e.get("back_ends", [])}) if kres else
        sorted({b for e in extras.values() for b in e.get("back_ends", [])}),
        solver_seconds=round(sum(h["solver_s"] for h in kres) + sum(e.get("solver_s", 0) for e in extras.values()), 1),
        harnesses_proved=[f"{h['full']} ({h['obligations']} obligations, {h['secs']:.0f} s)" for h in full if h["status"] == "proved"],
        harnesses_undecided=[f"{h['full']}: {h['why']}" for h in kres if h["status"] == "undecided"],
        harnesses_failed=[f"{h['full']}: {'; '.join(d for _, d in h['failed'][:4])}" for h in failed],
        bounded=dict(
            note="bounded stand-ins: the bound is on the shape (number of elements, nesting) named in DESIGN.md; never counted as proved",
            harnesses=[f"{h['full']} ({h['obligations']} obligations, {h['secs']:.0f} s)" for h in bnd if h["status"] == "proved"],
            obligations=sum(h["obligations"] for h in bdec), discharged=sum(h["discharged"] for h in bdec)),
        runtime_runs=dict(
            note="the same contracts evaluated natively on generated inputs, debug and release builds, checking allocator; supplementary, never counted as proved",
            runs=sum(a for a, _ in nruns.values()), rejected=sum(b for _, b in nruns.values()), harnesses=len(nruns)),
        evaluations=sum(a for a, _ in nruns.values()) + len(dec) + len(bdec),
        samples=[h["full"] for h in kres[:5]] or [str(s) for e in extras.values() for s in e.get("samples", [])][:5],
        notes=notes)
    for k, e in extras.items():
        cov[k] = e.get("report", {})
    if conf.get("explanation"):
        cov["explanation"] = conf["explanation"]
    ev = dict(property=prop, tier=tier, seed=seed, level=conf.get("level", "proof"), coverage=cov,
              assumptions=props.ASSUMPTIONS + conf.get("assumptions", []),
              wall_s=round(time.time() - T0, 1), violations=1 if violation else 0)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)

    for h in kres:
        if h["status"] != "proved":
            print(f"  {h['status']}: {h['full']}: {h['why'] or '; '.join(d for _, d in h['failed'][:4])}")
    for n in notes:
        print("  note:", n[:600])
    print(f"{prop} [{tier}]: {obligations} obligations, {discharged} discharged "
          f"({len([h for h in full if h['status'] == 'proved'])}/{len(full)} harnesses), "
          f"bounded {len([h for h in bnd if h['status'] == 'proved'])}/{len(bnd)}, "
          f"native runs {sum(a for a, _ in nruns.values())}, {time.time() - T0:.0f} s")
    for line in props.known(prop):
        print(line)
    if violation:
        path, confirmed, what = violation
        print(f"  {what}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if confirmed else " no-failing-input-found"))
        return 1
    if kres and not dec and not bdec and not nruns:
        return 2
    return 0


def refused(out):
    """Errors of a build, if all of them are of code expanded from the derive macros"""
    errors = [e for e in re.split(r"\n(?=error|warning)", out) if re.match(r"error(\[E\d+\])?:", e) and "could not compile" not in e
              and "aborting due to" not in e]
    if errors and all("originates in the derive macro `" in e for e in errors):
        return "\n".join(errors)[:4000]
    return None


CBMC_SHOW = kani.CBMC_FLAGS + ["--sat-solver", "cadical", "--slice-formula"]


def confirm(prop, work, failed, exes, seed, deadline, notes):
    """Looks for a concrete failing input for failed obligations, on the real code"""
    obs = [dict(harness=h["full"], obligations=[d for _, d in h["failed"]], verifier_output=h.get("log", "")) for h in failed]
    only_overflow = all(k == "overflow" for h in failed for k, _ in h["failed"])

    def found(h, build, mode, arg, what):
        path = replay_file(prop, harness=h["native"], mode=mode, arg=arg, build=build, what=what,
                           failed_obligations=obs, replayed=True)
        return (path, True, f"{h['full']} ({build} build): {what}")

    def search(h, secs):
        for k, exe in exes.items():
            f, _, _ = native.sweep(exe, prop, seed + 1000, secs, h["native"])
            if f:
                return found(h, k, "seed", f[0]["seed"], f[0]["what"])

    # cheap ones first: a longer search in the failing harnesses, then the verifier's counterexample
    order = sorted(failed, key=lambda h: h["secs"])
    for h in order[:6]:
        v = search(h, 4)
        if v:
            return v
    left = min(deadline + 200 - time.time(), 150)
    if left >= 20:
        with ThreadPoolExecutor(3) as ex:
            tries = [(h, ex.submit(kani.playback, prop, h["full"], work, h["panics"], left, i))
                     for i, h in enumerate(order[:3])]
        for h, t in tries:
            for vals in t.result():
                arg = ",".join("".join(f"{b:02x}" for b in v) for v in vals)
                for k, exe in exes.items():
                    w = native.replay(exe, prop, h["native"], "draws", arg)
                    if w:
                        return found(h, k, "draws", arg, w)
    if only_overflow:
        notes.append("overflow reported where a panic is required; no build was found in which it does not panic")
        return None
    path = replay_file(prop, what="obligations failed", failed_obligations=obs)
    h = order[0]
    return (path, False, f"{h['full']}: {'; '.join(d for _, d in h['failed'][:4])}")


if __name__ == "__main__":
    sys.exit(main())
