"""C11: configurations and types are accepted or rejected by the compiler.

Two parts. (1) The body of the const assertion every constructor evaluates is extracted from the
current source on every run (dropping only the `Self::` in front of the four parameters and the const
context) and proved by Kani/CBMC to pass exactly for valid configurations, over all 2^256 of them.
(2) That constructors evaluate it, and that storing a type evaluates the type assertion, is decided by
the pinned compiler, on programs generated here: each one either compiles or does not.
"""
import glob, os, random, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import kani, native
from common import *

IMAX = (1 << 63) - 1


def valid(sa, mva, va, mx):
    p2 = lambda x: x > 0 and x & (x - 1) == 0
    return (p2(sa) and sa < IMAX and p2(mva) and mva <= sa and p2(va) and va <= mva
            and 0 < mx <= IMAX - (sa - 1) and mx % mva == 0)


def configs(thorough, seed):
    big = 1 << 30
    lim = lambda sa: IMAX - (sa - 1)
    good = [(1, 1, 1, 1), (1, 1, 1, IMAX), (2, 2, 1, 2), (16, 16, 8, lim(16)), (16, 16, 16, 16), (16, 8, 8, 8), (64, 32, 4, 96),
            (4096, 8, 4, 24 << 20), (4096, 4096, 4096, 4096), (32, 32, 1, 64), (8, 1, 1, 7), (16, 16, 8, 1 << 32),
            (64, 16, 2, lim(64)), (1 << 20, 1 << 20, 1, 1 << 20), (1 << 40, 1 << 30, 8, 1 << 30), (1 << 62, 16, 8, 1 << 62), (2, 1, 1, 3)]
    bad = [(0, 16, 8, 16), (0, 0, 0, 0), (0, 0, 0, 16), (3, 1, 1, 3), (24, 8, 8, 24), (48, 16, 8, 48), (12, 4, 4, 12), (1 << 63, 16, 8, 16),
           ((1 << 64) - 1, 1, 1, 1), ((1 << 63) + 2, 2, 1, 2), (6, 2, 2, 6), (17, 1, 1, 17),
           (16, 0, 8, 16), (16, 0, 0, 16), (16, 32, 8, 32), (16, 12, 4, 12), (16, 3, 1, 3), (64, 24, 8, 24), (16, 17, 1, 17), (8, 16, 8, 16), (1, 2, 1, 2),
           (64, 48, 16, 48), (32, 6, 2, 6),
           (16, 16, 0, 16), (16, 16, 3, 16), (16, 16, 12, 16), (16, 8, 16, 8), (16, 8, 9, 8), (64, 16, 32, 16), (64, 32, 64, 32), (16, 16, 6, 16), (1, 1, 2, 1),
           (32, 32, 24, 32), (16, 16, 15, 16),
           (16, 16, 8, 0), (1, 1, 1, 0), (16, 16, 8, 8), (16, 16, 8, 24), (16, 16, 8, 17), (16, 8, 8, 12), (32, 32, 8, 16), (16, 16, 8, lim(16) + 1),
           (16, 8, 8, lim(16) + 8), (16, 1, 1, lim(16) + 1), (16, 8, 8, lim(16) + 16), (64, 16, 8, lim(64) + 16), (64, 16, 8, lim(64) + 48), (4096, 8, 8, lim(4096) + 8),
           (1, 1, 1, IMAX + 1), (16, 16, 8, (1 << 64) - 16), (1 << 62, 16, 8, (1 << 62) + 16), (1, 1, 1, (1 << 64) - 1), (2, 2, 1, (1 << 32) + 1), (4, 4, 1, 6)]
    for c in good:
        assert valid(*c), c
    for c in bad:
        assert not valid(*c), c
    r = random.Random(seed)
    al = [1, 2, 4, 8, 16, 32, 64, 128, 4096]
    for _ in range(400 if thorough else 24):
        c = [r.choice(al + [0, 3, 6, 10, 24, 40, 96]), r.choice(al + [0, 3, 12]), r.choice(al + [0, 5, 24]),
             r.choice([0, 1, 7, 16, 24, 48, 4096, 4100, 1 << 32, IMAX, IMAX + 1, r.randrange(1, 1 << 40)])]
        c = tuple(c)
        if r.random() < 0.6:   # valid but for at most one parameter
            sa = r.choice(al)
            mva = r.choice([a for a in al if a <= sa])
            va = r.choice([a for a in al if a <= mva])
            g = [sa, mva, va, mva * r.randrange(1, 1 << 20)]
            k = r.randrange(5)
            if k < 4:
                g[k] = c[k]
            c = tuple(g)
        (good if valid(*c) else bad).append(c)
    return sorted(set(good)), sorted(set(bad))


# name -> statement; S is the storage type, P/O/C the serializers over it
MAKE = {
    "new": "let s = S::new(); std::mem::forget(s);",
    "with_capacity": "let s = S::with_capacity(n()); std::mem::forget(s);",
    "with_capacity_unchecked": "let s = unsafe { S::with_capacity_unchecked(n()) }; std::mem::forget(s);",
    "pure_new": "let s = P::new(); std::mem::forget(s);",
    "pure_with_capacity": "let s = P::with_capacity(n()); std::mem::forget(s);",
    "offset_new": "let s = O::new(); std::mem::forget(s);",
    "offset_with_capacity": "let s = O::with_capacity(n()); std::mem::forget(s);",
    "complete_new": "let s = C::new(); std::mem::forget(s);",
    "complete_with_capacity": "let s = C::with_capacity(n()); std::mem::forget(s);",
}
STORE = {
    "push": "let mut s = S::new(); s.push(&v()); std::mem::forget(s);",
    "push_slice": "let mut s = S::new(); s.push_slice(&[v()]); std::mem::forget(s);",
    "push_empty": "let mut s = S::new(); s.push_empty::<T>(); std::mem::forget(s);",
    "push_empty_slice": "let mut s = S::new(); s.push_empty_slice::<T>(n()); std::mem::forget(s);",
    "ser_push_empty": "let mut s = C::new(); s.push_empty::<T>(); std::mem::forget(s);",
    "ser_push_empty_slice": "let mut s = O::new(); s.push_empty_slice::<T>(n()); std::mem::forget(s);",
    "serialize_pure": "let r = P::new().serialize(&v()); std::mem::forget(r);",
    "serialize_offset": "let r = O::new().serialize(&v()); std::mem::forget(r);",
    "serialize_complete": "let r = C::new().serialize(&v()); std::mem::forget(r);",
    "serialize_box": "let r = C::new().serialize(&Box::new(v())); std::mem::forget(r);",
    "serialize_vec": "let r = P::new().serialize(&(vec![v()], 1u8)); std::mem::forget(r);",
    "push_raw": "let mut s = P::new(); s.push_raw(&v()); std::mem::forget(s);",
    "push_raw_slice": "let mut s = C::new(); s.push_raw_slice(&[v()]); std::mem::forget(s);",
}


def program(stmts, cfg, ty=None):
    sa, mva, va, mx = cfg
    t = ""
    if ty:
        al, size = ty
        t = (f"#[derive(Clone, Copy)] #[repr(C, align({al}))] pub struct T([u8; {size}]);\n"
             f"impl<X: Serializer> Serialize<X> for T {{ fn serialize_data(&self, _: &mut X) {{}} }}\n"
             f"fn v() -> T {{ T([0; {size}]) }}\n")
    return ("#![allow(warnings)]\nuse ser_raw::{*, storage::*};\n"
            f"type S = AlignedVec<{sa}, {mva}, {va}, {mx}>;\n"
            f"type P = PureCopySerializer<{sa}, {mva}, {va}, {mx}, S>;\n"
            f"type O = PtrOffsetSerializer<{sa}, {mva}, {va}, {mx}, S>;\n"
            f"type C = CompleteSerializer<{sa}, {mva}, {va}, {mx}, S>;\n"
            "fn n() -> usize { std::env::args().count() }\n" + t +
            "fn main() {\n" + "\n".join(f"  {{ {s} }}" for s in stmts) + "\n}\n")


class Rustc:
    def __init__(self, work):
        self.dir = f"{work}/c11"
        os.makedirs(self.dir, exist_ok=True)
        self.n = 0

    def build(self, work):
        exe, r = native.build("C10", work + "/c11lib", False)
        rl = sorted(glob.glob(f"{work}/c11lib/native/debug/deps/libser_raw-*.rlib"), key=os.path.getmtime)
        if not exe or not rl:
            return r.out[-1500:]
        self.deps, self.rlib = os.path.dirname(rl[-1]), rl[-1]
        return None

    def __call__(self, k, src, opt):
        d = f"{self.dir}/{k}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/p.rs", "w").write(src)
        r = run([PINNED + "rustc", "--edition", "2021", "--crate-type", "bin", "--emit=obj", "-C", f"opt-level={opt}",
                 "-C", "codegen-units=1", "--extern", f"ser_raw={self.rlib}", "-L", f"dependency={self.deps}",
                 "-o", f"{d}/p.o", f"{d}/p.rs"], 120, native_env(), d)
        shutil.rmtree(d, ignore_errors=True)
        const = "evaluation of" in r.out or "E0080" in r.out
        if r.rc == 0:
            return "compiles", ""
        if r.rc == 1 and not r.timed_out and re.search(r"^error", r.out, re.M):
            return ("rejected" if const else "error"), r.out[-800:]
        return "unknown", r.out[-800:]


def battery(work, thorough, seed):
    t0 = time.time()
    out = dict(notes=[])
    rc = Rustc(work)
    e = rc.build(work)
    if e:
        out["notes"].append("ser_raw could not be built for the compile battery: " + e)
        return out
    good, bad = configs(thorough, seed)
    jobs = []       # (should compile, key, program, opt)
    for i, c in enumerate(good):
        jobs.append((True, ("make", c), program(MAKE.values(), c), 0))
    r = random.Random(seed)
    base = ["new", "with_capacity", "with_capacity_unchecked"]
    others = [k for k in MAKE if k not in base]
    ctl = {}
    for i, c in enumerate(bad):
        names = list(MAKE) if thorough else [base[i % 3], base[(i + 1) % 3], others[i % 6]] if i % 2 else [base[i % 3]]
        for k in names:
            jobs.append((False, (k, c), program([MAKE[k]], c), 0))
            ctl[k] = None
    # types: (config, alignment, size)
    tys = []
    for c in [(16, 16, 8, 1 << 20), (64, 8, 4, 1 << 20), (32, 1, 1, 1 << 20), (16, 16, 16, 1 << 20), (4096, 32, 1, 1 << 20)]:
        m = c[1]
        tys += [(c, m, m, True), (c, m * 2, m * 2, False)]
        if m == 16 or thorough:
            tys += [(c, m * 2, 0, False), (c, 256, 512, False), (c, m, 0, True)]
    for i, (c, al, size, ok) in enumerate(tys):
        if ok:
            jobs.append((True, ("store", c, al, size), program([v for k, v in STORE.items() if c[1] >= 8 or k not in ("serialize_box", "serialize_vec")], c, (al, size)), 0))
        else:
            for j, k in enumerate(STORE):
                if size == 0 and k in ("serialize_box", "serialize_vec"):
                    continue        # owned zero-sized data is never stored
                if thorough or i < 2 or size == 0 or (i + j) % 3 == 0:
                    jobs.append((False, (k, c, al, size), program([STORE[k]], c, (al, size)), 0))
                    ctl[k] = None
    # each kind of program must compile when valid
    for k in ctl:
        st = MAKE.get(k) or STORE[k]
        jobs.append((True, ("control", k), program([st], (16, 16, 8, 1 << 20), (16, 16)), 0))
    if thorough:
        jobs += [(a, b, p, 3) for a, b, p, _ in jobs if r.random() < 0.3]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda x: rc(x[0], x[1][2], x[1][3]), enumerate(jobs)))
    control = {b[1]: v == "compiles" for (a, b, p, o), (v, _) in zip(jobs, res) if b[0] == "control"}
    wrong, unknown = [], []
    for (a, b, p, o), (v, msg) in zip(jobs, res):
        if v == "unknown":
            unknown.append((b, msg))
        elif a and v == "rejected":
            wrong.append((b, p, o, "a valid program is rejected", msg))
        elif a and v == "error":
            unknown.append((b, msg))
        elif not a and v == "compiles" and control.get(b[0]):
            wrong.append((b, p, o, "an invalid program compiles", msg))
        elif not a and not control.get(b[0]):
            unknown.append((b, "its valid counterpart does not compile"))
    dec = len(jobs) - len(unknown)
    out.update(obligations=0, discharged=0, solver_s=0,
               report=dict(note="programs decided by the pinned compiler: bounded to the configurations and types generated, not counted as proved",
                           programs=len(jobs), decided=dec, wrong=len(wrong), valid_configurations=len(good), invalid_configurations=len(bad),
                           constructors=list(MAKE), stores=list(STORE), secs=round(time.time() - t0, 1)),
               samples=[str(j[1]) for j in jobs[:5]])
    for b, m in unknown[:5]:
        out["notes"].append(f"undecided program {b}: {m[-300:]}")
    if wrong:
        b, p, o, what, msg = wrong[0]
        out.update(violation=dict(what=f"{what}: {b}", program=p, opt_level=o, expected=what, compiler_output=msg,
                                  others=[str(w[0]) for w in wrong[1:20]], replayed=True), confirmed=True, what=f"{what}: {b}")
    return out


LIB = r'''
#![allow(dead_code, unused, non_snake_case)]
#[cfg(kani)]
mod proofs {
	use ser_raw::util::*;
	use std::mem;

	// ---- extracted from /repo on this run
	fn asserted(STORAGE_ALIGNMENT: usize, MAX_VALUE_ALIGNMENT: usize, VALUE_ALIGNMENT: usize, MAX_CAPACITY: usize) {
		let _: () = %s;
	}
	// ---- end of extracted text

	fn p2(x: usize) -> bool {
		x != 0 && x & (x - 1) == 0
	}
	fn valid(sa: usize, mva: usize, va: usize, max: usize) -> bool {
		p2(sa) && sa < isize::MAX as usize && p2(mva) && mva <= sa && p2(va) && va <= mva
			&& max > 0 && max <= isize::MAX as usize - (sa - 1) && max & (mva - 1) == 0
	}
	#[kani::proof]
	fn h_valid_configurations_are_accepted() {
		let (sa, mva, va, max): (usize, usize, usize, usize) = kani::any();
		kani::assume(valid(sa, mva, va, max));
		asserted(sa, mva, va, max);
		kani::cover(true, "REACH: end of harness");
	}
	#[kani::proof]
	fn p_invalid_configurations_are_rejected() {
		let (sa, mva, va, max): (usize, usize, usize, usize) = kani::any();
		kani::assume(!valid(sa, mva, va, max));
		asserted(sa, mva, va, max);
		kani::cover(true, "NOPANIC: invalid configuration passes the assertion");
	}
}
'''


def extract():
    """The text of the assertion's body, and where it is"""
    for f in sorted(glob.glob(f"{REPO}/ser_raw/src/**/*.rs", recursive=True)):
        s = open(f).read()
        m = re.search(r"const\s+ASSERT_ALIGNMENTS_VALID\s*:\s*\(\)\s*=\s*", s)
        if not m:
            continue
        i = m.end()
        d, j = 0, i
        while j < len(s):
            c = s[j]
            if s.startswith("//", j):
                j = s.index("\n", j)
                continue
            if c == '"':
                j += 1
                while s[j] != '"':
                    j += 2 if s[j] == "\\" else 1
            elif c in "{([":
                d += 1
            elif c in "})]":
                d -= 1
            elif c == ";" and d == 0:
                break
            j += 1
        body = s[i:j]
        return re.sub(r"\bSelf::(STORAGE_ALIGNMENT|MAX_VALUE_ALIGNMENT|VALUE_ALIGNMENT|MAX_CAPACITY)\b", r"\1", body), f
    return None, None


def predicate(work, thorough, seed):
    out = dict(notes=[])
    body, where = extract()
    if body is None:
        out["notes"].append("the configuration assertion was not found; only the compile battery decides")
        return out
    crate = f"{work}/predicate"
    os.makedirs(f"{crate}/src", exist_ok=True)
    src = f"{VERIF}/harness/kani"
    shutil.copy(f"{src}/Cargo.lock", f"{crate}/Cargo.lock")
    toml = open(f"{src}/Cargo.toml").read().replace('path = "../src/lib.rs"', 'path = "src/lib.rs"')
    open(f"{crate}/Cargo.toml", "w").write(toml)
    open(f"{crate}/src/lib.rs", "w").write(LIB % body)
    hs, r = kani.codegen("C11", f"{work}/pk", False, False, 300, crate=crate)
    if hs is None:
        out["notes"].append("the extracted configuration assertion could not be compiled; only the compile battery decides: " + r.out[-600:])
        return out
    for h in hs:
        h["panics"] = h["name"].startswith("p_")
    os.makedirs(f"{work}/pg", exist_ok=True)
    res = kani.check_all(hs, f"{work}/pg", 200, time.time() + 300)
    out.update(obligations=sum(h["obligations"] for h in res if h["status"] != "undecided"),
               discharged=sum(h["discharged"] for h in res if h["status"] != "undecided"),
               back_ends=["CBMC/CaDiCaL"], solver_s=sum(h["solver_s"] for h in res),
               report=dict(extracted_from=os.path.relpath(where, REPO), dropped="`Self::` before the four parameters, const evaluation",
                           harnesses=[f"{h['name']}: {h['status']} ({h['obligations']} obligations)" for h in res]),
               samples=[h["name"] for h in res])
    for h in res:
        if h["status"] == "undecided":
            out["notes"].append(f"undecided: {h['name']}: {h['why']}")
    bad = [h for h in res if h["status"] == "failed"]
    if bad:
        # a configuration: the compiler decides on it
        for h in bad:
            cex = counterexample(crate, work, h)
            if cex:
                rc = Rustc(work + "/cex")
                if not rc.build(work + "/cex"):
                    ok = valid(*cex)
                    p = program([MAKE["new"]], cex)
                    v, msg = rc(0, p, 0)
                    if (v == "rejected") == ok and v in ("rejected", "compiles"):
                        w = f"configuration {cex} is " + ("rejected" if ok else "accepted")
                        out.update(violation=dict(what=w, program=p, opt_level=0, failed_obligations=[d for _, d in h["failed"]], replayed=True),
                                   confirmed=True, what=w)
                        return out
        h = bad[0]
        out.update(violation=dict(what="obligations failed", failed_obligations=[d for _, d in h["failed"]], verifier_output=h.get("log", "")),
                   confirmed=False, what=f"{h['name']}: {'; '.join(d for _, d in h['failed'][:3])}")
    return out


def counterexample(crate, work, h):
    cmd = ["cargo", "kani", "-Z", "concrete-playback", "--concrete-playback=print", "--harness", h["full"], "--exact",
           "--target-dir", f"{work}/pcex"]
    if h["panics"]:
        # ask for a run that reaches the end
        s = open(f"{crate}/src/lib.rs").read()
        open(f"{crate}/src/lib.rs", "w").write(s.replace('kani::cover(true, "NOPANIC: invalid configuration passes the assertion");',
                                                         'kani::cover(true, "passes");'))
    r = run(cmd, 120, kani.kani_env(False), crate)
    for m in re.finditer(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\];", r.out, re.S):
        vals = [int.from_bytes(bytes(int(b) for b in v.split(",") if b.strip()), "little")
                for v in re.findall(r"vec!\[([\d, ]*)\]", m.group(1))]
        if len(vals) == 4 and (not valid(*vals)) == h["panics"]:
            return tuple(vals)
    return None
