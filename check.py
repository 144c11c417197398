#!/usr/bin/env python3
"""Deterministic simulation of HeuristicFlow: decides one property.

  check.py run C03 [--tier quick|thorough]     search; exit 0 held, 1 violated (line VIOLATION ...), 2 error of the check
  check.py replay FILE                         rebuild and run one replay file again (exit 1 if it still fails)

Everything the search does is a function of VERIF_SEED, of /repo's working tree and of the number of cases that fit
in the time given.  See DESIGN.md.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
NCPU = max(1, min(os.cpu_count() or 4, int(os.environ.get("SIM_JOBS", "64"))))
EIGEN = "/usr/include/eigen3"
WRAPS = ("malloc free calloc realloc posix_memalign aligned_alloc memcpy memmove memset pthread_mutex_lock "
         "pthread_mutex_trylock pthread_mutex_unlock pthread_once time clock_gettime gettimeofday clock rand random srand").split()

GROUPS = {
    "so": ["soga_a", "soga_b", "soga_c", "soga_d", "soga_e", "soga_f", "soga_g", "soga_20"],
    "mo": ["mo", "nsga2_a", "nsga2_b", "nsga2_20", "nsga3_a", "nsga3_b", "nsga3_c", "nsga3_d"],
    "nsga3": ["mo", "nsga3_a", "nsga3_b", "nsga3_c", "nsga3_d"],
    "pso": ["pso", "pso_a", "pso_b", "pso_c", "pso_d", "pso_e", "pso_20"],
    "aos": ["aos", "aos_a", "aos_b", "aos_c", "aos_d", "aos_20"],
    "ops": ["ops", "ops_a", "ops_b", "ops_c", "ops_d", "ops_e", "ops_f", "ops_g", "ops_h", "ops_20"],
    "press": ["press"], "vary": ["vary", "vary_ops"], "varya": ["vary"], "varyb": ["vary_ops"], "varyp": ["vary_pso"], "varys": ["vary_pso"],
    "cont": ["cont_a", "cont_b", "cont_c"],
    "bench": ["bench", "bench_a", "bench_b"],
    "rand": ["rand"],
    "codes": ["codes"],
    "dflt": ["dflt"],
}
SLOW_FIRST = ["nsga3_a", "nsga3_b", "nsga3_c", "nsga3_d", "aos_a", "aos_b", "aos_c", "aos_d", "nsga2_a", "nsga2_b", "press"]

# property: groups of workloads, variants of every case, classes of findings that violate it, build of serial twins
SOLVERS = ["so", "mo", "pso", "aos"]
PROPS = {
    "C01": (SOLVERS, "thr,all,ser0", ["C01:*"]),
    "C02": (SOLVERS, "thr,all", ["race", "rngpar", "threads"]),
    "C03": (SOLVERS, "calm,thr,ser0,ser1", ["diff:thr", "diff:ser"]),
    "C04": (SOLVERS + ["ops", "dflt"], "calm,heap", ["diff:heap", "nondeterminism", "C04:*"]),
    "C05": (SOLVERS, "calm,co", ["diff:co", "C05:*"]),
    "C06": (["so", "mo", "aos"], "calm,all", ["C06:*"]),
    "C07": (["so", "pso", "aos"], "thr,all", ["C07:*"]),
    "C08": (["so", "pso", "aos"], "thr,all", ["C08:*"]),
    "C09": (SOLVERS, "thr,all", ["C09:*"]),
    "C10": (SOLVERS, "thr,all", ["C10:*"]),
    "C11": (["mo"], "thr,all,ser0", ["C11:*"]),
    "C12": (["mo"], "thr,all,ser0", ["C12:*"]),
    "C13": (["nsga3"], "thr,all", ["C13:*"]),
    "C14": (SOLVERS + ["ops", "varyb", "varys"], "calm,all", ["C14:*"]),
    "C15": (["so", "mo", "ops", "vary", "varyb"], "calm,all", ["C15:*"]),
    "C16": (["pso", "varyp"], "thr,all", ["C16:*"]),
    "C17": (["aos", "varya"], "thr,all", ["C17:*"]),
    "C18": (SOLVERS + ["ops"], "calm,all", ["mem", "C18:*"]),
    "C19": (["press"], "calm", ["C19:*"]),
    "C20": (["cont"], "calm,thr,heap", ["C20:*", "mem", "race"]),
    "C23": (["codes"], "calm,thr,heap", ["C23:*", "mem", "race", "diff:heap"]),
    "C22": (["rand"], "calm,heap,all", ["C22:*", "mem", "diff:heap"]),
    "C21": (["bench"], "calm,thr,heap", ["C21:*", "mem", "race", "diff:heap"]),
}
COMMON = ["crash", "hang"]  # a run that dies or never ends decides nothing it should have shown: counts for every property
SECONDS = {"quick": 30, "thorough": 480}


def log(*a):
    print(*a, flush=True)


class CheckError(Exception):
    pass


# ------------------------------------------------------------------------------------------------ build
def units(groups):
    us = ["common", "ga"]
    for g in groups:
        us += [u for u in GROUPS[g] if u not in us]
    us = [u for u in us if os.path.exists(f"{SIM}/harness/{u}.cpp")]
    return sorted(us, key=lambda u: SLOW_FIRST.index(u) if u in SLOW_FIRST else 99)


def build(groups, out, kinds):
    """kinds: tsan (instrumented), ser0 (HEU_NO_THREADS), ser1 (no OpenMP)"""
    base = ["g++", "-std=c++17", "-O1", "-g1", "-w", "-include", f"{SIM}/harness/prelude.hpp", f"-I{REPO}", f"-I{EIGEN}"]
    sut = base + ["-D_GLIBCXX_ASSERTIONS", "-DHEU_SIMULATION"]
    flags = {
        "tsan": ["-fopenmp", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"],
        "ser0": ["-fopenmp", "-DHEU_NO_THREADS"],
        "ser1": [],
    }
    jobs = []
    for k in kinds:
        os.makedirs(f"{out}/{k}", exist_ok=True)
    os.makedirs(f"{out}/rt", exist_ok=True)
    for u in units(groups):
        for k in kinds:
            # units named .._20 are the same library read as C++20: concepts, boxes with their ends as template arguments
            jobs.append(sut + (["-std=c++20"] if u.endswith("_20") else []) + flags[k] + ["-c", f"{SIM}/harness/{u}.cpp", "-o", f"{out}/{k}/{u}.o"])
    for u in ("rt", "main"):
        jobs.append(base + ["-c", f"{SIM}/rt/{u}.cpp", "-o", f"{out}/rt/{u}.o"])

    def one(cmd):
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise CheckError("build failed: " + " ".join(cmd) + "\n" + p.stderr[-3000:])

    def compile(cmd):
        try:
            one(cmd)
        except CheckError as e:
            # C++17 is the language of the library: sources that are not C++20 are no finding, the workloads for it are left out
            u = os.path.basename(cmd[-1])[:-2]
            if not u.endswith("_20"):
                raise
            log(f"not a C++20 source, {u} is left out: {str(e)[-300:]}")
            return u

    with cf.ThreadPoolExecutor(NCPU) as ex:
        left_out = set(ex.map(compile, jobs)) - {None}

    def link(k):
        os_ = [f"{out}/{k}/{u}.o" for u in units(groups) if u not in left_out] + [f"{out}/rt/rt.o", f"{out}/rt/main.o"]
        one(["g++", "-no-pie", "-g1", "-o", f"{out}/{k}/simrun"] + os_ + [f"-Wl,--wrap={w}" for w in WRAPS])

    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(link, kinds))
    return {k: f"{out}/{k}/simrun" for k in kinds}


# ------------------------------------------------------------------------------------------------ running
class Runner:
    def __init__(self, bins, scratch):
        self.bins = bins
        self.exe = bins["tsan"]
        self.scratch = scratch
        self.serial = ",".join(bins[k] for k in ("ser0", "ser1") if k in bins)
        self.n = 0

    def scenarios(self, groups):
        out = subprocess.run([self.exe, "list"], capture_output=True, text=True, check=True).stdout
        names = []
        for l in out.splitlines():
            n, *tags = l.split()
            for g in groups:
                if g in tags or (g == "mo" and n.startswith("nsga")) or (g == "nsga3" and n.startswith("nsga3")):
                    names.append(n)
                    break
        if not names:
            raise CheckError("no scenarios")
        return sorted(set(names))

    def batch(self, **kw):
        f = os.path.join(self.scratch, f"hashes{kw['from']}_{kw['step']}_{kw.pop('tag', 0)}")
        cmd = [self.exe, "batch"] + [f"{k}={v}" for k, v in kw.items()] + [f"serial={self.serial}", f"hashes={f}"]
        p = subprocess.run(cmd, capture_output=True, text=True)
        fails, summ = [], None
        for l in p.stdout.splitlines():
            if l.startswith("FAIL "):
                fails.append(json.loads(l[5:]))
            elif l.startswith("SUM "):
                summ = json.loads(l[4:])
        if p.returncode or summ is None:
            raise CheckError(f"batch worker ended with {p.returncode}: {p.stdout[-500:]}{p.stderr[-500:]}")
        il, hs = set(), set()
        with open(f, "rb") as h:
            d = h.read()
        a, b = struct.unpack_from("QQ", d)
        v = struct.unpack_from(f"{a + b}Q", d, 16)
        il.update(v[:a])
        hs.update(v[a:])
        return fails, summ, il, hs

    def one(self, text, wall=20):
        self.n += 1
        f = os.path.join(self.scratch, f"spec{os.getpid()}_{self.n}")
        with open(f, "w") as h:
            h.write(text)
        p = subprocess.run([self.exe, "one", f"spec={f}", f"serial={self.serial}", f"wall={wall}"], capture_output=True, text=True)
        os.unlink(f)
        if p.returncode:
            raise CheckError(f"simrun one ended with {p.returncode}: {p.stderr[-500:]}")
        return json.loads(p.stdout)


def spec_text(sp):
    t = f"scen {sp['scen']}\nseed {sp['seed']}\nvariants {','.join(sp['variants'])}\n"
    for k, v in sp.get("set", {}).items():
        t += f"set {k} {v}\n"
    for v in sp.get("explicit", {}):
        t += f"explicit {v}\n"
        for e in sp["explicit"][v]:
            t += f"ev {v} {e[0]} {e[1]}:{e[2]}\n"
    return t


def read_spec(path):
    sp = {"set": {}, "explicit": {}, "variants": []}
    for l in open(path):
        w = l.split()
        if not w:
            continue
        if w[0] == "#" and len(w) > 2 and w[1] in ("property:", "class:", "variant:", "repeat:"):
            sp[w[1][:-1]] = w[2]
        if w[0] == "scen":
            sp["scen"] = w[1]
        elif w[0] == "seed":
            sp["seed"] = int(w[1])
        elif w[0] == "variants":
            sp["variants"] = w[1].split(",")
        elif w[0] == "set":
            sp["set"][w[1]] = int(w[2])
        elif w[0] == "explicit":
            sp["explicit"].setdefault(w[1], [])
        elif w[0] == "ev":
            p, v = w[3].split(":")
            sp["explicit"].setdefault(w[1], []).append([w[2], int(p), int(v)])
    return sp


def match(cls, c):
    return any(c == w or (w.endswith("*") and c.startswith(w[:-1])) for w in cls)


def find(res, cls, variant=None):
    for f in res["findings"]:
        if f["cls"] == cls and (variant is None or f["variant"] == variant):
            return f
    return None


def fingerprint(res):
    return [(v, d["hist"], d["nhist"], d["steps"], d["il"], d["aborted"]) for v, d in sorted(res["variants"].items())]


def minimise(rn, sp, cls, variant, deadline):
    """drop parameters, then schedule and fault events, while the same class of violation persists"""
    runs = [0]

    def bad(s):
        if time.time() > deadline:
            return False
        runs[0] += 1
        return find(rn.one(spec_text(s), wall=8), cls, variant) is not None

    def clone(s):
        return {**s, "set": dict(s["set"]), "explicit": {k: list(v) for k, v in s["explicit"].items()}}

    res = rn.one(spec_text(sp))
    # parameters: the quiet value first, then halfway towards it
    for rounds in range(3):
        changed = False
        params = {}
        for v in sp["variants"]:
            for n, lo, hi, calm, val in res["variants"].get(v, {}).get("params", []):
                params.setdefault(n, (lo, hi, calm, val))
        names = sorted(params, key=lambda n: (n != "ops", n.endswith("salt"), list(params).index(n)))
        for n in names:
            lo, hi, calm, val = params[n]
            if val == calm or n.endswith(".explicit") or n.endswith("salt"):
                continue
            for t in ([calm] if abs(val - calm) < 3 else [calm, calm + (val - calm) // 2]):
                c = clone(sp)
                c["set"][n] = t
                if bad(c):
                    sp, changed = c, True
                    break
        if not changed or time.time() > deadline:
            break
        res = rn.one(spec_text(sp))
    # schedule and fault events
    res = rn.one(spec_text(sp))
    for v in sp["variants"]:
        d = res["variants"].get(v)
        if not d or d["evfull"] or not d["ev"] or v in sp["explicit"]:
            continue
        c = clone(sp)
        c["explicit"][v] = d["ev"]
        if not bad(c):
            continue
        sp = c
        ev = list(d["ev"])
        n = 1
        while ev and time.time() < deadline:
            size = max(1, (len(ev) + n - 1) // n)
            hit = False
            i = 0
            while i < len(ev):
                c = clone(sp)
                c["explicit"][v] = ev[:i] + ev[i + size:]
                if bad(c):
                    sp, ev, hit = c, c["explicit"][v], True
                else:
                    i += size
            if size == 1 and not hit:
                break
            if size > 1:
                n = min(len(ev), n * 2) or 1
    return sp, runs[0]


EVENTS = {"P": "preemption at step {0}, thread {1} goes on", "T": "parallel region {0} gets a team of {1}",
          "D": "decision {0} of the scheduler is {1}", "R": "random draw {0} is the {1} one"}


# ------------------------------------------------------------------------------------------------ known findings
def known(prop):
    fs = []
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) class=(\S+) scen=(\S+) what=(.*)", l.strip())
        if m and m.group(1) == prop:
            fs.append(m.groups())
    return fs


def is_known(kn, f):
    for k in kn:
        if k[1] == f["cls"] and re.fullmatch(k[2], f["scen"]):
            return k
    return None


# ------------------------------------------------------------------------------------------------ main
REAL = ["all of /repo's solvers, selectors, operators, boxes and containers (compiled from the working tree)", "Eigen",
        "libstdc++ containers and distributions", "the mt19937 algorithm (behind a counting seam)"]
STUB = ["libgomp (teams, chunks, barriers, critical sections: cooperative fibers under the seeded scheduler)",
        "the heap allocator (seeded arena)", "std::random_device, rand(), clocks, processor count (seeded)",
        "the ThreadSanitizer runtime (our own: preemption, happens-before races, lifetime and bounds of arena memory)"]


def gate_and_report(rn, prop, variants, cands, scratch, budget):
    """confirm in fresh processes, minimise, write the replay file"""
    byc = {}
    for f in cands:
        byc.setdefault(f["cls"], []).append(f)
    done, unconfirmed = [], []
    for cls in sorted(byc, key=lambda c: (c in COMMON, c)):
        if len(done) >= 3:
            break
        ok = None
        for f in sorted(byc[cls], key=lambda f: f["case"])[:4]:
            sp = {"scen": f["scen"], "seed": f["seed"], "set": {}, "explicit": {},
                  "variants": [v for v in variants.split(",") if v == f["variant"] or (v == "calm" and cls.startswith("diff:"))]}
            a, b = rn.one(spec_text(sp)), rn.one(spec_text(sp), wall=40)
            fa, fb = find(a, cls, f["variant"]), find(b, cls, f["variant"])
            same = fingerprint(a) == fingerprint(b)
            if fa and fb and (same or "wall-clock" in fa["msg"]):
                ok = (f, sp, fa)
                break
        if not ok:
            unconfirmed.append(cls)
            continue
        f, sp, fa = ok
        t = time.time()
        sp, runs = minimise(rn, sp, cls, f["variant"], time.time() + budget / max(1, min(3, len(byc))))
        a = rn.one(spec_text(sp), wall=40)
        fm = find(a, cls, f["variant"]) or fa
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        path = f"{VERIF}/replays/{prop}-{re.sub('[^A-Za-z0-9]', '_', cls)}.txt"
        with open(path, "w") as h:
            h.write(f"# property: {prop}\n# class: {cls}\n# variant: {f['variant']}\n# {fm['msg']} (during: {fm['phase']})\n"
                    f"# found in case {f['case']}, minimised in {runs} runs; replay with: python3 check.py replay {path}\n"
                    "# events: " + "; ".join(f"{k} = " + v.format("p", "v") for k, v in EVENTS.items()) + "\n")
            h.write(spec_text(sp))
        log(f"  {cls} [{f['scen']}, variant {f['variant']}] {fm['msg']}")
        log(f"  minimised in {runs} runs, {time.time() - t:.0f} s: {len(sp['set'])} parameters fixed, "
            f"{sum(len(v) for v in sp['explicit'].values())} schedule and fault events left")
        done.append((cls, path, fm["msg"], f))
    return done, unconfirmed


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    groups, variants, cls = PROPS[prop]
    cls = cls + COMMON
    seconds = float(os.environ.get("SIM_SECONDS", SECONDS[tier]))
    log(f"{prop}: VERIF_SEED={seed} tier={tier} jobs={NCPU}")
    os.makedirs(f"{VERIF}/build", exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f"{prop}.", dir=f"{VERIF}/build")
    try:
        kinds = ["tsan"] + [k for k in ("ser0", "ser1") if k in variants]
        bins = build(groups, scratch, kinds)
        tb = time.time() - t0
        rn = Runner(bins, scratch)
        scens = rn.scenarios(groups)
        log(f"  built {', '.join(kinds)} in {tb:.0f} s; {len(scens)} workloads; variants {variants}; searching for {seconds:.0f} s")
        # determinism: the same cases twice, in one process and spread over several
        ndet = 2 * len(scens)
        common = dict(seed=seed, scen=",".join(scens), cls=",".join(cls), maxfail=100000)

        def det(k):
            return rn.batch(**common, variants=variants, **{"from": k, "step": 4, "max": (ndet - k + 3) // 4, "seconds": 1e6, "tag": "d1"})

        def det1(k):
            return rn.batch(**common, variants=variants, **{"from": k, "step": 3, "max": (ndet - k + 2) // 3, "seconds": 1e6, "tag": "d2"})

        with cf.ThreadPoolExecutor(NCPU) as ex:
            ra = [ex.submit(det, k) for k in range(4)]
            rb = [ex.submit(det1, k) for k in range(3)]
            ra, rb = [x.result() for x in ra], [x.result() for x in rb]
        ha, hb, ia, ib = set(), set(), set(), set()
        for r in ra:
            ia |= r[2]
            ha |= r[3]
        for r in rb:
            ib |= r[2]
            hb |= r[3]
        det_ok = ha == hb and ia == ib
        nondet = None
        if not det_ok:
            log(f"  the same {ndet} cases run twice gave {len(ha ^ hb)} differing histories and {len(ia ^ ib)} differing schedules")
            if prop == "C04":
                nondet = find_nondet(rn, scens, seed, ndet, variants)
        ts = time.time()
        with cf.ThreadPoolExecutor(NCPU) as ex:
            fu = [ex.submit(lambda k: rn.batch(**{**common, "maxfail": 3}, variants=variants,
                                               **{"from": k, "step": NCPU, "max": 10 ** 9, "seconds": seconds}), k) for k in range(NCPU)]
            rs = [x.result() for x in fu]
        tsearch = time.time() - ts
        fails, tot, il, hs = [], {}, set(), set()

        def add(a, b):
            for k, v in b.items():
                if isinstance(v, dict):
                    add(a.setdefault(k, {}), v)
                elif k == "max_team":
                    a[k] = max(a.get(k, 0), v)
                else:
                    a[k] = a.get(k, 0) + v

        for r in rs:
            fails += r[0]
            add(tot, r[1])
            il |= r[2]
            hs |= r[3]
        kn = known(prop)
        shown = set()
        real = []
        for f in fails:
            k = is_known(kn, f)
            if k:
                shown.add(k)
            else:
                real.append(f)
        for k in kn:
            if k in shown:
                log(f"KNOWN-FINDING: property={prop} {k[3]}")
        done, unconf = gate_and_report(rn, prop, variants, real, scratch, 45 if tier == "quick" else 240)
        if nondet:
            done.append(nondet)
        runs = sum(tot["variants"].values())
        samples = []
        for k in range(2):
            s = rn.one(f"scen {scens[k * 7 % len(scens)]}\nseed {seed * 1000 + k}\nvariants {variants}\n")
            samples.append({"workload": s["scen"], "seed": s["seed"],
                            "variants": {v: {"steps": d["steps"], "history": d["hist"], "observations": d["nhist"],
                                             "parameters": {p[0]: p[4] for p in d["params"]}, "schedule_and_fault_events": len(d["ev"]),
                                             "first_events": d["ev"][:12]} for v, d in s["variants"].items()}})
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": runs,
                "distinct_nontrivial": len(hs),
                "rule": "evaluations counts simulated executions (one case in one environment variant); a case is a workload of 1-4 "
                        "solver operations with parameters drawn from its seed; distinct_nontrivial counts distinct hashes of the "
                        "whole recorded history of observables among executions that recorded at least one observation",
                "samples": samples,
                "cases_seeds": tot["cases"],
                "runs_per_hour": int(runs / max(tsearch, 1e-9) * 3600),
                "seeds_per_hour": int(tot["cases"] / max(tsearch, 1e-9) * 3600),
                "simulated_time_steps": tot["steps"],
                "simulated_time_note": "the library reads no clock; simulated time is the number of instrumented memory accesses executed",
                "distinct_interleavings": len(il),
                "interleaving_measure": "hash of the sequence of (thread switched to, step) over all parallel regions of a run",
                "largest_team": tot["max_team"],
                "faults_and_nondeterminism_injected": tot["cnt"],
                "rare_conditions_reached": tot["probes"],
                "totals": tot["stats"],
                "runs_per_variant": tot["variants"],
                "cases_per_workload": tot["scen"],
                "findings_of_other_properties": tot["other"],
                "determinism": {"cases_run_twice": ndet, "histories": len(ha), "schedules": len(ia), "identical": det_ok},
                "real_components": REAL, "stubbed_components": STUB,
                "build_seconds": round(tb, 1), "search_seconds": round(tsearch, 1),
            },
            "assumptions": ["the sequentially consistent interleavings at instrumented accesses stand for the schedules of a real team",
                            "user callbacks are deterministic functions of their arguments"],
            "wall_s": round(time.time() - t0, 1),
            "violations": len(done),
        }
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{prop}.json", "w") as h:
            json.dump(ev, h, indent=1)
        log(f"  {tot['cases']} cases, {runs} runs, {len(hs)} distinct histories, {len(il)} distinct interleavings, "
            f"{tot['steps'] / 1e6:.0f}M steps in {tsearch:.0f} s; determinism {'ok' if det_ok else 'BROKEN'}; total {time.time() - t0:.0f} s")
        for c, path, msg, f in done:
            log(f"VIOLATION property={prop} replay={path}")
        if done:
            return 1
        if unconf:
            log(f"ERROR: findings that do not reproduce: {unconf}")
            return 2
        if not det_ok and prop != "C04" and not real:
            log("ERROR: the simulation is not deterministic")
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def find_nondet(rn, scens, seed, ndet, variants):
    M = (1 << 64) - 1

    def mix(z):
        z = (z + 0x9e3779b97f4a7c15) & M
        z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M
        z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M
        return z ^ (z >> 31)

    for i in range(ndet):
        sp = {"scen": scens[i % len(scens)], "seed": mix(mix(seed) ^ ((i * 0x9e3779b97f4a7c15) & M)), "variants": ["calm"], "set": {}, "explicit": {}}
        fp = {str(fingerprint(rn.one(spec_text(sp)))) for _ in range(6)}
        if len(fp) > 1:
            os.makedirs(f"{VERIF}/replays", exist_ok=True)
            path = f"{VERIF}/replays/C04-nondeterminism.txt"
            with open(path, "w") as h:
                h.write("# property: C04\n# class: nondeterminism\n# repeat: 12\n# the same seed gives different histories\n" + spec_text(sp))
            log(f"  nondeterminism [{sp['scen']}]: {len(fp)} different histories in 6 runs of one seed")
            return ("nondeterminism", path, "the same seed gives different histories", {})
    return None


def replay(path):
    sp = read_spec(path)
    prop = sp.get("property", "C18")
    groups, _, cls = PROPS[prop]
    os.makedirs(f"{VERIF}/build", exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="replay.", dir=f"{VERIF}/build")
    try:
        kinds = ["tsan"] + (["ser0", "ser1"] if any(v.startswith("ser") for v in sp["variants"]) else [])
        rn = Runner(build(groups, scratch, kinds), scratch)
        if "repeat" in sp:
            fps = {str(fingerprint(rn.one(spec_text(sp)))) for _ in range(int(sp["repeat"]))}
            if len(fps) > 1:
                log(f"{len(fps)} different histories of one seed")
                log(f"VIOLATION property={prop} replay={path}")
                return 1
            log("one history")
            return 0
        res = rn.one(spec_text(sp), wall=60)
        hit = False
        for f in res["findings"]:
            log(f"  {f['cls']} variant {f['variant']} during {f['phase']}: {f['msg']}")
            hit = hit or match(cls + COMMON, f["cls"])
        if hit:
            log(f"VIOLATION property={prop} replay={path}")
            return 1
        log("no violation")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main(a):
    try:
        if len(a) >= 2 and a[0] == "run" and a[1] in PROPS:
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--tier" in a:
                tier = a[a.index("--tier") + 1]
            return run(a[1], tier if tier in SECONDS else "quick")
        if len(a) == 2 and a[0] == "replay":
            return replay(a[1])
    except CheckError as e:
        log("ERROR:", e)
        return 2
    log(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
