"""Runs the contracts, lemmas and replay of one property; prints the verdict; writes the evidence file."""
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

import build
from core import Unsupported

VERIF = build.VERIF


class Unit:
    """one function (group) under contract.  make() -> Contract, run in a child process"""

    def __init__(self, name, sources, make, shim=False, budget=500, extra=(), other=None):
        self.name = name
        self.sources = sources      # files compiled to IR
        self.make = make            # function(prog) -> Contract | list of obligations runner
        self.shim = shim
        self.budget = budget
        self.extra = extra
        self.other = other          # the same contract with another grain of steps: either one decides


class Lemma:
    """consequences drawn from the specification functions alone"""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn                # () -> list of (obligation name, status, detail)


class Property:
    def __init__(self, pid, units, lemmas, audit, trusted, assumptions, level="proof", rule=""):
        self.level = level
        self.rule = rule
        self.id = pid
        self.units = units
        self.lemmas = lemmas
        self.audit = audit          # Audit or None
        self.trusted = trusted
        self.assumptions = assumptions


def load_program(sources, shim, extra=()):
    import irparse
    from vm import Program
    prog = Program()
    procs = []
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(lambda s: build.to_ir(s, shim, extra), sources))
    for i, o in enumerate(outs):
        prog.add(irparse.parse_module(o, i))
    prog.finish()
    import lib
    lib.init_globals(prog)
    return prog


def model_hints(m):
    out = {}
    if m is None:
        return out
    try:
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                t = str(v)
                if len(t) < 200:
                    out[d.name()] = t
    except Exception:
        pass
    return out


def run_unit(args):
    u, tier = args
    res = run_made(u, tier, u.make, u.budget)
    left = u.budget - res["wall"]
    if u.other and (res["failed"] or res["unknown"] or res["unsupported"]) and left > 60:
        r2 = run_made(u, tier, u.other, left)
        if not (r2["failed"] or r2["unknown"] or r2["unsupported"]):
            return r2
        if res["unsupported"] and not r2["unsupported"]:
            return r2
    return res


def run_made(u, tier, make, budget):
    import core
    import sim as simmod
    core.STATS.__init__()
    t0 = time.time()
    res = {"unit": u.name, "obs": 0, "discharged": 0, "trivial": 0, "failed": [], "unknown": [], "unsupported": None,
           "inlined": [], "contracts": [], "nodes": 0, "paths": 0, "kinds": {}}
    try:
        if tier == "thorough":
            core.DUMP = []
        prog = load_program(u.sources, u.shim, u.extra)
        c = make(prog)
        if hasattr(c, "custom"):
            obs, vm = c.custom(budget)
            sim = None
        else:
            obs, sim = simmod.verify(c, budget)
            vm = sim.vm
        res["nodes"] = len(sim.nodes) if sim else 0
        res["paths"] = vm.npaths
        res["inlined"] = sorted(set(vm.short(n) for n in vm.inlined if "pion::" in vm.p.dem.get(n, n)))
        res["contracts"] = sorted(set(vm.short(n) for n in vm.contracted))
        for o in obs:
            res["obs"] += 1
            k = "%s/%s" % (o.kind, o.status)
            res["kinds"][k] = res["kinds"].get(k, 0) + 1
            if o.status in ("proved", "trivial"):
                res["discharged"] += 1
                if o.status == "trivial":
                    res["trivial"] += 1
            else:
                if len(res[o.status]) < 12:
                    res[o.status].append({"name": o.name, "kind": o.kind, "where": o.where, "info": str(o.info)[:300],
                                          "goal": str(o.goal)[:400], "model": model_hints(o.model)})
                else:
                    res[o.status].append({"name": o.name, "kind": o.kind, "where": o.where})
        need = getattr(c, "min_returns", 1)
        if sim is not None and sim.retpaths < need:
            res["unsupported"] = "vacuous: no return path reached"
        if tier == "thorough" and core.DUMP:
            res["cross"] = cross_check(core.DUMP)
    except Unsupported as e:
        res["unsupported"] = str(e)
    except build.BuildError as e:
        res["unsupported"] = "does not compile to IR: " + str(e)[:1500]
    except Exception as e:
        res["unsupported"] = "internal: %r %s" % (e, traceback.format_exc()[-1500:])
    res["solver_queries"] = core.STATS.queries
    res["solver_time"] = round(core.STATS.time, 2)
    res["wall"] = round(time.time() - t0, 2)
    return res


def cross_check(dump, limit=400):
    """second opinion of cvc5 on the discharged obligations (thorough tier)"""
    import z3
    import tempfile
    ok = bad = unk = 0
    step = max(1, len(dump) // limit)
    for pc, goal, name in dump[::step]:
        s = z3.Solver()
        s.add(pc)
        s.add(z3.Not(goal))
        import core
        s.add(core.base_axioms(pc + [goal]))
        txt = s.to_smt2()
        p = os.path.join(build.workdir(), "q%d.smt2" % os.getpid())
        open(p, "w").write("(set-logic ALL)\n" + txt)
        try:
            r = subprocess.run(["cvc5", "--tlimit=10000", p], capture_output=True, text=True, timeout=20).stdout.strip()
        except subprocess.TimeoutExpired:
            r = "timeout"
        if r.startswith("unsat"):
            ok += 1
        elif r.startswith("sat"):
            bad += 1
        else:
            unk += 1
    return {"cvc5_unsat": ok, "cvc5_sat": bad, "cvc5_unknown": unk}


class Audit:
    """concrete contract evaluation on the real code: native driver against the executable specification.

    gen(rng, n, hints): iterable of cases (tuples of fields, each bytes or int)
    expect(case) -> list of output fields (bytes) or a predicate(case, outputs) -> error string or None"""

    def __init__(self, name, sources, gen, judge, shim=False, libs=(), quick=400, deep=6000, fixed=(), timeout=120):
        self.name = name
        self.sources = sources
        self.gen = gen
        self.judge = judge
        self.shim = shim
        self.libs = libs
        self.quick = quick
        self.deep = deep
        self.fixed = fixed
        self.exe = None
        self.timeout = timeout

    def build(self):
        if self.exe is None:
            self.exe = build.native("drv_" + self.name, self.sources, self.shim, self.libs)

    @staticmethod
    def enc(case):
        return " ".join((x.hex() or "-") if isinstance(x, bytes) else "%d" % x if isinstance(x, int) else x for x in case)

    def execute(self, cases, timeout=None):
        """-> list of output lines (None from the first case that did not answer), stderr"""
        self.build()
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
        p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
        try:
            out, err = p.communicate("".join(self.enc(c) + "\n" for c in cases), timeout=timeout or self.timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            rc = "timeout"
        lines = out.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        return lines, err, rc

    def run(self, seed, n, hints=None, limit_s=120):
        """-> (evaluations, distinct, failure or None, samples)"""
        rng = random.Random(seed)
        t0 = time.time()
        total, seen, samples = 0, set(), []
        todo = list(self.fixed)
        gen = iter(self.gen(rng, n, hints or {}))
        while True:
            batch = todo
            todo = []
            if not batch:
                for c in gen:
                    batch.append(c)
                    if len(batch) >= 500:
                        break
            if not batch:
                break
            pos = 0
            while pos < len(batch):
                lines, err, rc = self.execute(batch[pos:])
                for c, l in zip(batch[pos:], lines):
                    total += 1
                    seen.add(self.enc(c))
                    e = self.judge(c, l.split(" "))
                    if len(samples) < 4 and total % 97 == 5:
                        samples.append("%s -> %s" % (self.enc(c)[:200], l[:200]))
                    if e:
                        return total, len(seen), {"case": self.enc(c), "observed": l[:4000], "problem": e}, samples
                done = len(lines)
                if done < len(batch) - pos:
                    c = batch[pos + done]
                    # confirm on its own
                    l2, err2, rc2 = self.execute([c], timeout=20)
                    if not l2:
                        return total, len(seen), {"case": self.enc(c), "observed": "the process did not answer (rc=%s)" % rc2,
                                                  "problem": "crash, sanitizer report or endless loop: " + (err2 or err)[-3000:]}, samples
                    pos += done
                    if rc == "timeout":
                        break
                else:
                    pos = len(batch)
            if time.time() - t0 > limit_s:
                break
        if not samples and seen:
            samples = [sorted(seen)[0][:200]]
        return total, len(seen), None, samples


class Farm:
    """one forked process per job, at most WIDTH at a time"""
    WIDTH = 7

    def __init__(self, jobs, limit):
        import threading
        self.jobs = jobs
        self.out = [None] * len(jobs)
        self.limit = limit
        self.t0 = time.time()
        self.ctx = mp.get_context("fork")
        self.live = {}
        self.next = 0
        self.stopped = False
        self.lock = threading.Lock()
        self.pump()

    def pump(self):
        while self.next < len(self.jobs) and len(self.live) < self.WIDTH:
            i = self.next
            self.next += 1
            a, b = self.ctx.Pipe(False)
            p = self.ctx.Process(target=self._child, args=(i, b), daemon=True)
            p.start()
            b.close()
            self.live[i] = (p, a)

    def _child(self, i, conn):
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
        except Exception:
            pass
        fn, arg = self.jobs[i]
        conn.send(fn(arg))
        conn.close()

    def collect(self):
        from multiprocessing.connection import wait
        while self.live:
            left = self.limit - (time.time() - self.t0)
            if left <= 0:
                break
            ready = wait([c for _, c in self.live.values()], timeout=min(left, 5))
            for i in [i for i, (p, c) in self.live.items() if c in ready]:
                p, c = self.live.pop(i)
                try:
                    self.out[i] = c.recv()
                except EOFError:
                    self.out[i] = None
                p.join(1)
            self.pump()
        return self.out

    def stop(self):
        for p, c in self.live.values():
            p.kill()
        self.live = {}


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    pre = "known: property=%s " % pid
    if not os.path.exists(p):
        return []
    return [l.strip()[len(pre):] for l in open(p) if l.startswith(pre)]


def check(prop, tier=None, seed=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
    build.workdir()
    try:
        return _check(prop, tier, seed, t0)
    finally:
        build.cleanup()


def _check(prop, tier, seed, t0):
    audits = prop.audit if isinstance(prop.audit, (list, tuple)) else ([prop.audit] if prop.audit else [])
    limit = 600 if tier == "quick" else 3000
    farm = Farm([(run_unit, (u, tier)) for u in prop.units] + [(run_lemma, l) for l in prop.lemmas], limit)
    try:
        # meanwhile: concrete evaluation of the contracts on the compiled code
        audit_rep = []
        failure = None
        build_fail = None
        for a in audits:
            try:
                n, d, f, s = a.run(seed, a.quick if tier == "quick" else a.deep, None, 60 if tier == "quick" else 400)
                audit_rep.append({"audit": a.name, "evaluations": n, "distinct": d, "samples": s})
                if f and failure is None:
                    failure = dict(f, audit=a.name)
            except build.BuildError as e:
                build_fail = str(e)[:2000]
        if failure is not None:
            farm.limit = min(farm.limit, time.time() - farm.t0 + 60)
        out = farm.collect()
        results, lem = [], []
        for u, r in zip(prop.units, out):
            results.append(r or {"unit": u.name, "obs": 0, "discharged": 0, "trivial": 0, "failed": [], "unknown": [], "unsupported": "the verifier did not finish within %d s" % limit,
                                 "inlined": [], "contracts": [], "nodes": 0, "paths": 0, "kinds": {}, "solver_queries": 0, "solver_time": 0, "wall": limit})
        for l, r in zip(prop.lemmas, out[len(prop.units):]):
            lem.append(r or {"lemma": l.name, "obs": [(l.name, "unknown", "no answer")], "wall": limit})
    finally:
        farm.stop()
    failed = [(r["unit"], o) for r in results for o in r["failed"]]
    unknown = [(r["unit"], o) for r in results for o in r["unknown"]]
    unsup = [(r["unit"], r["unsupported"]) for r in results if r["unsupported"]]
    for l in lem:
        for name, st, detail in l["obs"]:
            if st == "failed":
                failed.append((l["lemma"], {"name": name, "kind": "lemma", "where": "", "info": detail, "model": {}}))
            elif st != "proved":
                unknown.append((l["lemma"], {"name": name, "kind": "lemma", "where": "", "info": detail}))
    if failure is None and (failed or unknown or unsup):
        # look for a failing input on the real code
        hints = {}
        for u, o in failed:
            hints.setdefault(u, []).append(o.get("model") or {})
        for a in audits:
            try:
                n, d, f, s = a.run(seed + 1, a.deep, hints, 300)
                audit_rep.append({"audit": a.name + " (search for a failing input)", "evaluations": n, "distinct": d, "samples": s})
                if f:
                    failure = dict(f, audit=a.name)
                    break
            except build.BuildError as e:
                build_fail = str(e)[:2000]
    obs = sum(r["obs"] for r in results) + sum(len(l["obs"]) for l in lem)
    dis = sum(r["discharged"] for r in results) + sum(1 for l in lem for o in l["obs"] if o[1] == "proved")
    verdict = "held"
    replay = None
    if failure is not None:
        verdict = "violation"
    elif failed:
        verdict = "violation-nofail"
    rdir = os.path.join(VERIF, "replays")
    if verdict != "held":
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, prop.id + ".json")
        json.dump({"property": prop.id, "failing_input": failure, "failed_obligations": [{"function": u, **o} for u, o in failed[:40]],
                   "undischarged": [{"function": u, **o} for u, o in unknown[:20]], "outside_verifier": unsup,
                   "how_to_replay": "the case line is one line of stdin of the driver built by /verif/engine/build.py for audit '%s'" % (failure or {}).get("audit", "")},
                  open(replay, "w"), indent=1)
    standin = [u for u, _ in unsup] + sorted(set(u for u, _ in unknown))
    evals = sum(a["evaluations"] for a in audit_rep)
    proved_all = not failed and not unknown and not unsup and obs > 0
    ev = {
        "property": prop.id, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": obs, "discharged": dis,
            "checker_cmd": "python3-vt /verif/check.py %s" % prop.id,
            "trusted_base": prop.trusted + ["clang 18 front end (C++ to LLVM IR)", "the verification-condition generator in /verif/engine", "z3 5.3 (back end for every obligation)"],
            "functions_under_contract": sorted(set(f for r in results for f in r["inlined"])),
            "assumed_contracts": sorted(set(f for r in results for f in r["contracts"])),
            "units": [{k: r[k] for k in ("unit", "obs", "discharged", "trivial", "nodes", "paths", "kinds", "solver_queries", "solver_time", "wall", "unsupported")} | ({"cross_check": r["cross"]} if "cross" in r else {}) for r in results],
            "lemmas": [{"lemma": l["lemma"], "obligations": len(l["obs"]), "proved": sum(1 for o in l["obs"] if o[1] == "proved"), "wall": l["wall"]} for l in lem],
            "solver_time_s": round(sum(r["solver_time"] for r in results), 2),
            "back_end": "z3 5.3 via own VC generator" + (", cross-checked by cvc5 1.1.2" if tier == "thorough" else ""),
            "fully_proved": proved_all,
            "bounded_standin": {"units": standin, "bound": "the concrete evaluations listed under concrete_evaluation; not counted as proved"} if standin else None,
            "concrete_evaluation": audit_rep, "driver_build_failure": build_fail,
        },
        "assumptions": prop.assumptions, "wall_s": round(time.time() - t0, 2), "violations": 0 if verdict == "held" else 1,
    }
    if prop.level == "exploration":
        ev["level"] = "exploration"
        ev["coverage"] = {"evaluations": evals, "distinct_nontrivial": sum(a["distinct"] for a in audit_rep), "rule": prop.rule,
                          "samples": [x for a in audit_rep for x in a["samples"]][:6], "bounded": "bounded stand-in for a function outside the verifier's reach; nothing here is counted as proved"}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w"), indent=1)
    for f in known_findings(prop.id):
        print("KNOWN-FINDING: property=%s %s" % (prop.id, f))
    print("%s: %d/%d obligations discharged, %d concrete evaluations, %.1fs%s" % (prop.id, dis, obs, evals, time.time() - t0,
          "" if proved_all else " (bounded)" if prop.level == "exploration" else "  (not fully proved: %s)" % "; ".join(["%s: %s" % (u, str(x)[:200]) for u, x in unsup] + ["%s: %s" % (u, o["name"]) for u, o in (failed + unknown)[:6]])))
    if verdict == "violation":
        print("failing input: %s" % json.dumps(failure)[:1500])
        print("VIOLATION property=%s replay=%s" % (prop.id, replay))
        return 1
    if verdict == "violation-nofail":
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop.id, replay))
        return 1
    return 0


def run_lemma(l):
    t0 = time.time()
    try:
        obs = l.fn()
    except Exception as e:
        obs = [(l.name, "unknown", "internal: %r %s" % (e, traceback.format_exc()[-800:]))]
    return {"lemma": l.name, "obs": obs, "wall": round(time.time() - t0, 2)}


def concrete_run(spec, s, maxsteps=1000000):
    """run the executable specification on concrete data"""
    def D(c):
        if not isinstance(c, (bool, int)):
            raise TypeError("symbolic decision in a concrete run: %r" % (c,))
        return bool(c)
    D.assume = lambda c: None
    n = 0
    while s.ctrl.get("done") is None:
        p = spec.paused(s)
        if p is not None and D(p):
            return s
        spec.step(D, s)
        n += 1
        if n > maxsteps:
            raise RuntimeError("specification does not terminate")
    return s
