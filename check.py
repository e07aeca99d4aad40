#!/usr/bin/env python3
"""Decide one property of /repo with the symbolic execution engine (engine/vfe).

  check.py ID [--tier quick|thorough] [--job NAME] [--keep]   run the check of property ID
  check.py replay FILE                                        re-run a reported counterexample natively
  check.py setup                                              build the engine and the runtime
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo").rstrip("/")
ENGINE = os.path.join(HERE, "engine", "vfe")
CLANG = "clang++-18"
CPU = 8
sys.path.insert(0, HERE)

CFLAGS = ["-std=gnu++17", "-O1", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-D_GLIBCXX_TSAN=1", "-U_FORTIFY_SOURCE",
          "-Wno-everything", "-ftrivial-auto-var-init=uninitialized"]
# kinds of violation that have no observable native outcome: reported from the engine's own trace
TRACE_ONLY = {"data-race", "mismatched-free", "mutex-misuse"}


def log(*a):
    print(*a, flush=True)


def setup():
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    with open(os.path.join(HERE, "build", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-s", "-C", os.path.join(HERE, "engine")], capture_output=True, text=True)
        if r.returncode:
            log(r.stdout + r.stderr)
            return 2
        # the runtime does not depend on /repo
        for f in ("rt", "rt_eh"):
            src, out = os.path.join(HERE, "rt", f + ".cpp"), os.path.join(HERE, "build", f + ".bc")
            deps = [src, os.path.join(HERE, "rt", "vf.h")] + glob.glob(os.path.join(HERE, "shim", "*.hpp"))
            if os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(d) for d in deps):
                continue
            r = subprocess.run([CLANG, *CFLAGS, "-I", os.path.join(HERE, "shim"), "-I", os.path.join(HERE, "rt"), "-emit-llvm", "-c", src, "-o", out + ".tmp"],
                               capture_output=True, text=True)
            if r.returncode:
                log(r.stderr)
                return 2
            os.replace(out + ".tmp", out)
        src, out = os.path.join(HERE, "rt", "native.cpp"), os.path.join(HERE, "build", "native.o")
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            r = subprocess.run([CLANG, "-O1", "-g", "-fsanitize=address", "-c", src, "-o", out + ".tmp"], capture_output=True, text=True)
            if r.returncode:
                log(r.stderr)
                return 2
            os.replace(out + ".tmp", out)
    return 0


class Build:
    """Regenerates the encoding (LLVM bitcode) from the current source tree."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.cache = {}
        self.links = {}
        self.natives = {}
        gen = os.path.join(tmp, "gen", "sse")
        os.makedirs(gen)
        # lib/include/sse/configure.hpp.in with every cmakedefine off, as on the reference build
        cfg = os.path.join(REPO, "lib/include/sse/configure.hpp.in")
        txt = open(cfg).read() if os.path.exists(cfg) else ""
        txt = re.sub(r"#cmakedefine\s+(\w+).*", r"/* #undef \1 */", txt)
        open(os.path.join(gen, "configure.hpp"), "w").write(txt)
        # message and service classes of the runners, from the protocol definitions
        for f in sorted(glob.glob(os.path.join(REPO, "lib/protos/*.proto"))):
            r = subprocess.run([sys.executable, os.path.join(HERE, "tools", "protogen.py"), f, os.path.join(tmp, "gen", "protos")], capture_output=True, text=True)
            if r.returncode:
                log(r.stdout + r.stderr)
        self.inc = []
        for d in (os.path.join(HERE, "shim"), os.path.join(HERE, "rt"), os.path.join(HERE, "harness"), os.path.join(tmp, "gen"), gen,
                  os.path.join(REPO, "lib/include"), os.path.join(REPO, "lib/include/sse/runners"), os.path.join(REPO, "lib"), os.path.join(REPO, "lib/include/sse/schemes"), os.path.join(REPO, "test")):
            self.inc += ["-I", d]

    def unit(self, src, defs):
        key = (src, tuple(defs))
        if key in self.cache:
            return self.cache[key]
        out = os.path.join(self.tmp, hashlib.sha1(repr(key).encode()).hexdigest()[:16] + ".bc")
        cmd = [CLANG, *CFLAGS, *["-D" + d for d in defs], *self.inc, "-Dnew_table_reader_for_compaction_inputs=is_fd_close_on_exec", "-emit-llvm", "-c", src, "-o", out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        self.cache[key] = (out, r.returncode, r.stderr)
        return self.cache[key]

    def sources(self, job):
        s = [os.path.join(HERE, "harness", job["harness"])]
        for g in job.get("srcs", []):
            m = sorted(glob.glob(os.path.join(REPO, g)))
            if not m:
                raise RuntimeError("no source matches " + g)
            s += m
        skip = set(os.path.join(REPO, x) for x in job.get("skip", []))
        return [x for x in s if x not in skip]

    def link(self, job):
        key = (job["harness"], tuple(job.get("srcs", [])), tuple(job.get("defs", [])))
        if key in self.links:
            return self.links[key]
        bcs = []
        for s in self.sources(job):
            out, rc, err = self.unit(s, job.get("defs", []))
            if rc:
                raise RuntimeError("compiling %s failed:\n%s" % (s, err[-3000:]))
            bcs.append(out)
        base = os.path.join(self.tmp, hashlib.sha1(repr(key).encode()).hexdigest()[:12])
        rt = [os.path.join(HERE, "build", "rt.bc"), os.path.join(HERE, "build", "rt_eh.bc")]
        for suf, extra in ((".sym", rt), (".nat", rt[:1])):
            r = subprocess.run(["llvm-link-18", *bcs, *extra, "-o", base + suf + ".l.bc"], capture_output=True, text=True)
            if r.returncode == 0:
                r = subprocess.run(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=vf_entry,__vf_unwind,_vf_keep", base + suf + ".l.bc", "-o", base + suf + ".bc"],
                                   capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError("linking failed:\n" + r.stderr[-3000:])
            os.unlink(base + suf + ".l.bc")
        self.links[key] = base
        return base

    def native(self, job):
        base = self.link(job)
        if base in self.natives:
            return self.natives[base]
        exe = base + ".replay"
        for cmd in ([ENGINE, base + ".nat.bc", "--instrument=" + base + ".ins.bc"],
                    [CLANG, "-O0", "-fsanitize=address", "-Wno-override-module", "-x", "ir", "-c", base + ".ins.bc", "-o", base + ".o"],
                    [CLANG, "-fsanitize=address", os.path.join(HERE, "build", "native.o"), base + ".o", "-lpthread", "-o", exe]):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError("native build failed: %s\n%s" % (" ".join(cmd), (r.stdout + r.stderr)[-3000:]))
        self.natives[base] = exe
        return exe


def replay_text(params, preempt, spurious, inputs, sched, observed=None):
    o = ["B %d %d" % (preempt, spurious)]
    o += ["P %s %d" % (k, v) for k, v in params.items()]
    o += ["I %s %d" % (i["n"].replace(" ", "_"), i["v"]) for i in inputs]
    o += ["S %d" % s for s in sched]
    if observed is not None:
        o.append("E")
        o += ["O %d" % v for v in observed]
    return "\n".join(o) + "\n"


def run_native(exe, text, tmp, tag, timeout=60, fill=None):
    f = os.path.join(tmp, tag + ".in")
    open(f, "w").write(text)
    env = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0:abort_on_error=0:alloc_dealloc_mismatch=0:allocator_may_return_null=0:detect_stack_use_after_return=0")
    if fill is not None:  # content of uninitialised memory
        env["VF_FILL"] = str(fill)
        env["ASAN_OPTIONS"] += ":malloc_fill_byte=%d:max_malloc_fill_size=1000000" % fill
    try:
        r = subprocess.run([exe, f], capture_output=True, text=True, timeout=timeout, env=env, cwd=tmp, errors="replace")
        return r.returncode, (r.stdout + r.stderr)
    except subprocess.TimeoutExpired:
        return "timeout", ""


def params_of(job, tier):
    p = dict(job.get("params", {}))
    p.update(job.get(tier, {}))
    return p


def optval(job, tier, name, dflt):
    v = job.get(name, dflt)
    return v.get(tier, dflt) if isinstance(v, dict) else v


def engine_cmd(job, tier, base, part, nparts, out, seed):
    c = [ENGINE, base + ".sym.bc", "--out=" + out, "--src=" + REPO + "/", "--seed=%d" % (seed + part),
         "--preempt=%d" % optval(job, tier, "preempt", 0), "--spurious=%d" % optval(job, tier, "spurious", 0), "--race=%d" % (1 if job.get("race", True) else 0),
         "--time=%d" % optval(job, tier, "time", 400 if tier == "quick" else 3000), "--samples=%d" % job.get("samples", 3), "--mem=%d" % job.get("mem", 3300),
         "--solver-timeout=%d" % job.get("solver_timeout", 40), "--max-steps=%d" % job.get("max_steps", 30000000)]
    if job.get("fork_select"):
        c.append("--fork-select")
    if "ite" in job:
        c.append("--ite=%d" % job["ite"])
    if nparts > 1:
        c.append("--split=%d/%d" % (part, nparts))
    c += ["-P%s=%d" % kv for kv in params_of(job, tier).items()]
    return c


def known_findings():
    f = os.path.join(HERE, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else []


def run_check(pid, tier, only=None, keep=False):
    import registry
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if pid not in registry.CHECKS:
        log("unknown property " + pid)
        return 2
    chk = registry.CHECKS[pid]
    if setup():
        log("ERROR engine build failed")
        return 2
    tmp = "/tmp/vf-%s-%d" % (pid, os.getpid())
    os.makedirs(tmp)
    try:
        return run_check2(pid, tier, only, chk, seed, tmp, t0)
    except RuntimeError as e:
        log("ERROR property=%s %s" % (pid, e))
        return 2
    finally:
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)


def run_check2(pid, tier, only, chk, seed, tmp, t0):
    jobs = [j for j in chk["jobs"] if tier in j.get("tiers", ("quick", "thorough")) and (not only or j["name"] in only)]
    b = Build(tmp)
    with cf.ThreadPoolExecutor(CPU) as ex:
        todo = {}
        for j in jobs:
            for s in b.sources(j):
                todo[(s, tuple(j.get("defs", [])))] = None
        list(ex.map(lambda k: b.unit(k[0], list(k[1])), todo))
    tb = time.time()
    tasks = []
    for j in jobs:
        base = b.link(j)
        n = optval(j, tier, "split", 1)
        for k in range(n):
            tasks.append((j, base, k, n, os.path.join(tmp, "r%d.json" % len(tasks))))
    stop = []

    def go(t):
        j, base, k, n, out = t
        if stop:
            return None
        lim = optval(j, tier, "time", 400 if tier == "quick" else 3000) + 60
        try:
            r = subprocess.run(engine_cmd(j, tier, base, k, n, out, seed), capture_output=True, text=True, timeout=lim)
            err = r.stderr
        except subprocess.TimeoutExpired:
            err = "engine timeout"
        try:
            res = json.load(open(out))
        except Exception:
            res = {"status": "abort", "detail": "engine crashed: " + err[-500:]}
        if res["status"] == "violation" and "finding" not in j:
            stop.append(1)
        return res

    with cf.ThreadPoolExecutor(CPU) as ex:
        results = list(ex.map(go, tasks))

    tot = {k: 0 for k in ("paths", "states", "forks", "instructions", "assume_killed", "checks", "sched_points", "queries", "z3_queries", "z3_sat", "z3_unsat", "unknown", "cache_hits", "model_hits")}
    z3t = cput = 0.0
    funcs, reached, labels, samples, jobinfo = set(), {}, {}, [], []
    viols, bad = [], []
    for (j, base, k, n, out), r in zip(tasks, results):
        if r is None:
            continue
        for x in tot:
            tot[x] += r.get(x, 0)
        z3t += r.get("z3_time", 0)
        cput += r.get("time", 0)
        funcs |= set(r.get("functions", []))
        if "finding" not in j:
            base = j["harness"]
            reached.setdefault(base, set()).update(r.get("reached", []))
            labels.setdefault(base, set()).update(r.get("labels", []))
        jobinfo.append({"job": j["name"], "part": "%d/%d" % (k, n), "status": r["status"], "params": params_of(j, tier), "preemptions": optval(j, tier, "preempt", 0),
                        "spurious": optval(j, tier, "spurious", 0), "paths": r.get("paths", 0), "queries": r.get("queries", 0), "z3_queries": r.get("z3_queries", 0), "z3_s": round(r.get("z3_time", 0), 2),
                        "s": round(r.get("time", 0), 1)})
        if r["status"] == "violation":
            viols.append((j, r["violation"]))
        elif r["status"] != "ok":
            bad.append((j, r))
        if r["status"] in ("ok", "timeout"):
            for s in r.get("samples", []):
                samples.append((j, s))

    # counterexamples are replayed on the natively compiled code before they are reported
    rc = 0
    nviol = 0
    known = known_findings()
    rdir = os.path.join(HERE, "replays")
    unconfirmed = []
    seen_viol = set()
    for j, v in viols:
        sig = (j["name"], v["kind"], v["msg"])
        if sig in seen_viol:
            continue
        seen_viol.add(sig)
        text = replay_text(params_of(j, tier), optval(j, tier, "preempt", 0), optval(j, tier, "spurious", 0), v["inputs"], v["sched"])
        to = 20 if v["kind"] == "step-bound" else 60
        for fill in (None, 0, 255):  # (a violation can depend on the content of uninitialised memory)
            code, out = run_native(b.native(j), text, tmp, "viol", to, fill)
            confirmed = code in (10, 11, 12, 99) or (isinstance(code, int) and code < 0) or (code == "timeout" and v["kind"] == "step-bound")
            if confirmed:
                break
        how = "native replay: exit %s %s" % (code, " / ".join(l for l in out.splitlines() if "VIOLATION" in l or "ERROR: AddressSanitizer" in l)[:300])
        if not confirmed and v["kind"] in TRACE_ONLY:
            confirmed, how = True, "engine trace (a data race has no single native outcome); native replay of the schedule: exit %s" % code
        desc = "%s: %s [%s] at %s" % (v["kind"], v["msg"], j["name"], (v["stack"] or ["?"])[0][:400])
        if not confirmed:
            unconfirmed.append(desc + " (" + how + ")")
            if os.environ.get("VF_DEBUG"):
                log(out[-3000:], json.dumps(v, indent=1)[:4000])
            continue
        kf = [f for f in known if f.get("status") == "known" and f["property"] == pid and f["job"] == j["name"] and f["kind"] == v["kind"] and f["match"] in v["msg"] and j.get("finding") == f["id"]]
        if kf:
            log("KNOWN-FINDING: property=%s %s: %s" % (pid, kf[0]["id"], kf[0]["what"]))
            continue
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.sha1(repr(sig).encode()).hexdigest()[:10]))
        json.dump({"property": pid, "job": j["name"], "tier": tier, "violation": v, "confirmed_by": how, "fill": fill, "replay_text": text}, open(p, "w"), indent=1)
        log(desc)
        for i in v["inputs"][:60]:
            log("   input %s = %d" % (i["n"], i["v"]))
        for nt in v["notes"][:40]:
            log("   note %s" % nt)
        log("   " + how)
        log("VIOLATION property=%s replay=%s" % (pid, p))
        nviol += 1
        rc = 1

    # trace validation: completed paths, replayed natively, must produce the same observations
    validated, mismatch, sample_out = 0, [], []
    if not viols or rc == 0:
        byjob = {}
        for j, s in samples:
            byjob.setdefault(j["name"], []).append((j, s))
        sel = []
        for nme in byjob:
            sel += byjob[nme][:optval(chk, tier, "validate", 6)]
        exes = {}
        def buildn(j):
            return b.native(j)
        for j, s in sel:
            exes[j["name"]] = buildn(j)
        def val(a):
            i, (j, s) = a
            return run_native(exes[j["name"]], replay_text(params_of(j, tier), optval(j, tier, "preempt", 0), optval(j, tier, "spurious", 0), s["inputs"], s["sched"], s["observed"]), tmp, "val%d" % i)
        with cf.ThreadPoolExecutor(CPU) as ex:
            outs = list(ex.map(val, enumerate(sel)))
        for (j, s), (code, out) in zip(sel, outs):
            if code == 0:
                validated += 1
            else:
                mismatch.append("%s: exit %s %s" % (j["name"], code, out[-1500:]))
            if len(sample_out) < 4:
                sample_out.append({"job": j["name"], "inputs": {i["n"]: i["v"] for i in s["inputs"][:40]}, "observed": s["observed"][:40], "schedule": s["sched"][:60], "path_constraints": s["constraints"], "instructions": s["steps"], "native_exit": code})
    if rc == 0:
        for j, r in bad:
            log("INCONCLUSIVE property=%s job=%s status=%s %s" % (pid, j["name"], r["status"], r.get("detail", "")[:2500]))
            rc = 2
        for u in unconfirmed:
            log("UNCONFIRMED property=%s %s" % (pid, u))
            rc = 2
        for m in mismatch[:3]:
            log("TRACE-MISMATCH property=%s %s" % (pid, m))
            rc = 2
        if not only:
            for base in labels:
                miss = labels[base] - reached[base] - set(chk.get("unreached_ok", []))
                if miss:
                    log("VACUOUS property=%s never reached: %s" % (pid, ", ".join(sorted(miss))))
                    rc = 2
        if tot["checks"] == 0:
            log("VACUOUS property=%s no assertion was evaluated" % pid)
            rc = 2
    if rc == 2 and nviol == 0:
        pass
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot["states"], "transitions": tot["forks"] + tot["sched_points"], "traces_validated_against_impl": validated, "samples": sample_out,
                       "exhaustive": rc == 0, "paths_completed": tot["paths"], "instructions_executed_symbolically": tot["instructions"], "paths_cut_by_assumptions": tot["assume_killed"],
                       "assertions_discharged": tot["checks"], "solver_queries": tot["queries"], "z3_queries": tot["z3_queries"], "z3_sat": tot["z3_sat"], "z3_unsat": tot["z3_unsat"],
                       "answered_from_query_cache": tot["cache_hits"], "answered_by_previous_model": tot["model_hits"], "unknown_answers": tot["unknown"], "solver_time_s": round(z3t, 2), "engine_cpu_s": round(cput, 1),
                       "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs), "bounds": chk.get("bounds", ""), "reached": sorted(set().union(*reached.values())) if reached else [],
                       "jobs": jobinfo[:80], "encode_s": round(tb - t0, 1)},
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": nviol}
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    log("%s property=%s tier=%s: %d paths, %d assertions, %d queries (%d to z3, %.1f s), %d functions of the code under test, %d traces validated natively, %.1f s"
        % ({0: "HOLDS", 1: "BROKEN", 2: "NO-ANSWER"}[rc], pid, tier, tot["paths"], tot["checks"], tot["queries"], tot["z3_queries"], z3t, len(funcs), validated, time.time() - t0))
    return rc


def do_replay(path):
    import registry
    d = json.load(open(path))
    if setup():
        return 2
    j = [x for x in registry.CHECKS[d["property"]]["jobs"] if x["name"] == d["job"]][0]
    tmp = "/tmp/vf-replay-%d" % os.getpid()
    os.makedirs(tmp)
    try:
        code, out = run_native(Build(tmp).native(j), d["replay_text"], tmp, "replay", fill=d.get("fill"))
        log(out)
        log("native exit: %s (%s: %s)" % (code, d["violation"]["kind"], d["violation"]["msg"]))
        return 1 if code != 0 else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if not a:
        log(__doc__)
        return 2
    if a[0] == "setup":
        return setup()
    if a[0] == "replay":
        return do_replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    only, keep = [], False
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
            i += 1
        elif a[i] == "--job":
            only.append(a[i + 1])
            i += 1
        elif a[i] == "--keep":
            keep = True
        i += 1
    return run_check(a[0], tier, only, keep)


if __name__ == "__main__":
    sys.exit(main())
