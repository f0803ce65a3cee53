#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of the code in /repo by symbolic execution (nsx, see
DESIGN.md): compiles the property's harness module together with /repo's
current source to LLVM IR, runs every job of spec.py for it, replays every
counterexample and a sample of the explored paths on a native build, rewrites
evidence/<PROPERTY>.json.

exit 0  the property held on everything explored
exit 1  VIOLATION line printed; the counterexample was confirmed natively
exit 2  the check could not give an answer (never used for a violation)
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import spec

REPO = "/repo"
STABLE = "stable-x86_64-unknown-linux-gnu"
NSX = os.path.join(HERE, "nsx/target/release/nsx")
CPUS = min(8, os.cpu_count() or 1)


class NoAnswer(Exception):
    pass


class BuildFailed(NoAnswer):
    """The harness does not compile; log holds what rustc said."""

    def __init__(self, what, log):
        super().__init__(f"{what} failed:\n" + log[-4000:])
        self.log = log


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = STABLE
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def run(cmd, cwd=None, e=None, timeout=600, what="", fail=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoAnswer(f"{what or cmd[0]} timed out")
    if p.returncode != 0 and fail:
        raise fail(what, p.stdout.decode(errors="replace"))
    if p.returncode != 0:
        raise NoAnswer(f"{what or ' '.join(cmd)} failed:\n" + p.stdout.decode(errors="replace")[-4000:])
    return p.stdout.decode(errors="replace")


def build_nsx():
    run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(HERE, "nsx"), what="building nsx")


def build_ir(bdir, feats, profile, nostd=False):
    e = env()
    e["RUSTFLAGS"] = "--emit=llvm-ir -Cno-vectorize-loops -Cno-vectorize-slp"
    cmd = ["cargo", "build", "--offline", "--quiet", "--profile", profile, "--target-dir", bdir]
    if nostd:
        cmd += ["--no-default-features"]
    cmd += ["--features", feats]
    run(cmd, cwd=os.path.join(HERE, "harness"), e=e, what="compiling the harness and /repo to LLVM IR", fail=BuildFailed)
    ll = os.path.join(bdir, profile, "deps", "hx.ll")
    if not os.path.exists(ll):
        raise NoAnswer("no LLVM IR produced")
    return ll


def build_native(bdir, feats, profile, nostd=False):
    cmd = ["cargo", "build", "--offline", "--quiet", "--profile", profile, "--target-dir", bdir]
    if nostd:
        cmd += ["--no-default-features"]
    cmd += ["--features", feats + ",native"]
    run(cmd, cwd=os.path.join(HERE, "harness"), what="compiling the native replay library", fail=BuildFailed)
    return os.path.join(bdir, "debug" if profile == "dev" else profile, "libhx.so")


def replay(so, items, timeout=20.0, tmp=None):
    """items: (fn, case, hex). Returns one record per item."""
    if not items:
        return []
    fd, path = tempfile.mkstemp(dir=tmp)
    with os.fdopen(fd, "w") as f:
        for fn, case, b in items:
            f.write(f"{fn} {case} {b or '-'}\n")
    out = run([NSX, "replay", "--so", so, "--list", path, "--timeout", str(timeout)], timeout=60 + timeout * len(items), what="native replay")
    os.unlink(path)
    r = [json.loads(l) for l in out.splitlines() if l.startswith("{")]
    if len(r) != len(items):
        raise NoAnswer("native replay lost records")
    return r


def valgrind(so, fn, case, b, tmp):
    fd, path = tempfile.mkstemp(dir=tmp)
    with os.fdopen(fd, "w") as f:
        f.write(f"{fn} {case} {b or '-'}\n")
    p = subprocess.run(
        ["valgrind", "--quiet", "--error-exitcode=99", "--leak-check=no", "--main-stacksize=67108864", NSX, "replay", "--so", so, "--list", path, "--direct", "1"],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    os.unlink(path)
    return p.returncode, p.stdout.decode(errors="replace")[:3000]


def how_failed(r):
    """What a native record says went wrong, or None."""
    if r["timeout"]:
        return "did not terminate"
    if r["exit"] == 70:
        return f"assertion {r['assert']} failed"
    if r["exit"] == 73:
        return f"allocation of {r['cap']} bytes"
    if r["signal"] == 6:
        m = re.search(r"panicked at ([^\n]*)\n([^\n]*)", r["stderr"])
        if m:
            return f"panic at {m.group(1)} {m.group(2)}"
        return "abort: " + r["stderr"][:200].replace("\n", " ")
    if r["signal"]:
        return f"killed by signal {r['signal']}"
    if r["exit"] not in (0,):
        return None
    return None


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.p = spec.PROPS[prop]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.bdir = os.path.join(HERE, "build", prop)
        self.ev = os.path.join(HERE, "evidence")
        os.makedirs(self.ev, exist_ok=True)
        os.makedirs(self.bdir, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix="run-", dir=self.bdir)
        self.lls, self.sos = {}, {}
        self.procs = set()
        self.lock = threading.Lock()
        self.stop = False

    def variant(self, v):
        """v: 'dev' (overflow checks and debug assertions), 'rel' (release
        semantics), 'nostd' (the crate without its std feature)."""
        return {"dev": ("release", "dev", False), "rel": ("relir", "relnat", False), "nostd": ("release", "dev", True)}[v]

    def build(self, variants):
        feats = self.p["module"]
        build_nsx()
        jobs = []
        with ThreadPoolExecutor(4) as ex:
            for v in variants:
                ip, np, ns = self.variant(v)
                jobs.append((v, "ll", ex.submit(build_ir, os.path.join(self.bdir, "ir-" + v), feats, ip, ns)))
                jobs.append((v, "so", ex.submit(build_native, os.path.join(self.bdir, "nat-" + v), feats, np, ns)))
            for v, k, f in jobs:
                (self.lls if k == "ll" else self.sos)[v] = f.result()

    def job(self, j):
        if self.stop:
            return None
        fd, out = tempfile.mkstemp(dir=self.tmp)
        os.close(fd)
        cmd = [NSX, "--ll", self.lls[j.variant], "--fn", j.fn, "--case", str(j.case), "--seed", str(self.seed), "--out", out,
               "--time", str(j.time), "--max-steps", str(j.steps), "--samples", str(j.samples), "--query-timeout", str(j.qt)]
        if j.split:
            cmd += ["--split", j.split]
        errf = tempfile.TemporaryFile()
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=errf)
        with self.lock:
            self.procs.add(p)
        try:
            rc = p.wait(timeout=j.time + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        with self.lock:
            self.procs.discard(p)
        if self.stop:
            return None
        errf.seek(0)
        err = errf.read().decode(errors="replace")
        try:
            with open(out) as f:
                d = json.load(f)
        except Exception:
            d = None
        os.unlink(out)
        if rc != 0 or d is None:
            raise NoAnswer(f"{j.name()}: nsx ended with {rc}: {err[-1500:]}")
        return d

    def kill(self):
        self.stop = True
        with self.lock:
            for p in self.procs:
                p.kill()

    def confirm(self, j, v):
        """Replay one counterexample on the real build."""
        so = self.sos[j.variant]
        r = replay(so, [(j.fn, j.case, v["bytes"])], tmp=self.tmp)[0]
        why = how_failed(r)
        if why is None and v["kind"] in ("mem", "undef", "unreachable", "alloc"):
            rc, txt = valgrind(so, j.fn, j.case, v["bytes"], self.tmp)
            if rc == 99:
                why = "memory error: " + " ".join(txt.split())[:300]
        return why, r

    def main(self):
        t0 = time.time()
        jobs = spec.jobs(self.prop, self.tier)
        known = spec.known(self.prop)
        try:
            self.build(sorted({j.variant for j in jobs}))
        except BuildFailed as e:
            return self.not_derived(e, time.time() - t0)
        t_build = time.time() - t0
        results, violations, known_hit, problems = [], [], {}, []
        jobs.sort(key=lambda j: -j.weight)
        with ThreadPoolExecutor(CPUS) as ex:
            futs = {ex.submit(self.job, j): j for j in jobs}
            for f in as_completed(futs):
                j = futs[f]
                try:
                    d = f.result()
                except NoAnswer as e:
                    problems.append(str(e))
                    continue
                if d is None:
                    continue
                results.append((j, d))
                for v in d["violations"]:
                    k = next((k for k in known if k.matches(j, v)), None)
                    try:
                        why, rec = self.confirm(j, v)
                    except NoAnswer as e:
                        problems.append(str(e))
                        continue
                    if why is None:
                        problems.append(f"{j.name()}: counterexample not reproduced natively: {v} -> {rec}")
                    elif k:
                        known_hit[k] = (j, v, why)
                    else:
                        violations.append((j, v, why, rec))
                        break
                if violations:
                    self.kill()
                    break
                if not d["complete"] and not (d["violations"] and not d["incomplete_reason"]):
                    problems.append(f"{j.name()}: exploration incomplete: {d['incomplete_reason']}")
                elif not d["violations"]:
                    for c in j.covers:
                        if not d["covers"].get(str(c)) and not j.split:
                            problems.append(f"{j.name()}: point {c} of the harness was never reached (vacuous)")
                    if d["paths"] == 0 and not j.split:
                        problems.append(f"{j.name()}: no path")
        # split jobs: covers over the union
        groups = {}
        for j, d in results:
            if j.split:
                groups.setdefault((j.fn, j.case, j.variant), []).append((j, d))
        for g in groups.values():
            for c in g[0][0].covers:
                if not violations and not problems and not any(d["covers"].get(str(c)) for _, d in g):
                    problems.append(f"{g[0][0].name()}: point {c} never reached (vacuous)")
        # path witnesses on the real build
        validated, samples = 0, []
        if not violations:
            by = {}
            for j, d in results:
                for s in d["samples"]:
                    by.setdefault(j.variant, []).append((j, s))
            for v, lst in by.items():
                try:
                    recs = replay(self.sos[v], [(j.fn, j.case, s["bytes"]) for j, s in lst], tmp=self.tmp)
                except NoAnswer as e:
                    problems.append(str(e))
                    continue
                for (j, s), r in zip(lst, recs):
                    if r["exit"] != 0 or r["signal"] or r["timeout"] or r["obs"] != s["obs"]:
                        problems.append(f"{j.name()}: path witness {s} behaves differently natively: {r}")
                    else:
                        validated += 1
            seen = set()
            for j, d in results:
                for s in d["samples"][:2]:
                    if len(samples) < 12 and (j.fn, j.case) not in seen:
                        seen.add((j.fn, j.case))
                        samples.append({"harness": j.fn, "case": j.case, "input_bytes_hex": s["bytes"], "observed": s["obs"][:16]})
        self.evidence(results, violations, known_hit, validated, samples, time.time() - t0, t_build, problems)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for k, (j, v, why) in known_hit.items():
            print(f"KNOWN-FINDING: property={self.prop} {k.what}")
        if violations:
            for n, (j, v, why, rec) in enumerate(violations, 1):
                path = os.path.join(self.ev, f"{self.prop}.replay{n}.json")
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "harness": j.fn, "case": j.case, "variant": j.variant, "kind": v["kind"], "message": v["msg"], "location": v["loc"],
                               "input_bytes_hex": v["bytes"], "native_outcome": why, "native_record": rec,
                               "reproduce": f"echo '{j.fn} {j.case} {v['bytes'] or '-'}' > /tmp/l && {NSX} replay --so {self.sos[j.variant]} --list /tmp/l"}, f, indent=1)
                print(f"{j.name()}: {v['kind']} {v['msg']} {v['loc']}; native: {why}")
                print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if problems:
            for p in problems[:20]:
                print("NO ANSWER:", p[:3000])
            return 2
        tot = lambda k: sum(d[k] for _, d in results)
        print(f"{self.prop} {self.tier}: held; {len(results)} jobs, {tot('paths')} paths, {validated} replayed natively, {time.time()-t0:.1f}s (build {t_build:.1f}s)")
        return 0

    def not_derived(self, e, wall):
        """The program the property speaks of cannot be encoded, because the derive macros make no valid code of a type of the
        harness that they make code of on the unchanged tree. Reported only where the macros' output is the property's subject
        and every error is inside that output; anything else is no answer."""
        macros = {"J01": "Json", "J07": "Json", "R01": "Ron", "R05": "Ron", "B01": "Bin"}.get(self.prop)
        errors = [b for b in re.split(r"\n(?=error|warning)", "\n" + e.log) if b.lstrip().startswith("error") and " --> " in b]
        ours = [b for b in errors if re.search(r"src/[a-z0-9_]+\.rs:", b) and re.search(r"derive macro `(Ser|De)%s`|proc-macro derive" % macros, b)]
        if not macros or not errors or len(ours) != len(errors):
            raise e
        self.evidence([], [1], {}, 0, [], wall, wall, ["the harness does not compile"])
        path = os.path.join(self.ev, f"{self.prop}.replay1.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "kind": "derive", "message": "derived code of a supported type does not compile", "rustc": ours,
                       "reproduce": f"cd {HERE}/harness && cargo build --offline --features {self.p['module']},native"}, f, indent=1)
        print(f"derived code does not compile: {ours[0].strip()[:600]}")
        print(f"VIOLATION property={self.prop} replay={path}")
        return 1

    def evidence(self, results, violations, known_hit, validated, samples, wall, t_build, problems):
        S = lambda k: sum(d["solver"][k] for _, d in results)
        fns = {}
        for j, d in results:
            for n, k in d["functions"]:
                fns[n] = max(fns.get(n, 0), k)
        own = sorted(n for n in fns if "nanoserde" in n)
        ass = [0, 0, 0]
        for _, d in results:
            for v in d["asserts"].values():
                for i in range(3):
                    ass[i] += v[i]
        slow = sorted(results, key=lambda x: -x[1]["wall_s"])[:8]
        cov = {
            "states": sum(d["paths"] for _, d in results),
            "transitions": sum(d["forks"] for _, d in results),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "meaning_of_states": "feasible symbolic paths executed to the end; each stands for every input satisfying its path condition",
            "meaning_of_transitions": "branch decisions at which both sides were feasible and the path forked",
            "paths_outside_assumptions": sum(d["paths_assumed_away"] for _, d in results),
            "instructions_executed_symbolically": sum(d["instructions"] for _, d in results),
            "longest_path_instructions": max([d["max_path_steps"] for _, d in results] or [0]),
            "jobs": len(results),
            "bounds": self.p["bounds"](self.tier) if callable(self.p["bounds"]) else self.p["bounds"],
            "outside_bounds": self.p.get("outside", ""),
            "functions_encoded": len(fns),
            "functions_encoded_of_nanoserde_after_inlining": [n[:160] for n in own][:120],
            "solver": {
                "name": results[0][1]["solver"]["z3"] if results else "",
                "queries": S("z3_queries"), "sat": S("z3_sat"), "unsat": S("z3_unsat"), "unknown": S("z3_unknown"), "time_s": round(S("z3_time_s"), 3),
                "decided_without_z3": {"byte_domain": S("byte_domain_decided"), "interval": S("interval_decided"), "model_evaluation": S("model_guess_decided"), "cache": S("cache_hits")},
                "cheap_decisions_audited_with_z3": S("audited_with_z3"),
                "rewrites": S("rewrites"), "rewrites_proved_with_z3": S("rewrites_proved_by_z3"),
            },
            "assertions": {"true_after_simplification": ass[0], "proved_by_solver": ass[1], "violated": ass[2]},
            "slowest_jobs": [{"job": j.name(), "wall_s": d["wall_s"], "paths": d["paths"]} for j, d in slow],
            "build_s": round(t_build, 1),
            "unresolved": problems[:5],
            "exhaustive": False,
        }
        with open(os.path.join(self.ev, self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
                       "assumptions": spec.ASSUMPTIONS + self.p.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(violations)}, f, indent=1)


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        build_nsx()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        return Check(prop, tier).main()
    except NoAnswer as e:
        print("NO ANSWER:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
