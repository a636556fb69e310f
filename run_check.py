#!/usr/bin/env python3
"""Driver of the checks:  run_check.py <ID> [--replay FILE] [--keep]

Builds the harness of one property from /repo's working tree in a scratch directory, runs the exhaustive
exploration, writes evidence/<ID>.json and, on a violation, evidence/replay-<ID>.json.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Anything else: error of the check.
"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("AESI_REPO", "/repo")
H = os.path.join(VERIF, "harness")
EV = os.path.join(VERIF, "evidence")
sys.path.insert(0, H)
import checks  # noqa: E402
import dictionary  # noqa: E402

TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = os.cpu_count() or 4


class CheckError(Exception):
    pass


class Violation(Exception):
    """a violation found by a python-driven check: message, replay (dict)"""
    def __init__(self, message, replay):
        super().__init__(message)
        self.message, self.replay = message, replay


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)


class BuildFailed(CheckError):
    def __init__(self, label, argv, out):
        super().__init__("compilation of %s failed:\n%s" % (label, out[-6000:]))
        self.label, self.argv, self.out = label, argv, out


def compile_all(jobs):
    """jobs: list of (label, argv); raises BuildFailed if one fails"""
    def one(j):
        r = sh(j[1], timeout=850)
        return j[0], r.returncode, r.stdout
    with ThreadPoolExecutor(JOBS) as ex:
        for label, rc, out in ex.map(one, jobs):
            if rc:
                raise BuildFailed(label, next(a for l, a in jobs if l == label), out)


def build(spec, tmp):
    cxx = spec.get("cxx", "g++")
    base = [cxx, "-std=c++20", *spec.get("flags", ["-O2"]), "-w", *([] if "nogla" in spec else ["-D_GLIBCXX_ASSERTIONS"]),
            "-DVERIF_TIER_%s=1" % TIER.upper(), "-I", os.path.join(REPO, "include"), "-I", H]
    open(os.path.join(tmp, "dictionary.h"), "w").write(dictionary.header(REPO))
    base += ["-I", tmp]
    jobs, objs = [], []
    for src in spec["sources"]:
        name, parts = (src, [None]) if isinstance(src, str) else src
        for p in (parts if isinstance(parts, list) else range(parts)):
            o = os.path.join(tmp, "%s_%s.o" % (name, p))
            jobs.append(("%s part %s" % (name, p), base + spec.get("source_flags", {}).get(name, []) + ([] if p is None else ["-DPART=%d" % p]) + ["-c", os.path.join(H, name), "-o", o]))
            objs.append(o)
    o = os.path.join(tmp, "mc_main.o")
    jobs.append(("mc_main", [cxx, "-std=c++20", "-O2", *spec.get("mainflags", []), "-I", H, "-c", os.path.join(H, "mc_main.cpp"), "-o", o]))
    objs.append(o)
    compile_all(jobs)
    exe = os.path.join(tmp, "check")
    r = sh([cxx, *spec.get("ldflags", []), *objs, "-lgmpxx", "-lgmp", "-pthread", "-o", exe])
    if r.returncode:
        raise CheckError("link failed:\n" + r.stdout[-4000:])
    return exe


def build_configs(spec, tmp):
    """the configurations of C24: one shared object each; returns the environment entry, or raises Violation"""
    def one(item):
        i, (name, unchecked, cxx, flags) = item
        so = os.path.join(tmp, "cfg%d.so" % i)
        r = sh([cxx, *flags, "-w", "-fPIC", "-shared", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-Wl,-Bsymbolic", *(["-fno-gnu-unique"] if cxx == "g++" else []),
                "-I", os.path.join(REPO, "include"), "-I", H, "-I", os.path.join(H, "cudastub"), "-I", tmp, os.path.join(H, spec["config_source"]), *spec.get("config_libs", []), "-o", so], timeout=850)
        return name, unchecked, so, r
    open(os.path.join(tmp, "dictionary.h"), "w").write(dictionary.header(REPO))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, enumerate(spec["configs"])))
    bad = [(n, r) for n, _, _, r in res if r.returncode]
    if bad and len(bad) == len(res):
        raise CheckError("no configuration compiles:\n" + bad[0][1].stdout[-5000:])
    if bad:
        n, r = bad[0]
        raise Violation("the configuration [%s] does not compile, others do" % n, {"log": r.stdout[-5000:], "config": n})
    return "".join("%s\t%d\t%s\n" % (so, u, n) for n, u, so, _ in res)


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            if line.startswith("known: property=%s " % pid):
                # known: property=<id> :: <space> | <execution> :: <what fails>
                _, ident, what = line.split(" :: ", 2)
                out.append((ident, what))
    return out


def run_binary(exe, pid, spec, tmp):
    out = os.path.join(tmp, "out.json")
    known = known_findings(pid)
    args = [exe, out]
    if known:
        kf = os.path.join(tmp, "known.txt")
        open(kf, "w").write("".join(k + "\n" for k, _ in known))
        args += ["--known", kf]
    env = dict(os.environ, VERIF_TIER=TIER, **spec.get("env", {}))
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env)
    if r.returncode not in (0, 1):
        raise CheckError("exploration ended with %s\n%s\n%s" % (r.returncode, r.stdout[-3000:], r.stderr[-6000:]))
    if env.get("MC_TIMES"):
        sys.stderr.write("".join(sorted(r.stderr.splitlines(True), reverse=True)[:12]))
    d = json.load(open(out))
    for (ident, what), hits in zip(known, d.get("known_hits", [])):
        if hits:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    return r.returncode, d


def coverage_of(d, extra=None):
    per = {s["name"]: s["done"] for s in d["spaces"]}
    cov = {
        "states": d["states"], "transitions": d["transitions"],
        "traces_validated_against_impl": d["executions"],
        "samples": d["samples"][:8], "exhaustive": bool(d["complete"]) and not d.get("capped"), "capped_explorations": d.get("capped", 0),
        "spaces": per, "source_dictionary": dictionary.new_literals(REPO), "states_is_lower_bound": bool(d["states_saturated"]),
        "explanation": "every execution of every listed space was run on the real implementation in lockstep with the reference model; "
                       "states = distinct observed values, transitions = operations executed and compared, "
                       "traces = enumerated executions",
    }
    if extra:
        cov.update(extra)
    return cov


def write_evidence(pid, cov, wall, violations, assumptions):
    os.makedirs(EV, exist_ok=True)
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
          "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(EV, ".%s.tmp" % pid)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EV, pid + ".json"))


def report(pid, replay):
    path = os.path.join(EV, "replay-%s.json" % pid)
    os.makedirs(EV, exist_ok=True)
    json.dump(replay, open(path, "w"), indent=1)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    print(json.dumps(replay, indent=1)[:6000])


def main():
    pid = sys.argv[1]
    if pid == "--setup":      # nothing is prebuilt (every check builds from the working tree); make sure the tools are there
        missing = [t for t in ("g++", "clang++") if not shutil.which(t)]
        print("setup:", "missing " + " ".join(missing) if missing else "ok")
        os.makedirs(EV, exist_ok=True)
        return 1 if missing else 0
    spec = checks.CHECKS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        if "--replay" in sys.argv:
            rp = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
            if "python" in spec and "space" not in rp:
                return spec["python"].replay(sys.modules[__name__], spec, pid, tmp, rp)
            if "configs" in spec:
                try:
                    spec = dict(spec, env={"VERIF_CONFIGS": build_configs(spec, tmp)})
                except Violation as e:
                    print(e.message, e.replay)
                    return 1
            if "build" in rp:
                try:
                    for n, v in enumerate(spec.get("variants", [{}])):
                        os.mkdir(os.path.join(tmp, "v%d" % n))
                        build(dict(spec, **v), os.path.join(tmp, "v%d" % n))
                except BuildFailed as e:
                    print(e)
                    return 1
                return 0
            if "variants" in spec:
                spec = dict(spec, **spec["variants"][rp.get("variant", 0)])
            exe = build(spec, tmp)
            os.environ["VERIF_TIER"] = rp.get("tier", TIER)
            r = subprocess.run([exe, "--replay", rp["space"], str(rp["from"]), str(rp["to"])], env=dict(os.environ, **spec.get("env", {})))
            return r.returncode
        extra = {}
        if "configs" in spec:
            try:
                spec = dict(spec, env={"VERIF_CONFIGS": build_configs(spec, tmp)})
            except Violation as v:
                write_evidence(pid, {"explanation": "a configuration was rejected by the compiler", "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [v.message]}, time.time() - t0, 1, spec.get("assumptions", []))
                report(pid, dict(v.replay, property=pid, message=v.message, tier=TIER, build="configurations"))
                return 1
            extra["configurations"] = [c[0] for c in spec["configs"]]
        if "python" in spec:
            try:
                cov = spec["python"].run(sys.modules[__name__], spec, pid, tmp)
            except Violation as v:
                rp = dict(v.replay, property=pid, message=v.message, tier=TIER)
                write_evidence(pid, v.replay.get("coverage") or {"explanation": "stopped at the first violation", "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [v.message[:500]]},
                               time.time() - t0, 1, spec.get("assumptions", []))
                report(pid, rp)
                return 1
            write_evidence(pid, cov, time.time() - t0, 0, spec.get("assumptions", []))
            print("OK property=%s tier=%s states=%s transitions=%s traces=%s wall=%.1fs" % (pid, TIER, cov.get("states"), cov.get("transitions"), cov.get("traces_validated_against_impl"), time.time() - t0))
            return 0
        variants = [dict(spec, **v) for v in spec.get("variants", [{}])]
        exes = []
        try:
            for n, v in enumerate(variants):
                sub = os.path.join(tmp, "v%d" % n)
                os.mkdir(sub)
                exes.append(build(v, sub))
        except BuildFailed as e:
            # the property is decided (in part) by the compiler: a program that is well formed without the
            # feature under check (control build) and rejected with it is a violation
            if "control" not in spec or e.label == "mc_main":
                raise
            r = sh(e.argv + spec["control"], timeout=850)
            if r.returncode:
                raise
            msg = [l for l in e.out.splitlines() if "error" in l][:6]
            write_evidence(pid, {"explanation": "the compiler rejected an execution", "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": msg or ["build failed"]},
                           time.time() - t0, 1, spec.get("assumptions", []))
            report(pid, {"property": pid, "tier": TIER, "build": e.label, "message": "%s (the same program compiles with %s)" % (spec["control_message"], " ".join(spec["control"])),
                         "log": e.out[:5000], "replay_cmd": " ".join(e.argv)})
            return 1
        tb = time.time()
        d = None
        for n, (v, exe) in enumerate(zip(variants, exes)):
            rc, dv = run_binary(exe, pid, v, tmp)
            if d is None:
                d = dv
            else:
                for k in ("states", "transitions", "executions"):
                    d[k] += dv[k]
                d["capped"] = d.get("capped", 0) + dv.get("capped", 0)
                d["complete"] = d["complete"] and dv["complete"]
                d["spaces"] += dv["spaces"]
                d["violation"] = dv.get("violation")
            if rc:
                break
        extra["build_s"] = round(tb - t0, 1)
        if "variants" in spec:
            extra["variants"] = [v["variant_name"] for v in spec["variants"]]
        write_evidence(pid, coverage_of(d, extra), time.time() - t0, 1 if rc else 0, spec.get("assumptions", []))
        if rc:
            v = d["violation"]
            report(pid, {"property": pid, "tier": TIER, "variant": n, "space": v["space"], "from": v["from"], "to": v["to"], "at": v["at"],
                         "execution": v["execution"], "message": v["message"], "log": v.get("log", ""),
                         "replay_cmd": "cd /verif && python3 run_check.py %s --replay evidence/replay-%s.json" % (pid, pid)})
            return 1
        print("OK property=%s tier=%s states=%s transitions=%s traces=%s build=%.1fs wall=%.1fs" % (pid, TIER, d["states"], d["transitions"], d["executions"], tb - t0, time.time() - t0))
        return 0
    except CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    finally:
        if "--keep" in sys.argv:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
