#!/usr/bin/env python3
"""Driver of the checks: python3 bin/check.py ID [--tier quick|thorough] [--only KEY]

Builds the harness of property ID against /repo's working tree, runs it, maps
what it reports to known findings, confirms the rest by replay, writes
evidence/ID.json and ends with 0 (held), 1 (VIOLATION line) or 2 (no answer).
"""
import argparse, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from checks import CHECKS, LIB_SOURCES  # noqa: E402

GXX = "g++"


class NoAnswer(Exception):
    pass


class BuildFailure(Exception):
    def __init__(self, what, log):
        super().__init__(what)
        self.log = log


def compile_one(job):
    cmd, log = job
    with open(log, "w") as f:
        f.write(" ".join(cmd) + "\n")
        f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT)
    return r.returncode, cmd, log


def run_jobs(jobs):
    if not jobs:
        return
    with ThreadPoolExecutor(max_workers=8) as ex:
        for rc, cmd, log in ex.map(compile_one, jobs):
            if rc != 0:
                raise BuildFailure("does not build: " + " ".join(cmd[-3:]), log)


def plan(part, bdir):
    """-> (compile jobs, link command) of one harness."""
    cxx = part.get("cxx", GXX)
    flags = ["-std=c++17", "-pthread", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "mc")]
    flags += part.get("flags", ["-O1"])
    jobs, objs = [], []

    def add(src, extra, tag):
        obj = os.path.join(bdir, part["name"] + "-" + tag + ".o")
        jobs.append(([cxx] + flags + extra + ["-c", src, "-o", obj], obj + ".log"))
        objs.append(obj)

    for s in part["src"]:
        add(os.path.join(VERIF, "mc", s), part.get("hflags", []), os.path.basename(s))
    for s in part.get("plain_src", []):   # runtime pieces that must not be instrumented
        obj = os.path.join(bdir, part["name"] + "-" + os.path.basename(s) + ".o")
        jobs.append(([cxx, "-std=c++17", "-pthread", "-O2", "-g", "-I" + os.path.join(VERIF, "mc"),
                      "-c", os.path.join(VERIF, "mc", s), "-o", obj], obj + ".log"))
        objs.append(obj)
    if part.get("lib"):
        for s in LIB_SOURCES:
            tag = hashlib.sha1(" ".join([cxx] + flags).encode()).hexdigest()[:8]
            obj = os.path.join(bdir, "lib-%s-%s.o" % (tag, s))   # shared by the parts built alike
            jobs.append(([cxx] + flags + ["-c", os.path.join(REPO, "src", s), "-o", obj], obj + ".log"))
            objs.append(obj)
    exe = os.path.join(bdir, part["name"])
    link = [cxx] + [f for f in part.get("linkflags", flags)] + objs + ["-o", exe, "-pthread"] + part.get("libs", [])
    return jobs, (link, exe + ".link.log"), exe


def run_harness(exe, part, tier, seed, bdir, only=None, case_seconds=None, timeout=800):
    tag = part["name"] + ("-replay" if only else "")
    out, crumb = os.path.join(bdir, tag + ".out.json"), os.path.join(bdir, tag + ".crumb")
    for p in (out, crumb):
        if os.path.exists(p):
            os.unlink(p)
    cmd = part.get("wrapper", []) + (["python3", exe, "--repo", REPO] if part.get("script") else [exe]) + ["--out", out, "--crumb", crumb, "--seed", str(seed)]
    if tier == "thorough":
        cmd.append("--thorough")
    cmd += ["--case-seconds", str(case_seconds or part.get("case_seconds", 120))]
    if only is not None:
        cmd += ["--only", only]
    cmd += part.get("args", [])
    env = dict(os.environ)
    env.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
                "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=98", "LC_ALL": "C"})
    env.update(part.get("env", {}))
    err_path = os.path.join(bdir, tag + ".stderr")
    t0 = time.time()
    with open(err_path, "wb") as ef:
        # runaway allocations end the harness, not the sandbox (sanitizers and valgrind need the address space)
        limit = None
        if not part.get("wrapper") and not part.get("script") and "sanitize" not in " ".join(part.get("flags", [])):
            limit = lambda: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, env=env, start_new_session=True, cwd=bdir, preexec_fn=limit)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
    err = open(err_path, errors="replace").read()[-6000:]
    key = ""
    if os.path.exists(crumb):
        key = open(crumb, "rb").read().split(b"\0")[0].decode(errors="replace")
    data = None
    if os.path.exists(out):
        try:
            data = json.load(open(out))
        except ValueError:
            data = None
    return {"rc": rc, "err": err, "crumb": key, "data": data, "wall": time.time() - t0}


def describe(res):
    if res["rc"] == 97:
        return "does not terminate"
    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|==\d+== (?:Invalid|Conditional|Use of|Uninit|Syscall|Mismatched|Argument)[^\n]*(?:\n[^\n]*){0,3}|runtime error:[^\n]*|terminate called[^\n]*(?:\n\s*what\(\)[^\n]*)?|Assertion[^\n]*failed[^\n]*|[^\n]*Assertion `[^\n]*)", res["err"])
    return "crash (exit %s): %s" % (res["rc"], (m.group(1) if m else res["err"].strip().split("\n")[-1])[:300])


def known(pid):
    """Known findings of a property: key -> description."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def base(key):
    return key.split("#")[0]


def examine(exe, part, tier, seed, bdir, deadline):
    """Run one harness; -> (counts, samples, info, violations[{key, what}])."""
    res = run_harness(exe, part, tier, seed, bdir, timeout=max(30, deadline - time.time()))
    if res["rc"] == "timeout":
        raise NoAnswer("%s: time budget exhausted in case %s" % (part["name"], res["crumb"]))
    if res["rc"] in (0, 1) and res["data"] and res["data"]["status"] == "done":
        if part.get("crash_only"):   # what the harness says about its own property is not the question here
            return res["data"], [], exe
        return res["data"], res["data"]["violations"], exe
    # died or hung: replay the case alone, then, if that does not show it, the whole run
    key = res["crumb"]
    what = describe(res)
    hang = res["rc"] == 97
    again = run_harness(exe, part, tier, seed, bdir, only=key,
                        case_seconds=part.get("hang_seconds", 240) if hang else None,
                        timeout=max(30, min(400, deadline - time.time())))
    if again["rc"] not in (0, 1, "timeout"):
        return res["data"], [{"key": key, "what": what, "confirmed": True}], exe
    if again["rc"] == 1 and again["data"] and again["data"]["violations"] and not part.get("crash_only"):
        v = again["data"]["violations"]
        for x in v:
            x["confirmed"] = True
        return again["data"], v, exe
    if not hang:
        again = run_harness(exe, part, tier, seed, bdir, timeout=max(30, deadline - time.time()))
        if again["rc"] == res["rc"] and again["crumb"] == key:
            return res["data"], [{"key": key, "what": what + " (after the cases before it)", "confirmed": True}], exe
    raise NoAnswer("%s: case %s ended with %s once and not again\n%s" % (part["name"], key, res["rc"], res["err"][-2000:]))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--self-test", action="store_true", help="are the tools the checks need there?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    if a.self_test:
        for tool in (GXX, "clang++"):
            print(subprocess.run([tool, "--version"], stdout=subprocess.PIPE, text=True, check=True).stdout.split("\n")[0])
        for d in ("build", "replays", "evidence"):
            os.makedirs(os.path.join(VERIF, d), exist_ok=True)
        return 0
    pid = a.id
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    bdir = os.path.join(VERIF, "build", pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)

    parts = [p for p in spec["parts"] if tier in p.get("tiers", ("quick", "thorough"))]
    counts, samples, infos, viols = {}, [], {}, []
    rc = 0
    try:
        built = []
        try:
            jobs, links = [], []
            for p in parts:
                if p.get("script"):
                    built.append((p, os.path.join(VERIF, "mc", p["script"])))
                    continue
                j, l, exe = plan(p, bdir)
                jobs += j
                links.append(l)
                built.append((p, exe))
            run_jobs(list({j[1]: j for j in jobs}.values()))
            run_jobs(links)
        except BuildFailure as e:
            log = open(e.log, errors="replace").read()
            sys.stderr.write(log[-4000:])
            if spec.get("build_failure_is_violation"):
                viols.append({"key": "build/" + os.path.basename(e.log), "what": str(e), "part": None, "confirmed": True})
                built = []
            else:
                raise NoAnswer(str(e))
        done = {}
        if spec.get("parallel") and a.only is None:
            with ThreadPoolExecutor(max_workers=spec["parallel"]) as ex:
                futs = [(exe, ex.submit(examine, exe, p, tier, seed, bdir, deadline)) for p, exe in built]
            done = {exe: f.result() for exe, f in futs}
        for p, exe in built:
            if a.only is not None:
                r = run_harness(exe, p, tier, seed, bdir, only=a.only, timeout=600)
                print(p["name"], "exit", r["rc"], (r["data"] or {}).get("violations"))
                if r["rc"] not in (0, 1):
                    print(describe(r))
                rc = max(rc, 0 if r["rc"] == 0 else 1)
                continue
            data, vs, exe = done.get(exe) or examine(exe, p, tier, seed, bdir, deadline)
            if data:
                for k, v in data["counts"].items():
                    counts[k] = counts.get(k, 0) + v
                samples += data["samples"]
                infos.update({(p["name"] + ": " if k in infos else "") + k: v for k, v in data["info"].items()})
            for v in vs:
                v["part"], v["exe"] = p, exe
                viols.append(v)
        if a.only is not None:
            return rc

        kf = known(pid)
        listed = [v for v in viols if v["key"] in kf]
        fresh = [v for v in viols if v["key"] not in kf]
        for v in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, v["key"], kf[v["key"]]))
        # confirm: replay the case of each new violation (the first few) before believing it
        confirmed = []
        rerun = {}
        for v in fresh[:4]:
            if not v.get("confirmed"):
                p, exe = v["part"], v["exe"]
                r = run_harness(exe, p, tier, seed, bdir, only=base(v["key"]), timeout=max(30, min(400, deadline - time.time())))
                ok = r["rc"] not in (0, "timeout")
                if not ok:
                    if p["name"] not in rerun:
                        rerun[p["name"]] = run_harness(exe, p, tier, seed, bdir, timeout=max(30, deadline - time.time()))
                    d = rerun[p["name"]]["data"]
                    ok = rerun[p["name"]]["rc"] not in (0, 1) or any(x["key"] == v["key"] for x in (d or {}).get("violations", []))
                    if ok:
                        v["what"] += " (only after the cases before it)"
                if not ok:
                    raise NoAnswer("violation %s (%s) did not reproduce" % (v["key"], v["what"]))
            confirmed.append(v)
        for v in confirmed:
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.sha1(v["key"].encode()).hexdigest()[:10]))
            json.dump({"property": pid, "harness": (v["part"] or {}).get("name"), "case": v["key"], "what": v["what"],
                       "replay": "python3 bin/check.py %s --tier %s --only '%s'" % (pid, tier, base(v["key"]))},
                      open(path, "w"), indent=1)
            print("%s: %s: %s" % (pid, v["key"], v["what"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
        write_evidence(pid, spec, tier, seed, counts, samples, infos, parts, len(fresh), len(listed), time.time() - t0)
        print("%s %s: %s in %.1f s: %s" % (pid, tier, "VIOLATED" if rc else "held", time.time() - t0,
                                         ", ".join("%s=%d" % kv for kv in sorted(counts.items()))))
        return rc
    except NoAnswer as e:
        print("%s: no answer: %s" % (pid, e))
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)


def write_evidence(pid, spec, tier, seed, counts, samples, infos, parts, nviol, nlisted, wall):
    cov = {k: int(v) for k, v in counts.items()}
    cov["samples"] = samples[:20] or ["none"]
    cov["bounds"] = infos
    cov["exhaustive"] = bool(spec.get("exhaustive", True))
    cov["known_findings_seen"] = nlisted
    level = spec["level"]
    if level == "model_checking":
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov.setdefault(k, 0)
    else:
        for k in ("evaluations", "distinct_nontrivial"):
            cov.setdefault(k, 0)
        cov["rule"] = spec.get("rule", "")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}
    path = os.path.join(VERIF, "evidence", pid + ".json")
    json.dump(ev, open(path + ".tmp", "w"), indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
