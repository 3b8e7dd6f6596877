#!/usr/bin/env python3
"""Builds one property's harness from /repo's current working tree, explores its whole case space, writes the evidence
file and prints the verdict.   run.py <property> [quick|thorough]   run.py --replay <replay file>   (see DESIGN.md)"""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
NPROC = int(os.environ.get("VP_JOBS", os.cpu_count() or 4))
CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))
COMMON = CHECKS["common"]

ENV = dict(os.environ, OMPI_CXX="g++", TZ="UTC", LANG="C.UTF-8", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
           OMPI_MCA_btl="self", OMPI_MCA_pml="ob1", OMPI_MCA_plm_rsh_agent="true", OMPI_MCA_btl_base_warn_component_unused="0",
           ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:" + os.environ.get("VP_ASAN",""),
           OMP_NUM_THREADS="1")


def sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def compile_one(src, obj, flags):
    """Compiles src unless the object is known to come from the very same bytes of every file it depends on."""
    dep, key = obj + ".d", obj + ".key"
    cmd = ["mpicxx"] + flags + ["-MD", "-MF", dep, "-c", src, "-o", obj]
    stamp = hashlib.sha256(" ".join(cmd).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(key):
        try:
            k = json.load(open(key))
            if k["stamp"] == stamp and all(sha(p) == d for p, d in k["deps"].items()):
                return ""
        except Exception:
            pass
    for p in (obj, key):
        if os.path.exists(p):
            os.remove(p)
    r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return "compiling %s failed:\n%s" % (src, r.stdout[-6000:])
    names = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = {p: sha(p) for p in sorted(set(names)) if p.startswith(REPO + "/") or p.startswith(VERIF + "/")}
    json.dump({"stamp": stamp, "deps": deps}, open(key, "w"))
    return ""


def build(prop, cfg):
    d = os.path.join(BUILD, prop)
    os.makedirs(d, exist_ok=True)
    flags = [f for f in COMMON["flags"] if f not in cfg.get("drop_flags", [])]
    flags += ["-I" + REPO + "/src", "-I" + os.path.join(VERIF, "harness")]
    for inc in cfg.get("includes", []):
        flags.append("-I" + os.path.join(VERIF, inc))
    flags += ["-I" + p for p in COMMON["includes"]]
    flags += cfg.get("flags", [])
    link = []
    if cfg.get("asan", True):
        flags += ["-fsanitize=address", "-fno-omit-frame-pointer"]
        link += ["-fsanitize=address"]
    if cfg.get("bounds_check", True):
        flags += ["-DKOKKOS_ENABLE_DEBUG_BOUNDS_CHECK"]
    jobs = []
    for s in cfg["sources"]:
        jobs.append((os.path.join(VERIF, s), os.path.join(d, os.path.basename(s) + ".o"), flags))
    for n, u in enumerate(cfg.get("units", [])):  # one source compiled several times: [source, define, define, ...]
        jobs.append((os.path.join(VERIF, u[0]), os.path.join(d, "%s.%d.o" % (os.path.basename(u[0]), n)), flags + ["-D" + x for x in u[1:]]))
    for s in cfg.get("repo_sources", []):
        jobs.append((os.path.join(REPO, s), os.path.join(d, s.replace("/", "_") + ".o"), flags))
    with ThreadPoolExecutor(max(2, NPROC)) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
    if errs:
        print("\n".join(errs))
        print("ERROR: property=%s the harness does not build against this tree" % prop)
        sys.exit(2)
    exe = os.path.join(d, "harness")
    libs = ["-l" + l for l in COMMON["libs"] + cfg.get("libs", [])]
    cmd = ["mpicxx"] + link + [j[1] for j in jobs] + ["-o", exe] + libs
    r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("ERROR: property=%s the harness does not link against this tree" % prop)
        sys.exit(2)
    return exe, d


def run_exe(exe, args, timeout, cwd):
    os.makedirs(cwd, exist_ok=True)
    p = subprocess.Popen([exe] + args, env=ENV, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    try:
        _, err = p.communicate(timeout=timeout)
        return p.returncode, err.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        _, err = p.communicate()
        return "timeout", err.decode("utf-8", "replace")


def read_progress(path):
    try:
        b = open(path, "rb").read()
        return b[:64].split(b"\0")[0].decode(), struct.unpack("<Q", b[64:72])[0]
    except Exception:
        return None


def crash_text(rc, err):
    head = ""
    for ln in err.splitlines():
        if "ERROR: AddressSanitizer" in ln or "View bounds error" in ln or "terminate called" in ln or "what():" in ln or "Kokkos" in ln:
            head = ln.strip()
            break
    if rc in ("timeout", 98):
        return "the code under test does not return (time limit)"
    return "the code under test ended the process (status %s) %s" % (rc, head)


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        prop, tier = r["property"], r["tier"]
        exe, d = build(prop, CHECKS["checks"][prop])
        scratch = os.path.join(d, "scratch-replay")
        rc, err = run_exe(exe, r["args"] + ["--scratch", scratch], 600, scratch)
        shutil.rmtree(scratch, ignore_errors=True)
        print(err[-4000:])
        print("replay status", rc)
        sys.exit(0 if rc == 0 else 1)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    cfg = CHECKS["checks"][prop]
    t0 = time.time()
    if cfg.get("pre"):
        # e.g. an explicit-state model whose traces the harness replays
        r = subprocess.run([sys.executable, os.path.join(VERIF, cfg["pre"]), tier], env=dict(ENV, VP_BUILD=BUILD))
        if r.returncode != 0:
            print("ERROR: property=%s pre-step failed" % prop)
            sys.exit(2)
    exe, d = build(prop, cfg)
    t_build = time.time() - t0
    # known_findings.txt: "known: property=<id> id=<defect> :: <what fails>" lets the harness accept exactly the behaviour it has
    # on record for that call site; "fixed: property=<id> <commit> <what failed>" is a record and suppresses nothing
    known = {}
    kf = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for ln in open(kf):
            m = re.match(r"known: property=(\S+) id=(\S+) :: (.*)$", ln.rstrip("\n"))
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    base = ["--thorough"] if tier == "thorough" else []
    for id in known:
        base += ["--known", id]

    limit = cfg.get("timeout_thorough", 6 * 3600) if tier == "thorough" else cfg.get("timeout_quick", 600)

    def paths(k):
        return [os.path.join(d, "%s-%d" % (n, k)) for n in ("out", "progress", "scratch")]

    def shard_args(k):
        out, prog, scr = paths(k)
        return base + ["--shard", str(k), str(NPROC), "--out", out, "--progress", prog, "--scratch", scr]

    def shard(k):
        out, prog, scr = paths(k)
        for p in (out, prog):
            if os.path.exists(p):
                os.remove(p)
        rc, err = run_exe(exe, shard_args(k), limit, scr)
        shutil.rmtree(scr, ignore_errors=True)
        res = None
        if rc in (0, 1) and os.path.exists(out):
            try:
                res = json.load(open(out))
            except Exception:
                res = None
        return k, rc, err, res, read_progress(prog)

    with ThreadPoolExecutor(NPROC) as ex:
        shards = list(ex.map(shard, range(NPROC)))

    violations, known_hit, errors, hung = [], {}, [], []

    def confirm(sec, idx, k, what, inp):
        """Replay before report: alone, and if that does not fail, in its shard (a history of earlier cases)."""
        if len(hung) > 1:
            return  # two confirmed hangs are enough to report
        scr = os.path.join(d, "scratch-confirm")
        args = base + ["--only", sec, str(idx)]
        rc, err = run_exe(exe, args + ["--scratch", scr], 120, scr)
        shutil.rmtree(scr, ignore_errors=True)
        if rc == 98 or rc == "timeout":
            hung.append(sec)
        if rc in (2, 3):
            errors.append("replay of %s[%d] could not run: %s" % (sec, idx, err[-300:]))
            return
        if rc != 0:
            violations.append(dict(section=sec, index=idx, what=what, input=inp, args=args, stderr=err[-3000:]))
            return
        _, rc2, err2, res2, prog2 = shard(k)
        if rc2 == 0:
            errors.append("%s[%d] failed once and then passed twice: not reported (%s)" % (sec, idx, what))
        else:
            violations.append(dict(section=sec, index=idx, what=what + " (needs the cases before it)", input=inp,
                                   args=base + ["--shard", str(k), str(NPROC)], stderr=err2[-3000:]))

    agg, samples = {}, []
    first = {}
    for k, rc, err, res, prog in shards:
        if res is None:
            if prog is None or not prog[0]:
                errors.append("shard %d gave no result (status %s): %s" % (k, rc, err[-1500:]))
                continue
            first.setdefault(("crash", prog[0]), (prog[0], prog[1], k, crash_text(rc, err), ""))
            continue
        for id, n in res["known"].items():
            known_hit[id] = known_hit.get(id, 0) + n
        for s in res["sections"]:
            a = agg.setdefault(s["name"], dict(declared=s["declared"], visited=0, checks=0, calls=0, outcomes=0, skipped=0))
            for f in ("visited", "checks", "calls", "skipped"):
                a[f] += s[f]
            a["outcomes"] = max(a["outcomes"], s["outcomes"])
            if s["sample"] and not s["sample"].endswith(": ") and len(samples) < 12 and not any(x.split("[")[0] == s["name"] for x in samples):
                samples.append(s["sample"][:400])
        for v in res["violations"]:
            key = (v["section"], v["what"].split(":")[0])
            if key not in first or v["index"] < first[key][1]:
                first[key] = (v["section"], v["index"], k, v["what"], v["input"])
    for sec, idx, k, what, inp in sorted(first.values(), key=lambda t: (t[0], t[1]))[:12]:
        confirm(sec, idx, k, what, inp)

    for name, a in agg.items():
        if not violations and a["visited"] != a["declared"]:
            errors.append("section %s visited %d of %d cases" % (name, a["visited"], a["declared"]))
    visited = sum(a["visited"] for a in agg.values())
    if visited == 0 and not violations:
        errors.append("nothing was explored")
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": sum(a["outcomes"] for a in agg.values()),
            "transitions": sum(a["calls"] for a in agg.values()),
            "traces_validated_against_impl": visited,
            "comparisons": sum(a["checks"] for a in agg.values()),
            "cases_outside_the_specification": sum(a["skipped"] for a in agg.values()),
            "exhaustive": not violations and not errors,
            "bounds": cfg["bounds"],
            "meaning": "traces = cases of the declared finite space, each run on the real code and compared with the reference model; "
                       "transitions = calls into the real code; states = distinct observed result vectors (largest shard, summed over sections)",
            "sections": agg, "samples": samples,
        },
        "assumptions": COMMON["assumptions"] + cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    if known_hit:
        ev["coverage"]["known_findings_observed"] = known_hit
    ev["coverage"]["build_s"] = round(t_build, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    for id in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[id]))
    for m in errors:
        print("ERROR: " + m)
    if violations:
        rd = os.path.join(BUILD, "replay")
        os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(violations):
            path = os.path.join(rd, "%s-%d.json" % (prop, n))
            json.dump(dict(property=prop, tier=tier, **v, replay_cmd="python3 %s --replay %s" % (os.path.join(VERIF, "run.py"), path)),
                      open(path, "w"), indent=1)
            print("  %s[%d]: %s | %s" % (v["section"], v["index"], v["what"][:300].replace("\n", " "), v["input"][:300].replace("\n", " ")))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if errors:
        sys.exit(2)
    print("OK property=%s tier=%s cases=%d transitions=%d wall=%.1fs (build %.1fs)" % (prop, tier, visited, ev["coverage"]["transitions"],
                                                                                      ev["wall_s"], t_build))


main()
