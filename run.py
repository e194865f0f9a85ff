#!/usr/bin/env python3
"""Driver of the checks: run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--only FAMILY] [--scale X]

Builds the harness of property <ID> from /repo's working tree, runs it, writes evidence/<ID>.json.
Exit 0: held on everything explored. Exit 1 with `VIOLATION property=<ID> replay=<path>` lines: broken.
Anything else: the check itself could not run.
"""
import argparse, concurrent.futures, json, os, pathlib, shutil, subprocess, sys, time

VERIF = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, str(VERIF / "lib"))

INCLUDES = ["-I", str(REPO / "include"), "-I", str(REPO / "bindings/c/include"), "-I", str(VERIF / "lib")]
DEFS = ["-DUSE_LIBFFTW", "-DUSE_LIBSAMPLERATE", "-DUSE_LIBSNDFILE", "-DUSE_TAGLIB", "-DNDEBUG"]
BASE = ["-std=c++17", "-O1", "-g1", "-include", "cstdint", "-w", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr"]
LIBS = ["-lfftw3", "-lfftw3f", "-lsndfile", "-lsamplerate", "-ltag", "-ldl", "-lm", "-lpthread"]

# property -> {sources, flags, repo_sources, cap_quick, cap_thorough, assumptions}
from checks import CHECKS  # noqa: E402


def log(*a):
    print(*a, flush=True)


def compile_one(args):
    src, obj, flags, san, fallback = args
    cmd = ["g++"] + BASE + san + DEFS + INCLUDES + flags + ["-c", str(src), "-o", str(obj)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode and fallback:
        log(f"note: {src} does not compile as it is, trying {' '.join(fallback)}: {p.stdout[:300]}")
        p = subprocess.run(cmd + fallback, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return src, p.returncode, p.stdout


def build_cpp(pid, spec, bdir):
    san = spec.get("san", SAN)
    jobs = [(VERIF / "lib/main.cpp", bdir / "main.o", [])]
    for s in spec["sources"]:
        p = VERIF / "harness" / s
        jobs.append((p, bdir / (p.stem + ".o"), spec.get("flags", [])))
    for s in spec.get("repo_sources", []):
        p = REPO / s
        jobs.append((p, bdir / ("repo_" + s.replace("/", "_") + ".o"), ["-x", "c++"] + spec.get("flags", []) + spec.get("repo_flags", [])))
    # the same C sources once more in single precision, their C names prefixed so that both sets link into one harness
    single = []
    if spec.get("single"):
        for s in spec.get("repo_sources", []):
            p = REPO / s
            single.append((p, bdir / ("single_" + s.replace("/", "_") + ".o"), ["-x", "c++", "-DENABLE_SINGLE"] + spec.get("flags", [])))
        for s in spec["single"]:
            p = VERIF / "harness" / s
            single.append((p, bdir / ("single_harness_" + p.stem + ".o"), ["-DENABLE_SINGLE"] + spec.get("flags", [])))
        jobs += single
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compile_one, [j + (san, spec.get("fallback")) for j in jobs]))
    bad = [r for r in res if r[1] != 0]
    for src, rc, out in bad:
        log(f"BUILD ERROR {src}\n{out[:6000]}")
    if bad:
        sys.exit(2)
    if single:
        objs = [str(j[1]) for j in single]
        nm = subprocess.run(["nm", "--defined-only", "-g"] + [o for o in objs if "/single_harness_" not in o], stdout=subprocess.PIPE, text=True).stdout
        names = sorted({w[2] for w in (l.split() for l in nm.splitlines()) if len(w) == 3 and w[1] == "T" and not w[2].startswith("_")})
        (bdir / "rename.txt").write_text("".join(f"{n} single_{n}\n" for n in names))
        for o in objs:
            subprocess.run(["objcopy", "--redefine-syms", str(bdir / "rename.txt"), o], check=True)
    exe = bdir / "harness"
    cmd = ["g++"] + san + ["-g1", "-o", str(exe)] + [str(j[1]) for j in jobs] + LIBS + spec.get("libs", [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        log("LINK ERROR\n" + p.stdout[:6000])
        sys.exit(2)
    return exe


def harness_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                           "max_malloc_fill_size=100000000:malloc_fill_byte=171:hard_rss_limit_mb=3500:"
                           "detect_stack_use_after_return=1:handle_abort=1")
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:report_signal_unsafe=0:die_after_fork=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
    env.pop("DISPLAY", None)
    return env


def known_entries(pid):
    f = VERIF / "known_findings.txt"
    out = []
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("known:"):
                e = json.loads(line[6:])
                if e["property"] == pid:
                    out.append(e)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.setup or not a.id:  # nothing is built ahead: every check compiles what it needs from /repo's current tree
        for d in ("build", "replays", "evidence"):
            (VERIF / d).mkdir(exist_ok=True)
        return
    pid, tier = a.id, ("thorough" if a.tier == "thorough" else "quick")
    spec = CHECKS[pid]
    t0 = time.time()
    bdir = VERIF / "build" / f"{pid}.{os.getpid()}"
    bdir.mkdir(parents=True, exist_ok=True)
    rdir = VERIF / "replays"
    rdir.mkdir(exist_ok=True)
    try:
        rc = go(pid, tier, spec, a, t0, bdir, rdir)
    finally:
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)


def go(pid, tier, spec, a, t0, bdir, rdir):
    known = known_entries(pid)
    if spec.get("kind") == "python":
        import pycheck
        exe = pycheck.prepare(REPO, bdir, VERIF)
        base_cmd = exe
    else:
        exe = build_cpp(pid, spec, bdir)
        base_cmd = [str(exe)]
    t_build = time.time() - t0
    scratch = bdir / "scratch"
    scratch.mkdir(exist_ok=True)
    env = harness_env() if spec.get("kind") != "python" else dict(os.environ)
    kargs = ["--attempts", str(spec.get("attempts", 1))]
    for e in known:
        kargs += ["--known", e["key"]]
    if a.replay:
        r = json.loads(pathlib.Path(a.replay).read_text())
        txt = scratch / "replay.txt"
        txt.write_text(r["family"] + "\n" + " ".join(map(str, r["choices"])) + "\n")
        p = subprocess.run(base_cmd + ["--replay", str(txt), "--dir", str(scratch)] + kargs, env=env)
        return p.returncode
    cap = spec.get("cap_thorough", 600) if tier == "thorough" else spec.get("cap_quick", 90)
    out = scratch / "result.json"
    cmd = base_cmd + ["--property", pid, "--seed", str(a.seed), "--tier", tier, "--out", str(out), "--dir", str(scratch),
                      "--jobs", str(spec.get("jobs", 8)), "--cap", str(cap), "--only", a.only, "--scale", str(a.scale)] + kargs
    p = subprocess.run(cmd, env=env, cwd=str(scratch))
    if not out.exists():
        log(f"harness ended with {p.returncode} and no result")
        return 2
    res = json.loads(out.read_text())
    fams = res["families"]
    evaluations = sum(f["cases"] for f in fams)
    nontrivial = sum(f["nontrivial"] for f in fams)
    samples = []
    for f in fams:
        for s in f["samples"][:2]:
            samples.append(f"{f['name']}: {s}")
    viol = res["failures"]
    keys = {e["key"]: e for e in known}
    ev = {
        "property": pid, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": "Each case is one generated choice list run against the oracle of its family; counted non-trivial when the family marked it so and "
                    "its choice list is distinct. Families: " + "; ".join(f"{f['name']}: {f['rule']}" for f in fams),
            "samples": samples,
            "families": {f["name"]: {"cases": f["cases"], "planned": f["planned"], "distinct_nontrivial": f["nontrivial"],
                                      "discarded": f["discards"], "classes": f["labels"]} for f in fams},
            "stopped_by_time_cap": res["cut"],
            "failures_not_reproduced": res["flaky"],
            "known_findings_hit": res["known"],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(t_build, 2),
        "violations": len(viol),
    }
    edir = VERIF / "evidence"
    edir.mkdir(exist_ok=True)
    (edir / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for k in keys:
        if k in res["known"]:
            log(f"KNOWN-FINDING: property={pid} {keys[k]['what']}")
    for i, v in enumerate(viol):
        path = rdir / f"{pid}-{i}.json"
        path.write_text(json.dumps({"property": pid, "seed": a.seed, "tier": tier, "family": v["family"], "kind": v["kind"], "message": v["message"],
                                    "case": v["case"], "choices": v["choices"],
                                    "how": f"python3 run.py {pid} --replay {path}"}, indent=1) + "\n")
        log(f"  {v['family']} [{v['kind']}]: {v['message'][:600]}\n    case: {v['case'][:600]}")
        log(f"VIOLATION property={pid} replay={path}")
    empty = [f["name"] for f in fams if f["planned"] and not f["cases"] and f["name"] not in {v["family"] for v in viol}]
    log(f"{pid} {tier} seed={a.seed}: {evaluations} cases, {nontrivial} distinct non-trivial, {len(viol)} violations, "
        f"build {t_build:.1f} s, total {time.time() - t0:.1f} s" + (" (time cap reached)" if res["cut"] else "") +
        (f" not reproduced: {res['flaky']}" if res["flaky"] else "") + (f" EMPTY: {empty}" if empty else ""))
    return 1 if viol else 0


if __name__ == "__main__":
    main()
