#!/usr/bin/env python3
"""Build and run the check of one property against /repo's working tree.

  run.py <ID>                 run the check (VERIF_SEED, VERIF_TIER=quick|thorough)
  run.py <ID> --replay FILE   re-run one saved failing case and print it
  run.py <ID> --only SUB      run a single sub-property (development)
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS, ENGINE_FLAGS  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build_dir():
    for base in (os.path.join(HERE, "build"), os.path.join(tempfile.gettempdir(), "verif-build")):
        try:
            os.makedirs(base, exist_ok=True)
            t = tempfile.NamedTemporaryFile(dir=base)
            t.close()
            return base
        except OSError:
            continue
    raise SystemExit("no writable build directory")


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def tree(d, exts):
    r = []
    for root, _, files in os.walk(d):
        r += [os.path.join(root, f) for f in files if f.endswith(exts)]
    return r


class CompileError(Exception):
    pass


def compile_all(jobs):
    """jobs: list of (cmd, output); runs them in parallel, skipping outputs that exist."""
    procs = []
    for cmd, out in jobs:
        if os.path.exists(out):
            continue
        tmp = out + ".tmp%d" % os.getpid()
        procs.append((cmd, tmp, out, subprocess.Popen(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
    failed = None
    for cmd, tmp, out, p in procs:
        text = p.communicate()[0]
        if p.returncode == 0:
            os.replace(tmp, out)
        elif failed is None:
            failed = (cmd, text, p.returncode)
    if failed:
        raise CompileError(" ".join(failed[0]) + "\n" + failed[1])


def build(pid, check):
    base = build_dir()
    inc = [os.path.join(REPO, "include")]
    hdrs = tree(os.path.join(REPO, "include"), (".hpp", ".h"))
    mine = tree(os.path.join(HERE, "harness"), (".hpp", ".h"))
    objs, jobs = [], []
    for i, (src, cxx, flags, uses_repo) in enumerate(check["units"]):
        path = os.path.join(HERE, "harness", src)
        cmd = [cxx] + flags + ["-I", os.path.join(HERE, "harness")]
        if uses_repo:
            cmd += sum([["-I", d] for d in inc], [])
        deps = [path] + mine + (hdrs if uses_repo else [])
        out = os.path.join(base, "%s-%s.o" % (os.path.splitext(src)[0], digest(deps, " ".join(cmd))))
        jobs.append((cmd + ["-c", path], out))
        objs.append(out)
    libs = []
    for src, cxx, flags in check.get("libs", ()):
        path = os.path.join(HERE, "harness", src)
        cmd = [cxx] + flags + ["-shared", "-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-Wl,-Bsymbolic", "-pthread"] + sum([["-I", d] for d in inc], [])
        if cxx == "g++":
            cmd.append("-fno-gnu-unique")
        out = os.path.join(base, "%s-%s.so" % (os.path.splitext(src)[0], digest([path] + hdrs, " ".join(cmd))))
        jobs.append((cmd + [path] + (["-lstdc++fs"] if "-std=c++14" in flags else []), out))
        libs.append(out)
    compile_all(jobs)
    exe = os.path.join(base, "%s-%s" % (pid, digest(objs, " ".join(check["link"]))))
    compile_all([([check["link"][0]] + objs + check["link"][1:], exe)])
    # forget old products
    try:
        keep = sorted((os.path.join(base, f) for f in os.listdir(base)), key=os.path.getmtime, reverse=True)
        for f in keep[400:]:
            os.unlink(f)
    except OSError:
        pass
    return exe, libs


def build_engine():
    base = build_dir()
    path = os.path.join(HERE, "harness", "pbt.cpp")
    mine = tree(os.path.join(HERE, "harness"), (".hpp", ".h"))
    cmd = ["g++"] + ENGINE_FLAGS + ["-I", os.path.join(HERE, "harness")]
    compile_all([(cmd + ["-c", path], os.path.join(base, "pbt-%s.o" % digest([path] + mine, " ".join(cmd))))])


def known_findings(pid):
    known = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("finding: property=%s " % pid):
                    rest = line.split("key=", 1)[1].strip()
                    key, _, text = rest.partition(" ")
                    known.append((key.replace("%20", " "), text))
    except FileNotFoundError:
        pass
    return known


def write_evidence(pid, check, tier, seed, coverage, wall, violations):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": check["level"], "coverage": coverage,
          "assumptions": check.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations}
    path = os.path.join(HERE, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)


def violation(pid, path):
    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)


def replay_dir():
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    return d


def compile_violation(pid, err):
    path = os.path.join(replay_dir(), pid + "-does-not-compile.txt")
    with open(path, "w") as f:
        f.write("The check's program, which uses only the documented interface, no longer compiles:\n" + str(err)[:20000])
    return path


def environment(libs):
    env = dict(os.environ)
    env["VERIF_INCLUDE"] = os.path.join(REPO, "include")
    env["VERIF_LIBS"] = ":".join(libs)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=2048:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:symbolize=1:handle_abort=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
    env["LC_ALL"] = "C"
    env.pop("TZ", None)
    return env


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        # compiles the engine; the checks themselves are built when they run, from /repo's current tree
        build_engine()
        return 0
    if not args or args[0] not in CHECKS:
        log("usage: run.py <ID> [--replay FILE] [--only SUB]")
        return 3
    pid = args[0]
    check = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    seed &= (1 << 63) - 1
    start = time.time()

    if check.get("driver"):
        module = __import__(check["driver"])
        return module.run(pid, check, tier, seed, args[1:], sys.modules[__name__])

    try:
        try:
            exe, libs = build(pid, check)
        except CompileError as e:
            if "error:" not in str(e):
                log("compiler failed, retrying:", e)
                time.sleep(5)
                exe, libs = build(pid, check)
            else:
                raise
    except CompileError as e:
        log(str(e)[:4000])
        if "error:" not in str(e):
            return 3
        path = compile_violation(pid, e)
        write_evidence(pid, check, tier, seed, {"evaluations": 1, "distinct_nontrivial": 0, "rule": "the check's program must compile", "samples": [str(e)[:500]]}, time.time() - start, 1)
        violation(pid, path)
        return 1
    built = time.time() - start

    if "--replay" in args:
        return subprocess.call([exe, "--replay", args[args.index("--replay") + 1]], env=environment(libs))

    known = known_findings(pid)
    with tempfile.TemporaryDirectory(prefix="verif-run-") as tmp:
        out = os.path.join(tmp, "result.json")
        cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", out, "--replay-dir", replay_dir()]
        if "--only" in args:
            cmd += ["--only", args[args.index("--only") + 1]]
        if "--budget" in args:
            cmd += ["--budget", args[args.index("--budget") + 1]]
        if "--scale" in args:
            cmd += ["--scale", args[args.index("--scale") + 1]]
        if "--workers" in args:
            cmd += ["--workers", args[args.index("--workers") + 1]]
        for key, _ in known:
            cmd += ["--known", key]
        env = environment(libs)
        env["TMPDIR"] = tmp
        # A failure that does not come back in replays is no verdict (something outside the case, such as a
        # process ended for want of memory): the whole search is done once more, from the start.
        for attempt in range(2):
            rc = subprocess.call(cmd, env=env)
            res = None
            if os.path.exists(out):
                with open(out) as f:
                    res = json.load(f)
                if rc in (0, 1) or attempt:
                    break
                os.remove(out)
            log("harness ended with", rc, "and no verdict")
        if res is None:
            return 3
        if attempt:
            res["restarted"] = True
    fail = res.pop("failure")
    res["build_s"] = round(built, 1)
    if all(s.get("exhaustive") for s in res["sub_properties"].values()):
        res["exhaustive"] = True
    write_evidence(pid, check, tier, seed, res, time.time() - start, 1 if fail else 0)
    log("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs" % (
        pid, tier, seed, res["evaluations"], res["distinct_nontrivial"], built, time.time() - start))
    for key, text in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if fail:
        log("sub-property %s: %s: %s\n%s" % (fail["sub"], fail["signature"], fail["message"], fail["case"]))
        violation(pid, fail["replay"])
        return 1
    return rc if rc in (0,) else 3


if __name__ == "__main__":
    sys.exit(main())
