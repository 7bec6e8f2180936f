#!/usr/bin/env python3
"""Driver of the checks.

  check.py run <property> [--tier quick|thorough] [--seed N]   decide one property on /repo's working tree
  check.py setup                                               build everything that the checks need
  check.py replay <file>                                       replay one saved case on /repo's working tree

Exit status: 0 the property held on everything explored, 1 violation (with a VIOLATION line), 2 tool error.
"""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
JOBS = max(1, min(8, os.cpu_count() or 1))

SAN = ["-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
FLAVOURS = {  # name: (directory, flags)
    "main": ("src", ["-O1"]),
    "main0": ("src", ["-O0"]),
    "main3": ("src", ["-O3"]),
    "mainsan": ("src", ["-O1"] + SAN),
    "bit": ("bitvec", ["-O1"]),
    "bit0": ("bitvec", ["-O0"]),
    "bitsan": ("bitvec", ["-O1"] + SAN),
    "queens": ("benchmarks/Nqueens", ["-O1"]),  # one program of several in that directory
}
ONLY = {"queens": ["nqueens_sat.cc"]}


class ToolError(Exception):
    pass


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(os.path.basename(f).encode() + b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def compile_one(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise ToolError("compilation failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))


def sources(d):
    r = []
    for ext in ("*.cc", "*.cpp", "*.cxx", "*.c"):
        r += glob.glob(os.path.join(REPO, d, ext))
    return sorted(r)


def headers(d):
    r = []
    for ext in ("*.h", "*.hh", "*.hpp", "*.inc"):
        r += glob.glob(os.path.join(REPO, d, ext))
    return sorted(r)


def plan_flavour(name):
    """-> (final path, list of (object, command), link command)"""
    d, flags = FLAVOURS[name]
    src, hdr = sources(d), headers(d)
    if name in ONLY:
        src = [s for s in src if os.path.basename(s) in ONLY[name]]
    if not src:
        raise ToolError("no sources in %s/%s" % (REPO, d))
    shim = [os.path.join(HARNESS, f) for f in ("shim.c", "shim.h")]
    key = digest(src + hdr + shim, name + " ".join(flags) + " ".join(os.path.basename(s) for s in src) + "v1")
    out = os.path.join(BUILD, "%s-%s" % (name, key))
    if os.path.exists(out):
        return out, [], None
    tmp = tempfile.mkdtemp(prefix="b-", dir=BUILD)
    objs, cmds = [], []
    for s in src:
        o = os.path.join(tmp, os.path.basename(s) + ".o")
        objs.append(o)
        cmds.append(["g++", "-w", "-I", os.path.join(REPO, d)] + flags + ["-c", s, "-o", o])
    o = os.path.join(tmp, "shim.o")
    cmds.append(["gcc", "-O1", "-w", "-I", HARNESS, "-c", shim[0], "-o", o])
    link = ["g++"] + flags + ["-Wl,--wrap=main", "-o", os.path.join(tmp, "prog")] + objs + [o]
    return out, cmds, (link, tmp, os.path.join(tmp, "prog"))


def plan_worker():
    src = sorted(glob.glob(os.path.join(HARNESS, "*.cpp")))
    hdr = glob.glob(os.path.join(HARNESS, "*.h*"))
    out = os.path.join(BUILD, "worker-" + digest(src + hdr, "v1"))
    if os.path.exists(out):
        return out, [], None
    tmp = tempfile.mkdtemp(prefix="b-", dir=BUILD)
    objs, cmds = [], []
    for s in src:
        o = os.path.join(tmp, os.path.basename(s) + ".o")
        objs.append(o)
        cmds.append(["g++", "-std=c++17", "-O1", "-w", "-I", HARNESS, "-c", s, "-o", o])
    # the big ones first
    cmds.sort(key=lambda c: -os.path.getsize(c[-3]) - (10 ** 6 if c[-3].endswith("main.cpp") else 0))
    prog = os.path.join(tmp, "prog")
    return out, cmds, (["g++", "-o", prog] + objs + ["-lrapidcheck"], tmp, prog)


def build(flavours):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        plans = [("worker", plan_worker())] + [(f, plan_flavour(f)) for f in flavours]
        try:
            with ThreadPoolExecutor(JOBS) as ex:
                list(ex.map(compile_one, [c for _, p in plans for c in p[1]]))
                list(ex.map(compile_one, [p[2][0] for _, p in plans if p[2]]))
            for _, p in plans:
                if p[2]:
                    os.rename(p[2][2], p[0])
        finally:
            for _, p in plans:
                if p[2]:
                    shutil.rmtree(p[2][1], ignore_errors=True)
        # keep the build directory small: only the latest few binaries of each kind
        for kind in ["worker"] + list(FLAVOURS):
            fs = sorted(glob.glob(os.path.join(BUILD, kind + "-*")), key=os.path.getmtime)
            keep = {p[0] for _, p in plans}
            for f in fs[:-4]:
                if f not in keep:
                    os.unlink(f)
        return {n: p[0] for n, p in plans}
    finally:
        lock.close()


def known_findings():
    """-> {(property, id): text}; lines 'known: property=<id> <finding> <text>'; 'fixed:' lines suppress nothing"""
    r = {}
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("known: property="):
                w = l[len("known: property="):].split(None, 2)
                if len(w) == 3:
                    r[(w[0], w[1])] = w[2].strip()
    return r


def environment(bins):
    env = dict(os.environ)
    env.pop("VSHIM", None)
    env.pop("RC_PARAMS", None)
    for n, p in bins.items():
        env["BIN_" + n] = p
    env["LC_ALL"] = "C"
    env["REPO_DIR"] = os.path.abspath(REPO)
    return env


def replay_file(bins, path):
    r = subprocess.run([bins["worker"], "replay", path], env=environment(bins), capture_output=True, text=True, errors="replace")
    return r.returncode, r.stdout + r.stderr


def derive(seed, i):
    h = hashlib.sha256(("%d/%d" % (seed, i)).encode()).digest()
    return int.from_bytes(h[:8], "little") >> 2 | 1


def run(prop, tier, seed):
    t0 = time.time()
    bins = build([])
    table = json.loads(subprocess.run([bins["worker"], "list"], capture_output=True, text=True, check=True).stdout)
    if prop not in table:
        raise ToolError("unknown property " + prop)
    info = table[prop]
    bins = build(info["flavours"])
    t_build = time.time() - t0
    total = info[tier]
    factor = float(os.environ.get("VERIF_FACTOR", "1"))
    total = max(JOBS, int(total * factor))
    deadline = 240 if tier == "quick" else 6 * 3600
    nw = 8  # fixed, so that a run is a function of the seed
    work = tempfile.mkdtemp(prefix="w-", dir=BUILD)
    env = environment(bins)
    procs = []
    for i in range(nw):
        cmd = [bins["worker"], "explore", prop, str(derive(seed, i)), str((total + nw - 1) // nw), str(deadline),
               "1" if tier == "thorough" else "0", str(i), os.path.join(work, "r%d.json" % i), os.path.join(work, "f%d" % i)]
        procs.append(subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, "e%d" % i), "w")))
    reports, fails = [], []
    errors = []
    for i, p in enumerate(procs):
        rc = p.wait()
        if rc not in (0, 1):
            errors.append("worker %d ended with %d: %s" % (i, rc, open(os.path.join(work, "e%d" % i), errors="replace").read()[-800:]))
            continue
        rep = json.load(open(os.path.join(work, "r%d.json" % i)))
        reports.append(rep)
        if rep["failed"]:
            fails.append(os.path.join(work, "f%d" % i))
    status = 0
    violations = 0
    known = known_findings()
    lines = []
    replays = os.path.join(VERIF, "replays")
    for rep in reports:
        for k in rep["known"]:
            if not k["fails"]:
                continue
            if (prop, k["id"]) in known:
                lines.append("KNOWN-FINDING: property=%s %s: %s" % (prop, k["id"], k["how"]))
            else:
                os.makedirs(replays, exist_ok=True)
                path = os.path.join(replays, "%s-%s.case" % (prop, k["id"]))
                with open(path, "w") as f:
                    f.write("property %s\n# %s\n" % (prop, k["how"]))
                violations += 1
                lines.append("VIOLATION property=%s replay=%s" % (prop, path))
                lines.append(k["how"])
    fails.sort(key=os.path.getsize)
    for f in fails[:3]:
        os.makedirs(replays, exist_ok=True)
        h = hashlib.sha256(open(f, "rb").read()).hexdigest()[:10]
        path = os.path.join(replays, "%s-%s.case" % (prop, h))
        shutil.copy(f, path)
        with ThreadPoolExecutor(3) as ex:
            outs = list(ex.map(lambda _: replay_file(bins, path), range(3)))
        if all(rc == 1 for rc, _ in outs):
            violations += 1
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            lines.append(outs[0][1].strip())
            break
        errors.append("failure did not replay: %s: %s" % (path, outs))
    labels = {}
    hashes = set()
    samples = []
    for rep in reports:
        for k, v in rep["labels"].items():
            labels[k] = labels.get(k, 0) + v
        hashes.update(rep["hashes"])
        samples += rep["samples"][:1]
    ev = sum(r["evals"] for r in reports)
    late = sum(r["late"] for r in reports)
    if not samples:
        samples = [s for r in reports for s in r["samples"]][:1]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(hashes),
            "rule": info["rule"],
            "samples": samples[:6],
            "program_runs": sum(r["runs"] for r in reports),
            "outside_domain_or_budget": sum(r["skipped"] for r in reports),
            "not_started_before_deadline": late,
            "most_clock_reads_in_a_run": max([r["maxcalls"] for r in reports] or [0]),
            "longest_run_s": max([round(r["maxwall"], 3) for r in reports] or [0]),
            "distribution": dict(sorted(labels.items())),
            "build_s": round(t_build, 1),
        },
        "assumptions": [
            "the programs are built from the working tree with g++ and linked with a fork server that replaces only main's caller and the clock",
            "an endless loop is recognised by 3000000 clock reads or 10 s (sanitizer builds 40 s) of CPU time in a run that takes milliseconds, 60 s in a deep search that takes up to 6 s",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for l in lines:
        print(l)
    print("property=%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %d program runs, build %.1f s, total %.1f s%s" %
          (prop, tier, seed, ev, len(hashes), evidence["coverage"]["program_runs"], t_build, time.time() - t0,
           ", %d cases not started before the deadline" % late if late else ""))
    if violations:
        return 1
    if errors:
        raise ToolError("\n".join(errors))
    return 0


def main(argv):
    try:
        if argv[:1] == ["setup"]:
            build(list(FLAVOURS))
            return 0
        if argv[:1] == ["replay"] and len(argv) == 2:
            bins = build(list(FLAVOURS))
            rc, out = replay_file(bins, argv[1])
            print(out.strip())
            return rc
        if argv[:1] == ["run"] and len(argv) >= 2:
            tier = os.environ.get("VERIF_TIER", "quick")
            seed = int(os.environ.get("VERIF_SEED", "1") or 1)
            i = 2
            while i < len(argv):
                if argv[i] == "--tier":
                    tier = argv[i + 1]
                elif argv[i] == "--seed":
                    seed = int(argv[i + 1])
                i += 2
            return run(argv[1], tier, seed)
        print(__doc__)
        return 2
    except ToolError as e:
        print("ERROR:", e)
        return 2
    except Exception as e:
        print("ERROR: %s: %s" % (type(e).__name__, e))
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
