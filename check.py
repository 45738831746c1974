#!/usr/bin/env python3
"""Driver: builds what one property's check needs from /repo's working tree and runs it.

usage: check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X] [--only a,b]
Exit 0: held on everything explored.  Exit 1 (+ VIOLATION line): broken.  Other: error of the check.
"""
import argparse, concurrent.futures, glob, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from harness.spec import SPEC, COMMON_FLAGS, OPT_SRC, IMG_SRC, ROS_SRC  # noqa: E402

REPO = os.environ.get("RCT_REPO", "/repo")
BUILD = os.environ.get("RCT_PBT_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")
GROUPS = {"opt": OPT_SRC, "img": IMG_SRC, "ros": ROS_SRC}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


_headers = {}


def tree_hash(dirs, ext=(".h", ".hpp", ".inc", ".tcc", ".ipp")):
    key = (tuple(dirs), ext)
    if key not in _headers:
        h = hashlib.sha256()
        for d in dirs:
            for root, sub, files in os.walk(d):
                sub.sort()
                for f in sorted(files):
                    if f.endswith(ext):
                        p = os.path.join(root, f)
                        h.update(p.encode())
                        with open(p, "rb") as fh:
                            h.update(fh.read())
        _headers[key] = h.hexdigest()
    return _headers[key]


def inc_dirs():
    return [f"{HARNESS}", f"{HARNESS}/shim", f"{REPO}/rct_optimizations/include", f"{REPO}/rct_common/include",
            f"{REPO}/rct_image_tools/include", f"{REPO}/rct_ros_tools/include", f"{REPO}/rct_optimizations/src",
            f"{REPO}/rct_image_tools/src", f"{REPO}/rct_ros_tools/src", f"{REPO}/rct_examples/src"]


def flags():
    inc = []
    for d in inc_dirs():
        inc += ["-I", d]
    return COMMON_FLAGS + inc + ["-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/opencv4",
                                 f'-DRCT_REPO="{REPO}"']


def compile_one(src, extra):
    fl = flags() + list(extra)
    with open(src, "rb") as f:
        body = f.read()
    key = sha(" ".join(fl), src, body, tree_hash(inc_dirs()),
              tree_hash(inc_dirs(), (".cpp",)) if b".cpp>" in body else "")
    obj = os.path.join(BUILD, "obj", os.path.basename(src).replace(".cpp", "") + "-" + key + ".o")
    if os.path.exists(obj):
        return obj, None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + f".tmp{os.getpid()}"
    r = subprocess.run(["g++"] + fl + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, f"compiling {src} failed:\n{r.stdout[-6000:]}"
    os.replace(tmp, obj)
    return obj, None


def repo_sources(group, names):
    base = {"opt": "rct_optimizations/src/rct_optimizations", "img": "rct_image_tools/src/rct_image_tools",
            "ros": "rct_ros_tools/src"}[group]
    return [os.path.join(REPO, base, n) for n in names]


def all_sources(group):
    base = {"opt": "rct_optimizations/src/rct_optimizations", "img": "rct_image_tools/src/rct_image_tools"}.get(group)
    if not base:
        return []
    out = sorted(glob.glob(os.path.join(REPO, base, "**", "*.cpp"), recursive=True))
    return [s for s in out if not s.endswith("dh_chain_kinematic_calibration.cpp")]


def build(prop):
    spec = SPEC[prop]
    # the code under test is instrumented with address and undefined-behaviour checks, the harness itself with the
    # address checks only, and the pure reference mathematics (geom.cpp) not at all
    plain = ("-fno-sanitize=undefined,address", "-O2")
    # (files named *_unit.cpp include sources of the code under test)
    srcs = [(os.path.join(HARNESS, s), tuple(spec.get("flags", ())) + (plain if s in ("geom.cpp", "scene.cpp") or s in spec.get("plain", ()) else () if s.endswith("_unit.cpp") else ("-fno-sanitize=undefined", "-fsanitize=bool")))
            for s in spec["harness"] + ["pbt_main.cpp"]]
    srcs.sort(key=lambda t: t[0].endswith(("geom.cpp", "/scene.cpp")))
    wanted = []
    for g in ("opt", "img", "ros"):
        wanted += repo_sources(g, spec.get(g, []))
    # a source file that was moved or renamed by a refactoring: fall back to everything of that package
    missing = [w for w in wanted if not os.path.exists(w)]
    have = [w for w in wanted if os.path.exists(w)]

    def run(files):
        with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("RCT_JOBS", "8"))) as ex:
            res = list(ex.map(lambda s: compile_one(*s), files))
        errs = [e for _, e in res if e]
        if errs:
            print("\n".join(errs), file=sys.stderr)
            sys.exit(2)
        return [o for o, _ in res]

    def link(objs):
        key = sha(prop, *objs, *spec.get("libs", []))
        exe = os.path.join(BUILD, f"{prop}-{key}")
        if os.path.exists(exe):
            return exe, ""
        tmp = exe + f".tmp{os.getpid()}"
        cmd = ["g++", "-fsanitize=address,undefined", "-o", tmp] + objs + list(spec.get("libs", [])) + ["-lpthread"]
        if spec.get("programs"):
            cmd += ["-rdynamic", "-ldl"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return None, r.stdout
        os.replace(tmp, exe)
        return exe, ""

    exe, err = (None, "missing " + ", ".join(missing))
    objs = run([(w, ()) for w in have] + srcs)
    if not missing:
        exe, err = link(objs)
    if exe is None:
        groups = [g for g in ("opt", "img") if spec.get(g)]
        extra = [s for g in groups for s in all_sources(g) if s not in have]
        exe, err2 = link(run([(s, ()) for s in extra]) + objs)
        if exe is None:
            print(err + "\n" + err2, file=sys.stderr)
            sys.exit(2)
    return exe


def build_programs(prop):
    """Programs of the repository as loadable objects: their main is called by the harness, in its process."""
    spec = SPEC[prop]
    env = {}

    def one(rel):
        name = os.path.basename(rel)[:-4]
        obj, err = compile_one(os.path.join(REPO, rel), ("-fPIC", "-Dmain=rct_program_main", "-fno-gnu-unique", "-UNDEBUG"))
        if err:
            return name, None, err
        so = os.path.join(BUILD, f"{name}-{sha(obj, *spec.get('libs', []))}.so")
        if not os.path.exists(so):
            tmp = so + f".tmp{os.getpid()}"
            r = subprocess.run(["g++", "-shared", "-fsanitize=address,undefined", "-o", tmp, obj] + list(spec.get("libs", [])),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                return name, None, r.stdout
            os.replace(tmp, so)
        return name, so, None

    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("RCT_JOBS", "8"))) as ex:
        for name, so, err in ex.map(one, spec.get("programs", [])):
            if err:
                print(err, file=sys.stderr)
                sys.exit(2)
            env["RCT_PROGRAM_" + name] = so
    return env


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:") and f"property={prop} " in line + " ":
                out.append(line)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--only", default="")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--max-wall", default="")
    a = ap.parse_args()
    t0 = time.time()
    programs = build_programs(a.property)
    exe = build(a.property)
    if a.build_only:
        return 0
    env = dict(os.environ)
    env.update(programs)
    env.update(ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:detect_container_overflow=0:detect_odr_violation=0:exitcode=77:allocator_may_return_null=1:abort_on_error=0",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", GLOG_minloglevel="3", GLOG_logtostderr="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OPENCV_LOG_LEVEL="OFF", LC_ALL="C",
               OPENCV_FOR_THREADS_NUM="1")
    if a.replay:
        return subprocess.run([exe, "--replay", a.replay], env=env).returncode
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    part = os.path.join(BUILD, f"{a.property}.{os.getpid()}.json")
    wall = a.max_wall or ("480" if a.tier == "quick" else "5400")
    cmd = [exe, "--property", a.property, "--tier", a.tier, "--seed", str(a.seed), "--out", part, "--replay-dir", rdir,
           "--scale", a.scale, "--max-wall", wall]
    if a.only:
        cmd += ["--only", a.only]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, text=True)
    sys.stdout.write(r.stdout)
    if r.returncode not in (0, 1) or not os.path.exists(part):
        print(f"check of {a.property} ended abnormally ({r.returncode})", file=sys.stderr)
        return 3
    d = json.load(open(part))
    os.unlink(part)
    kf = known_findings(a.property)
    for line in kf:
        print(line)
    rules = "; ".join(f"[{k}] {v['rule']}" for k, v in d["subchecks"].items())
    ev = {
        "property": a.property, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": d["evaluations"], "distinct_nontrivial": d["distinct_nontrivial"],
            "rule": "Cases are drawn from choice tapes seeded by (seed, check, index). Non-trivial, and counted as "
                    "distinct by their tape: " + rules,
            "samples": d["samples"], "discarded": d["discarded"], "skipped_wall": d["skipped_wall"],
            "unreproduced": d["unreproduced"], "subchecks": d["subchecks"],
            "known_findings_listed": len(kf),
        },
        "assumptions": SPEC[a.property].get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": d["violations"],
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", a.property + ".json"), "w"), indent=1)
    return 1 if (r.returncode == 1) else 0


if __name__ == "__main__":
    sys.exit(main())
