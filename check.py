#!/usr/bin/env python3
"""Model-check one property of /repo's current working tree.

  check.py ID [--tier quick|thorough]     explore; rewrites evidence/ID.json
  check.py ID --replay FILE               re-execute one recorded counterexample, step by step
  check.py --setup                        build the explorer (checks rebuild whatever is missing)
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Anything else: the check itself failed.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "g++"
BASE = ["-std=gnu++17", "-g1", "-w"]
ENGINE_FLAGS = BASE + ["-O2", "-fsanitize=address", "-fsanitize-recover=address", "-rdynamic"]
SUT_FLAGS = BASE + ["-O1", "-fPIC", "-DNATIVE", "-fsanitize=address", "-fsanitize-recover=address",
                    "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer"]


def die(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def produce(target, make):
    """build `target` through a temporary name so that concurrent checks never see half a file"""
    if os.path.exists(target):
        return target
    os.makedirs(os.path.dirname(target), exist_ok=True)
    tmp = target + ".%d.tmp" % os.getpid()
    rc, out = make(tmp)
    if rc != 0:
        die("cannot build %s\n%s" % (os.path.basename(target), out[-6000:]))
    os.replace(tmp, target)
    return target


def engine():
    src = os.path.join(VERIF, "engine", "explorer.cpp")
    hdr = os.path.join(VERIF, "engine", "mc.hpp")
    t = os.path.join(BUILD, "explore-" + digest([src, hdr], " ".join(ENGINE_FLAGS)))
    return produce(t, lambda o: run([CXX] + ENGINE_FLAGS + ["-o", o, src, "-ldl"]))


def harness(pid):
    hsrc = os.path.join(VERIF, "harness", pid + ".cpp")
    if not os.path.exists(hsrc):
        die("no driver for " + pid)
    text = open(hsrc).read()
    m = re.search(r"^// MC-FLAGS:(.*)$", text, re.M)
    extra = m.group(1).split() if m else []
    src = os.path.join(REPO, "src")
    files = [p for p in glob.glob(src + "/**/*", recursive=True) if re.search(r"\.(c|cc|cpp|h|hpp|hh|inc|ipp|tpp)$", p)]
    units = [p for p in files if re.search(r"\.(c|cc|cpp)$", p) and os.path.basename(p) != "main.cpp"]
    ours = glob.glob(VERIF + "/harness/*.hpp") + [VERIF + "/engine/mc.hpp", VERIF + "/engine/shim.cpp"]
    flags = SUT_FLAGS + extra + ["-I" + src, "-I" + VERIF + "/engine", "-I" + VERIF + "/harness"]
    tree = digest(files, " ".join(SUT_FLAGS + extra))
    parts = sorted(glob.glob(os.path.join(VERIF, "harness", pid + "_*.cpp")))
    mine = [hsrc] + parts
    if parts:  # these include drivers of other properties
        mine = glob.glob(VERIF + "/harness/*.cpp")
    so = os.path.join(BUILD, tree, pid + "-" + digest(mine + ours) + ".so")
    if os.path.exists(so):
        return so
    jobs = []
    for u in units:
        o = os.path.join(BUILD, tree, os.path.relpath(u, src).replace("/", "_") + ".o")
        jobs.append((u, o))
    jobs.append((hsrc, so[:-3] + ".o"))
    for h in parts:
        jobs.append((h, so[:-3] + os.path.basename(h)[len(pid):-4] + ".o"))
    jobs.reverse()  # the longest ones first
    jobs.append((VERIF + "/engine/shim.cpp", os.path.join(BUILD, tree, "shim-" + digest(ours) + ".o")))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        def comp(j):
            u, o = j
            if os.path.exists(o):
                return 0, ""
            os.makedirs(os.path.dirname(o), exist_ok=True)
            tmp = o + ".%d.tmp" % os.getpid()
            rc, out = run([CXX] + flags + ["-c", u, "-o", tmp])
            if rc == 0:
                os.replace(tmp, o)
            return rc, out
        for (u, o), (rc, out) in zip(jobs, ex.map(comp, jobs)):
            if rc:
                die("cannot compile %s\n%s" % (u, out[-6000:]))
    wraps = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free")]
    return produce(so, lambda o: run([CXX] + SUT_FLAGS + ["-shared", "-Wl,-z,now", "-Wl,-z,relro"] + wraps + ["-o", o] + [o2 for _, o2 in jobs]))


def known(pid):
    keys = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                keys[m.group(2)] = m.group(3)
    return keys


def replay_cmd(exe, so, f):
    return subprocess.run([exe, "--so", so, "--replay", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")


def shortened(text):
    """what a replay printed, without the middle of long histories"""
    l = text.rstrip().splitlines()
    return l if len(l) <= 400 else l[:150] + ["... (%d lines)" % (len(l) - 300)] + l[-150:]


def main():
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        engine()
        return 0
    if not args:
        die(__doc__)
    pid = args[0]
    tier = "quick"
    jobs = "8"
    only = ""
    long = "0.2" if pid == "P37" else "1"  # CPU seconds per stage of long histories
    rep = None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 2
        elif args[i] == "--replay":
            rep = args[i + 1]; i += 2
        elif args[i] == "--jobs":
            jobs = args[i + 1]; i += 2
        elif args[i] == "--long":
            long = args[i + 1]; i += 2
        elif args[i] == "--only":
            only = args[i + 1]; i += 2
        else:
            die("unknown argument " + args[i])
    t0 = time.time()
    exe, so = engine(), harness(pid)
    if rep:
        r = replay_cmd(exe, so, rep)
        print(r.stderr)
        return r.returncode
    build_s = time.time() - t0
    keys = known(pid)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="mc-") as td:
        out = os.path.join(td, "res")
        cmd = [exe, "--so", so, "--tier", tier, "--out", out, "--jobs", jobs, "--known", ",".join(keys), "--long", long]
        if only:
            cmd += ["--only", only]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if not os.path.exists(out):
            die("explorer failed (%d)\n%s" % (r.returncode, r.stderr[-3000:]))
        res = json.load(open(out))
    errs = [x for x in res if "error" in x]
    viols = [x for x in res if "violation" in x]
    okc = [x for x in res if "states" in x]
    S = lambda k: sum(x.get(k, 0) for x in okc)
    covers = {}
    for x in okc:
        for k, v in x["covers"].items():
            covers[k] = covers.get(k, 0) + v
    samples = []
    for x in okc:
        samples += x["samples"][:1]
    rc = 0
    reported = 0
    lines = []
    for x in viols:
        v = x["violation"]
        f = os.path.join(VERIF, "replays", "%s-%s.replay" % (pid, re.sub(r"[^A-Za-z0-9_.-]", "_", x["config"])))
        open(f, "w").write("%s\n%d\n%s\n" % (x["config"], 1 if v["finish"] else 0, json.dumps(v["trace"], separators=(",", ":"))))
        a, b = replay_cmd(exe, so, f), replay_cmd(exe, so, f)
        if a.returncode == 1 and b.returncode == 1:
            open(f, "a").write("# what happened\n" + "".join("# " + l + "\n" for l in shortened(a.stderr)))
            print("violated in configuration %s: %s" % (x["config"], v["msg"]))
            print("\n".join(shortened(a.stderr)))
            lines.append("VIOLATION property=%s replay=%s" % (pid, f))
            reported += 1
        else:
            errs.append({"config": x["config"], "error": "counterexample does not replay (%d, %d): %s" % (a.returncode, b.returncode, v["msg"])})
    kf = {}
    for x in okc:
        kf.update(x["known"])
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, keys[k]))
    all_done = bool(okc) and not errs and not viols
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": S("states"), "transitions": S("transitions"),
            "traces_validated_against_impl": S("traces_validated"), "trace_steps_validated": S("trace_steps"),
            "destructions_checked": S("finish_checked"), "behaviours_outside_environment": S("pruned"),
            "distinct_step_observations": S("distinct_step_observations"),
            "long_histories": S("lassos"), "long_history_steps": S("lasso_steps"), "long_histories_periodic": S("lasso_periodic"),
            "exhaustive": all_done and not any(x["capped"] for x in okc),
            "explanation": "The implementation in /repo is the transition relation: every choice vector of every transition from every "
                           "stored state is executed on the real code under AddressSanitizer and compared with the reference model; "
                           "'closed' configurations reached a fixpoint (all reachable states for that alphabet), the others completed the "
                           "stated depth. Long histories: in configurations that did not close, every "
                           "initial segment of a steps followed by n repetitions of every cycle of p steps (a+pxn in long_histories_completed; a stage "
                           "that exceeds its CPU budget is cut and not listed). Sampled traces were re-executed linearly from the initial state without snapshots and had to give the same observations.",
            "configurations": [{k: x[k] for k in ("config", "states", "transitions", "depth_bound", "depth_completed", "closed", "capped", "wall_s")} | {"long_histories_completed": x["lasso_stages_done"]} for x in okc],
            "covered": covers,
            "samples": samples[:12],
        },
        "assumptions": ["host build (NATIVE) with gcc, -O1, AddressSanitizer and _GLIBCXX_ASSERTIONS",
                        "only the operations and argument domains of the driver harness/%s.cpp are explored" % pid],
        "wall_s": round(time.time() - t0, 2), "violations": reported,
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d configurations, %d states, %d transitions, %d traces validated, build %.1fs, total %.1fs" % (
        pid, tier, len(okc), S("states"), S("transitions"), S("traces_validated"), build_s, time.time() - t0))
    for x in okc:
        print("  %-44s states=%-8d trans=%-9d depth=%d/%d%s%s obs=%d fpmis=%d %.1fs" % (x["config"], x["states"], x["transitions"], x["depth_completed"], x["depth_bound"],
              " closed" if x["closed"] else " long=%d (%s)" % (x["lassos"], " ".join(x["lasso_stages_done"])), " CAPPED" if x["capped"] else "", x["distinct_step_observations"], x["fp_mismatch"], x["wall_s"]))
    if covers:
        print("  covered: " + ", ".join("%s=%d" % kv for kv in sorted(covers.items())))
    for x in errs:
        print("check error in %s: %s" % (x["config"], x["error"]), file=sys.stderr)
    for l in lines:
        print(l)
    if reported:
        return 1
    if errs or not okc:
        return 2
    return 0


sys.exit(main())
