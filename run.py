#!/usr/bin/env python3
"""Build and run the simulation checks: run.py PROPERTY [quick|thorough] | run.py --replay FILE"""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
REPO = os.environ.get("IEOMPP_REPO", "/repo")
BUILD = os.environ.get("IEOMPP_BUILD", os.path.join(ROOT, "build"))
from components import COMPONENTS, NAMES, PROPERTIES, SMALL

CXX = "g++"
SIM_FLAGS = ["-std=c++17", "-O2", "-Wall", "-Wextra", "-fno-pie"]
TSAN = ["-fopenmp", "-fsanitize=thread", "-O1", "-fno-tree-fre", "-fno-tree-dominator-opts", "-fno-tree-pre",
        "-fno-tree-dse", "-fno-tree-sra", "-fno-tree-copy-prop", "-fno-tree-loop-im", "-fno-move-loop-stores", "-g1", "-w", "-fno-pie",
        "-std=c++14", "-include", "cstdint"]
PLAIN = ["-fopenmp", "-O2", "-g1", "-w", "-fno-pie", "-std=c++14", "-include", "cstdint"]   # switches at runtime calls only
INC = ["-I" + REPO + "/include", "-I" + ROOT + "/sim", "-I" + ROOT + "/harness", "-I" + ROOT + "/shim",
       "-I" + ROOT + "/shim/fallback"]


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            h.update(p.encode()); h.update(open(p, "rb").read()); continue
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                q = os.path.join(d, f)
                h.update(q.encode())
                try:
                    h.update(open(q, "rb").read())
                except OSError:
                    pass
    return h


def compile_(cmd, out):
    """compile to out unless it is there; returns None or the compiler's message"""
    if os.path.exists(out):
        return None
    tmp = "%s.%d" % (out, os.getpid())
    r = subprocess.run(cmd + ([tmp] if cmd[0] == "objcopy" else ["-o", tmp]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return "$ %s\n%s" % (" ".join(cmd), r.stdout[-6000:])
    os.rename(tmp, out)
    return None


def localize(obj, prog, out):
    """several programs go into one binary: keep only their entry point visible"""
    if os.path.exists(out):
        return None
    tmp = "%s.%d" % (out, os.getpid())
    e = compile_(["ld", "-r", "--force-group-allocation", obj], tmp + ".r")
    e = e or compile_(["objcopy", "--redefine-sym", "main=prog_" + prog, "--keep-global-symbol=prog_" + prog, tmp + ".r"], tmp + ".l")
    if os.path.exists(tmp + ".r"):
        os.unlink(tmp + ".r")
    if not e:
        os.rename(tmp + ".l", out)
    return e


def small_copy(d):
    """the kinetic-theory program with smaller constants; None when its source does not look as expected"""
    try:
        text = open("%s/src/hubbard/%s" % (REPO, SMALL["src"])).read()
    except OSError:
        return None
    for pat, rep in SMALL["subst"]:
        text, n = re.subn(pat, rep, text)
        if n != 1:
            return None
    out = "%s/%s.cpp" % (d, SMALL["name"])
    if not os.path.exists(out):
        tmp = "%s.%d" % (out, os.getpid())
        open(tmp, "w").write(text)
        os.rename(tmp, out)
    return out


def prune(base):
    """keep the build folder small: only the newest few keys"""
    try:
        ks = sorted((os.path.getmtime(os.path.join(base, k)), k) for k in os.listdir(base))
    except OSError:
        return
    for _, k in ks[:-6]:
        d = os.path.join(base, k)
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def build(names):
    """returns {component: binary}; exits 2 when something does not compile"""
    key = tree_hash([REPO + "/include", REPO + "/src/hubbard", ROOT + "/sim", ROOT + "/harness", ROOT + "/shim",
                     ROOT + "/tools/components.py", os.path.abspath(__file__)]).hexdigest()[:20]
    d = os.path.join(BUILD, key)
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    prune(BUILD)
    jobs, bins = [], {}
    for s in ("rt", "driver"):
        jobs.append(([CXX] + SIM_FLAGS + ["-I" + ROOT + "/sim", "-c", ROOT + "/sim/" + s + ".cpp"], d + "/" + s + ".o"))
    links, progs = [], {}
    small = small_copy(d)
    for n in names:
        c = COMPONENTS[n]
        if c.get("needs_small") and not small:
            continue
        objs = []
        plist = [(p, "%s/src/hubbard/hubbard_%s.cpp" % (REPO, p)) for p in c.get("progs", [])]
        cflags = list(c.get("flags", []))
        if c.get("small"):
            if small:
                plist.append((SMALL["name"], small))
            else:
                cflags.append("-DNO_SMALL_THEORY")
        for prog, path in plist:   # a program of /repo with its main renamed and everything else made local
            o = "%s/prog_%s%s.o" % (d, prog, "_plain" if c.get("plain") else "")
            objs.append(o.replace("/prog_", "/local_"))
            progs[o] = (prog, objs[-1])
            cc = PLAIN if c.get("plain") else TSAN
            cmd = [CXX] + cc + ["-fno-gnu-unique"] + c.get("progflags", []) + \
                  ["-c", path, "-I" + REPO + "/src/hubbard"] + INC
            if (cmd, o) not in jobs:
                jobs.append((cmd, o))
        for src in c["src"]:
            path, extra = (src, []) if isinstance(src, str) else src
            path = path.replace("@REPO@", REPO).replace("@ROOT@", ROOT)
            if not path.startswith("/"):
                path = ROOT + "/harness/" + path
            extra = [e.replace("@REPO@", REPO).replace("@ROOT@", ROOT) for e in extra]
            okey = hashlib.sha256(json.dumps([path, cflags, extra]).encode()).hexdigest()[:10]
            o = "%s/%s-%s.o" % (d, os.path.basename(path).replace(".cpp", ""), okey)
            objs.append(o)
            flags = [f.replace("@REPO@", REPO) for f in cflags]
            inc = list(INC)
            if any("plain" == e for e in extra):   # harness-only code, not instrumented
                cmd = [CXX, "-std=c++17", "-O2", "-w", "-fno-pie", "-c", path] + inc
            else:
                cmd = [CXX] + (PLAIN if c.get("srcplain") else TSAN) + flags + extra + ["-c", path] + inc
            if (cmd, o) not in jobs:
                jobs.append((cmd, o))
        b = d + "/" + n
        links.append(([CXX, "-no-pie"] + objs + [d + "/rt.o", d + "/driver.o"] + c.get("libs", []) + ["-lpthread", "-ldl"], b))
        bins[n] = b
    errs = []
    with ThreadPoolExecutor(8) as ex:
        jobs.sort(key=lambda j: "prog_" not in j[1])   # the long ones first
        errs += [e for e in ex.map(lambda j: compile_(*j), jobs) if e]
        if not errs:
            errs += [e for e in ex.map(lambda x: localize(x[0], *x[1]), progs.items()) if e]
        if not errs:
            errs += [e for e in ex.map(lambda j: compile_(*j), links) if e]
    if errs:
        sys.stdout.write("build failed:\n" + "\n".join(errs) + "\n")
        sys.exit(2)
    return bins


def merge(prop, tier, seed, raws, t0):
    P = PROPERTIES[prop]
    tot = lambda k: sum(r.get(k, 0) for r in raws)
    faults, probes = {}, {}
    for r in raws:
        for k, v in r.get("faults", {}).items():
            f = faults.setdefault(k, {"fired": 0, "runs": 0})
            f["fired"] += v["fired"]
            f["runs"] += v["runs"]
        for k, v in r.get("probes", {}).items():
            probes[r["component"] + ":" + k] = v
    wall = time.time() - t0
    simw = sum(r["wall_s"] for r in raws) or 1e-9
    cov = {
        "evaluations": tot("runs"),
        "distinct_nontrivial": tot("distinct_executions"),
        "rule": " | ".join("[%s] %s" % (r["component"], r["rule"]) for r in raws),
        "samples": sum((r.get("samples", [])[:3] for r in raws), []),
        "simulated_steps": tot("steps"),
        "simulated_seconds": tot("simulated_ns") / 1e9,
        "simulated_time_note": "the code has no timers; the simulated clock advances with the scheduler's steps (memory "
                               "accesses and runtime calls) plus injected jumps",
        "determinism_rechecks": tot("determinism_rechecks"),
        "preemption_points": tot("preemption_points"),
        "context_switches": tot("context_switches"),
        "parallel_regions": tot("parallel_regions"),
        "simulated_processes": tot("simulated_processes"),
        "largest_team": max([r.get("largest_team", 0) for r in raws] + [0]),
        "distinct_measure": "distinct_nontrivial counts different hashes of the complete event history of a run (every drawn "
                            "choice, team size, context switch with thread and position, fault, file operation and "
                            "result) among the runs with at least two context switches or one injected fault; one run "
                            "is one seed",
        "distinct_results": tot("distinct_results"),
        "conflict_sites": {r["component"]: r.get("conflict_sites", 0) for r in raws},
        "faults_injected": faults,
        "probes": probes,
        "known_findings_seen": {k: v for r in raws for k, v in r.get("known", {}).items()},
        "components": [{"name": r["component"], "real": r["real"], "stub": r["stub"], "runs": r["runs"],
                        "wall_s": r["wall_s"]} for r in raws],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "wall_s": round(wall, 2), "violations": tot("violations"),
          "assumptions": ["sequentially consistent memory (weak-memory reorderings are not simulated)",
                          "preemption happens at instrumented memory accesses and runtime calls of the code under test, "
                          "not inside the C++ standard library's own compiled code"] + P.get("assumptions", [])}
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    with open(ROOT + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1); f.write("\n")


def main():
    if sys.argv[1:2] == ["--replay"]:
        f = os.path.abspath(sys.argv[2])
        comp = [l.split()[1] for l in open(f) if l.startswith("component ")][0]
        key = NAMES.get(comp, comp)
        b = build([key])[key]
        sys.exit(subprocess.call([b, "--replay", f]))
    if sys.argv[1:2] == ["--build"]:
        names = sys.argv[2:] or sorted(COMPONENTS)
        for n, b in sorted(build(names).items()):
            print(n, b)
        return
    if sys.argv[1:2] == ["--selftest"]:   # the framework builds, runs, and finds planted mistakes
        names = ["disp", "selftest0", "selftest1", "selftest2", "selftest3", "selffiles"]
        b, bad = build(names), 0
        for n in names:   # selftest1 to 3 are wrong on purpose, and must be found out
            rep = BUILD + "/replays/%s.replay" % n
            os.makedirs(os.path.dirname(rep), exist_ok=True)
            r = subprocess.run([b[n], "--seed", "1", "--runs", "2000" if n[-1] in "123" else "400", "--seconds", "60", "--replay-out", rep],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            want = 1 if n[-1] in "123" else 0
            print("%s: exit %d, %d expected" % (n, r.returncode, want))
            if r.returncode != want:
                bad = 1
                print(r.stdout[-2000:])
        sys.exit(bad)
    prop = sys.argv[1]
    tier = (sys.argv[2:3] or [os.environ.get("VERIF_TIER", "quick")])[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    P = PROPERTIES[prop]
    t0 = time.time()
    ev = ROOT + "/evidence/%s.json" % prop
    if os.path.exists(ev):
        os.unlink(ev)
    bins = build([c for c, _ in P["components"]])
    tb = time.time() - t0
    raws, rc, known = [], 0, ROOT + "/known-findings.txt"
    budget = P.get("quick_s", 24) if tier == "quick" else P.get("thorough_s", 1200)
    comps = [(c, w) for c, w in P["components"] if c in bins]
    wsum = sum(w for _, w in comps)
    for c, w in comps:
        b = bins[c]
        raw, rep = b + ".raw.json", "%s/replays/%s-%s.replay" % (BUILD, prop, c)
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        for f in (raw, rep):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [b, "--seed", str(seed), "--runs", "1000000000", "--seconds", "%.1f" % (budget * w / wsum), "--raw", raw,
               "--known", known, "--replay-out", rep, "--workers", os.environ.get("SIM_WORKERS", "8")]
        if tier != "quick":
            cmd.append("--thorough")
        r = subprocess.run(cmd)
        if os.path.exists(raw):
            raws.append(json.load(open(raw)))
            assert NAMES.get(raws[-1]["component"], raws[-1]["component"]) == c
        if r.returncode == 1:
            rc = 1
            break
        if r.returncode != 0:
            rc = r.returncode if r.returncode > 1 else 3
            print("check error: component %s ended with %d" % (c, r.returncode))
            break
    if raws:
        merge(prop, tier, seed, raws, t0)
    print("%s %s: build %.1f s, %d runs, exit %d, %.1f s" %
          (prop, tier, tb, sum(r["runs"] for r in raws), rc, time.time() - t0))
    sys.exit(rc)


main()
