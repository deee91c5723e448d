#!/usr/bin/env python3
"""Runs one property check: builds the harness against /repo's working tree, explores, writes evidence.

usage: check.py <ID> [quick|thorough] [--replay FILE] [--only SCENARIO]
exit 0: property held on everything explored; exit 1 + VIOLATION line: broken.
"""
import sys, os, json, hashlib, subprocess, time, shutil, glob, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from checks import CHECKS, GROUPS

BUILD = os.path.join(VERIF, "build")
COMMON = ["-std=c++17", "-g1", "-include", "list", "-DBUILD_FOR_LINUX", "-D_DEBUG", "-w", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all"]
TSAN = ["-fsanitize=thread", "-pthread"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]


def headers_digest(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            if "_build" in root or "/.git" in root:
                continue
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".inl")) or (root.startswith(os.path.join(VERIF, "harness")) and f.endswith(".inc")):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def compile_one(job):
    src, flags, hdig = job
    key = sha(src, open(src, "rb").read(), " ".join(flags), hdig)
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        r = subprocess.run(["clang++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return src, None, r.stdout
        os.rename(tmp, obj)
    return src, obj, ""


def build(pid):
    exe, log = build_with(CHECKS[pid], pid, False)
    if exe is None:                        # a source file was added, moved or removed: take every source of the trees used
        exe, log2 = build_with(CHECKS[pid], pid, True)
        if exe is None:
            print(log)
    return exe


def sources(G, wide):
    src = [s for s in G["src"] if os.path.exists(os.path.join(REPO, s))]
    if wide:
        top = G["src"][0].split("/src/")[0] + "/src" if "/src/" in G["src"][0] else G["src"][0].split("/")[0]
        drop = ("test_", "main.cpp")
        for f in sorted(glob.glob(os.path.join(REPO, top, "**", "*.cpp"), recursive=True)):
            r = os.path.relpath(f, REPO)
            if r not in src and not os.path.basename(r).startswith(drop) and not set(r.split("/")) & {"tests", "examples", "_build"}:
                src.append(r)
    return src


def build_with(cfg, pid, wide):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    hd_repo = headers_digest([os.path.join(REPO, d) for d in ("include", "src", "tools", "standalone_algorithms")])
    hd_ver = headers_digest([os.path.join(VERIF, "harness")])
    san = TSAN if cfg.get("san") == "thread" else SAN
    opt = cfg.get("opt", "-O1")
    jobs = []
    def repo_flags(extra):
        return COMMON + san + extra
    for g in cfg["groups"]:
        G = GROUPS[g]
        for s in sources(G, wide):
            o = "-O0" if s in G.get("O0", ()) else opt
            fl = repo_flags([o] + ["-I" + os.path.join(REPO, i) if not i.startswith("/") else "-I" + i for i in G["inc"]] + G.get("flags", []))
            jobs.append((os.path.join(REPO, s), fl, hd_repo))
    hinc = ["-I" + os.path.join(VERIF, "harness"), "-DREPO_DIR=\"%s\"" % REPO]
    for g in cfg.get("hgroups", cfg["groups"]):
        hinc += ["-I" + os.path.join(REPO, i) if not i.startswith("/") else "-I" + i for i in GROUPS[g]["inc"]]
    for s in ["vx.cpp"] + cfg["harness"]:
        fl = COMMON + san + [opt] + hinc + cfg.get("hflags", [])
        if s == "vx.cpp":
            fl = COMMON + san + ["-O2", "-I" + os.path.join(VERIF, "harness")]
        jobs.append((os.path.join(VERIF, "harness", s), fl, hd_repo + hd_ver if s != "vx.cpp" else hd_ver))
    for s, fl in cfg.get("hsrc", []):      # additional harness sources with group-specific includes
        G = GROUPS[fl]
        f = COMMON + san + [opt, "-I" + os.path.join(VERIF, "harness")] + ["-I" + os.path.join(REPO, i) if not i.startswith("/") else "-I" + i for i in G["inc"]] + G.get("flags", [])
        jobs.append((os.path.join(VERIF, "harness", s), f, hd_repo + hd_ver))
    # heaviest first
    jobs = list({(j[0], tuple(j[1])): j for j in jobs}.values())
    jobs.sort(key=lambda j: -(10**9 if "trilateration.cpp" in j[0] else os.path.getsize(j[0])))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compile_one, jobs))
    for src, obj, log in res:
        if obj is None:
            return None, "BUILD-ERROR compiling %s\n%s" % (src, log[-6000:])
    objs = list(dict.fromkeys(o for _, o, _ in res))
    exe = os.path.join(BUILD, "%s.%s" % (pid, sha(*objs)))
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        r = subprocess.run(["clang++"] + san + objs + ["-o", tmp] + cfg.get("ldflags", []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return None, "BUILD-ERROR linking\n" + r.stdout[-6000:]
        os.rename(tmp, exe)
    return exe, ""


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                k = json.loads(line)
                if k.get("property") == pid and k.get("status") == "known":
                    out.append(k)
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    replay = only = None
    i = 0
    while i < len(args):
        if args[i] in ("quick", "thorough"):
            tier = args[i]
        elif args[i] == "--replay":
            i += 1; replay = args[i]
        elif args[i] == "--only":
            i += 1; only = args[i]
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = CHECKS[pid]
    t0 = time.time()
    exe = build(pid)
    if exe is None:
        return 2
    tb = time.time() - t0
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:handle_abort=1:symbolize=0:quarantine_size_mb=4:malloc_context_size=3"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:abort_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_thread_leaks=0:history_size=4:symbolize=0:report_signal_unsafe=0:die_after_fork=0"
    known = known_findings(pid)
    karg = []
    for k in known:
        karg += ["--known", k["key"]]
    if replay:
        r = subprocess.run([exe, "--tier", tier, "--replay", replay] + karg, env=env)
        return r.returncode
    tmp = tempfile.mkdtemp(prefix="vx_%s_" % pid, dir=BUILD)
    try:
        env["VX_SCRATCH"] = tmp
        cmd = [exe, "--tier", tier, "--dir", tmp, "--workers", "8"] + karg + (["--only", only] if only else [])
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        rj = os.path.join(tmp, "result.json")
        if not os.path.exists(rj) or r.returncode >= 97 or r.returncode < 0:
            errs = "".join(open(f, errors="replace").read()[-1500:] for f in glob.glob(tmp + "/stderr.*"))
            print("HARNESS-ERROR rc=%s\n%s\n%s" % (r.returncode, r.stdout[-3000:], errs[-4000:]))
            return 2
        res = json.load(open(rj))
        san = ""
        if res["violated"]:
            for f in sorted(glob.glob(tmp + "/stderr.*")):
                t = open(f, errors="replace").read()
                if "ERROR" in t or "runtime error" in t:
                    san = t[:3000]; break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    viol = 1 if res["violated"] else 0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": res["states"], "transitions": res["steps"],
            "traces_validated_against_impl": res["validated"],
            "executions": res["execs"], "distinct_outcomes": len(res["outcomes"]), "outcomes": res["outcomes"],
            "scenarios": res["scenarios"],
            "samples": res["samples"] or [res["trace"][:1500] or "(violation)"],
            "exhaustive": not viol,
            "rule": "every choice sequence of every scenario (operations, arguments, configurations) is executed on the code of /repo's working tree and compared step by step with the reference model",
            "bounds": cfg.get("bounds", ""),
            "build_s": round(tb, 1), "explore_s": round(res["explore_s"], 1),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": viol,
    }
    if res["known"]:
        ev["coverage"]["known_findings_met"] = res["known"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if res["known"].get(k["key"]):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: executions=%d transitions=%d states=%d outcomes=%d build=%.1fs explore=%.1fs" % (
        pid, tier, res["execs"], res["steps"], res["states"], len(res["outcomes"]), tb, res["explore_s"]))
    if viol:
        rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s.%s.replay" % (pid, sha(res["scenario"], json.dumps(res["choices"]), res["key"])[:10]))
        with open(path, "w") as f:
            f.write(res["scenario"] + "\n" + " ".join(map(str, res["choices"])) + "\n" + res["key"] + "\n" + res["msg"] + "\n" + res["trace"] + "\n" + san)
        print("scenario %s, key %s: %s" % (res["scenario"], res["key"], res["msg"]))
        print(res["trace"][:2500])
        if san:
            print(san[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if res["unconfirmed"]:
        print("note: a worker was stopped without progress but the same history completes when run alone; treated as an error")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
