#!/usr/bin/env python3
"""seed.py DIR...: development tool. For each seeded/<id>/edit.py-style spec, see mk(); verifies patches in /tmp/seed/repo."""
import sys, os, json, subprocess, shutil
S = "/tmp/seed"; R = S + "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def reset(): sh("git -C %s checkout -q -- . && git -C %s clean -fdq" % (R, R))
def build_test():
    r = sh("bash %s/build.sh" % S)
    if r.returncode: return "does not build:\n" + r.stdout[-2000:]
    sh("bash %s/test.sh %s/o.json" % (S, S)); p = set(json.load(open(S + "/o.json"))["passed"])
    if not {"Trilateration::test_trilateration", "complementary_filter::staticTilt"} <= p: return "stable tests fail"
def demo(d, rebuild=True):
    t = S + "/demo"; shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    for f in os.listdir(t):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.remove(os.path.join(t, f))
    r = sh("bash %s/demo.sh" % t, cwd=R, timeout=300); return r.returncode, r.stdout[-800:]
def verify(d):
    reset()
    r = sh("git -C %s apply --check %s/patch.diff" % (R, d))
    if r.returncode: return "patch does not apply: " + r.stdout
    e = build_test()
    if e: return "unchanged: " + e
    rc, o = demo(d)
    if rc: return "demo fails on the unchanged tree (%d): %s" % (rc, o)
    sh("git -C %s apply %s/patch.diff" % (R, d))
    e = build_test()
    if e: reset(); return e
    rc, o = demo(d); reset()
    if rc == 0: return "demo passes with the patch: " + o
    return None
def mk(name, prop, edits, needs, breaks, files):
    """edits: [(file, old, new)]; files: {name: text}"""
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", name); os.makedirs(d, exist_ok=True); reset()
    sh("git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (R, R))
    for f, a, b in edits:
        p = os.path.join(R, f); s = open(p, encoding="utf-8", errors="surrogateescape", newline="").read()
        crlf = "\r\n" in s
        if crlf: a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
        if s.count(a) != 1: print(name, "NOT UNIQUE", f, repr(a), s.count(a)); return
        open(p, "w", encoding="utf-8", errors="surrogateescape", newline="").write(s.replace(a, b))
    open(d + "/patch.diff", "w", newline="").write(subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE).stdout.decode("utf-8", "surrogateescape"))
    reset()
    for n, t in files.items(): open(os.path.join(d, n), "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    e = verify(d); print(name, "OK" if e is None else e)
    return e is None
if __name__ == "__main__":
    for d in sys.argv[1:]: print(d, verify(os.path.abspath(d)) or "OK")
