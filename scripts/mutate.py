#!/usr/bin/env python3
"""Self test of the checks: applies one-line changes to a scratch copy of the
repository and reports which checks notice them.

usage: mutate.py [filter]   (needs /verif/bin/wwrstatic)
Each entry of mutants.txt is:
  @ NAME FILE CHECKS...        (checks expected to report, '-' for a refactoring
<<<<                            that no check may report)
old
====
new
>>>>
"""
import os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
binary = os.environ.get("WWR_BIN", os.path.join(here, "..", "bin", "wwrstatic"))

def parse(path):
    out, cur, mode = [], None, None
    for line in open(path):
        if mode is None and line.startswith("@ "):
            w = line.split()
            cur = dict(name=w[1], checks=w[2:], edits=[])
            out.append(cur)
        elif mode in (None, 2) and line.startswith("<<<<"):
            f = line[4:].strip()
            cur["edits"].append([f, "", ""]); mode = 1
        elif mode == 1 and line.startswith("===="):
            mode = 2
        elif mode == 2 and line.startswith(">>>>"):
            mode = None
        elif mode:
            cur["edits"][-1][mode] += line
    return out

def run(m):
    d = tempfile.mkdtemp(prefix="mut")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        for f, old, new in m["edits"]:
            p = os.path.join(r, f)
            s = open(p).read() if os.path.exists(p) else ""
            if old not in s and old.rstrip("\n") not in s:
                return m["name"], "PATCH FAILED %s" % f
            if old.strip() == "":
                s = s + new
            elif old in s:
                s = s.replace(old, new, 1)
            else:
                s = s.replace(old.rstrip("\n"), new.rstrip("\n"), 1)
            open(p, "w").write(s)
        ids = m["checks"]
        if ids and ids[0] == "-":
            ids = ids[1:] or ["all"]
            want = 0
        else:
            want = 1
        res = []
        for i in ids:
            env = dict(os.environ, WWR_REPO=r, WWR_VERIF=d)
            try:
                q = subprocess.run([binary, i], env=env, capture_output=True, text=True, timeout=900)
                code, out = q.returncode, q.stdout
            except subprocess.TimeoutExpired:
                code, out = 99, "timeout"
            ok = code == want
            why = [l for l in out.splitlines() if l.startswith("violation:") or l.startswith("rule:")]
            msg = "%s:%s" % (i, "ok" if ok else "WRONG(%d)" % code)
            if not ok and code not in (0, 1):
                msg += " " + out.strip()[-300:]
            if os.environ.get("WHY") or (want == 0 and not ok):
                msg += " {" + "; ".join(l.split(":",1)[1].strip() for l in why[:6]) + "}"
            res.append(msg)
        return m["name"], " ".join(res)
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    ms = parse(os.environ.get("MUTANTS", os.path.join(here, "mutants.txt")))
    if len(sys.argv) > 1:
        ms = [m for m in ms if sys.argv[1] in m["name"] or sys.argv[1] in m["checks"]]
    with cf.ThreadPoolExecutor(4) as ex:
        for n, r in ex.map(run, ms):
            print(n, r, flush=True)
