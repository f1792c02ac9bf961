#!/usr/bin/env python3
"""Development helper (no check uses it): run checks of a copy of this work against small changes to a copy of the code.
  mut.py <file.py> [id...]     MUTS = [(id, "C01,C02", [(file, old, new), ...]), ...];  runs /tmp/vc/check.py on /tmp/sm"""
import os, subprocess, sys
g = {}
exec(open(sys.argv[1]).read(), g)
SM = "/tmp/sm"
def sh(c, **kw): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
for i, props, edits in g["MUTS"]:
    if len(sys.argv) > 2 and i not in sys.argv[2:]: continue
    sh("git -C %s checkout -q -- ." % SM)
    bad = None
    for f, a, b in edits:
        p = os.path.join(SM, "coerce/src", f); s = open(p).read()
        if s.count(a) != 1: bad = "%s: %d matches of %r" % (f, s.count(a), a[:60]); break
        open(p, "w").write(s.replace(a, b))
    if bad: print(i, "BAD", bad, flush=True); continue
    for p in props.split(","):
        r = sh("python3 /tmp/vc/check.py " + p, env=dict(os.environ, VERIF_REPO=SM), cwd="/tmp/vc")
        o = r.stdout.decode("utf-8", "replace").splitlines()
        v = [l for l in o if l.startswith(("VIOLATION", "NO-VERDICT", "  finding", "error"))]
        print(i, p, {0: "*** SURVIVED", 1: "caught"}.get(r.returncode, "??? rc=%d" % r.returncode), (v or o[-3:])[:2] if r.returncode else "", flush=True)
        if r.returncode == 1: break
sh("git -C %s checkout -q -- ." % SM)
