#!/usr/bin/env python3
"""tools/mut.py CHECK[,CHECK...] FILE 'old' 'new' : run checks on a copy of /repo in which one piece of
text has been replaced (for trying out how sensitive the checks are); the copy is /tmp/mut.repo"""
import os, shutil, subprocess, sys
checks, f, old, new = sys.argv[1:5]
d = "/tmp/mut.repo"
if not os.path.exists(d):
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
subprocess.run(["git", "-C", d, "fetch", "-q"], check=True)
subprocess.run(["git", "-C", d, "reset", "-q", "--hard", "origin/HEAD"], check=True)
p = os.path.join(d, f)
s = open(p).read()
old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
assert s.count(old) >= 1, "text not found"
open(p, "w").write(s.replace(old, new, 1))
for c in checks.split(","):
    r = subprocess.run([sys.executable, "/verif/checks/check.py", c], env=dict(os.environ, VERIF_REPO=d),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(c, "rc", r.returncode, "|", [l for l in r.stdout.splitlines() if l.strip()][-2:][0][:300] if r.returncode else "MISSED")
