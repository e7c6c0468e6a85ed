#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain is there and that all specifications parse."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
for tool in ("java", "cmake", "ninja", "g++"):
    if subprocess.run(["which", tool], stdout=subprocess.DEVNULL).returncode:
        sys.exit(f"{tool} is missing")
specs = sorted(glob.glob(os.path.join(V, "spec", "*.tla")))
p = subprocess.run(["java", "-cp", J, "tla2sany.SANY"] + specs, stdout=subprocess.PIPE,
                   stderr=subprocess.STDOUT, text=True, cwd=os.path.join(V, "spec"))
if p.returncode or "*** Errors" in p.stdout or "Could not parse" in p.stdout:
    sys.exit(p.stdout[-3000:])
print(f"{len(specs)} specifications parsed")
