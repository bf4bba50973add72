#!/usr/bin/env python3
"""Nothing is kept between checks (each one builds from /repo's working tree); this only tests that the tools are there."""
import shutil, subprocess, sys
for t in ("cargo", "gcc", "z3-new", "cvc5", "python3-vt"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
subprocess.run(["python3-vt", "-c", "import z3; print('z3', z3.get_version_string())"], check=True)
