#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs itself."""
import shutil, subprocess, sys
for t in ("verus", "cargo", "rustc", "git"):
    if not shutil.which(t):
        print("missing", t); sys.exit(1)
print(subprocess.run(["verus", "--version"], capture_output=True, text=True).stdout.strip())
