#!/usr/bin/env python3
"""Nothing has to be prebuilt: every check compiles its harness from /repo.
This only verifies that the toolchain the checks need is present."""
import shutil, sys
for t in ("g++", "python3"):
    if not shutil.which(t):
        print("missing", t)
        sys.exit(1)
print("toolchain present")
