#!/usr/bin/env python3
"""Nothing is prebuilt: this only confirms that the tools the checks need are there."""
import shutil, sys
need = ["clang", "clang++", "python3", "make"]
missing = [t for t in need if not shutil.which(t)]
if missing: sys.exit("missing tools: " + ", ".join(missing))
print("tools present; every check builds from /repo when it runs")
