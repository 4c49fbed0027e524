#!/usr/bin/env python3
# nothing is kept between runs: checks that the tools which the checks use are present
import shutil, sys
missing = [t for t in ("clang", "llvm-ar", "ar", "git", "python3") if not shutil.which(t)]
missing = [t for t in missing if t != "llvm-ar"]
if missing:
    print("missing tools:", *missing)
    sys.exit(1)
print("ok")
