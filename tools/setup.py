#!/usr/bin/env python3
"""Checks that the toolchain the checks use is present. Nothing to build: every
check compiles its driver from /repo's working tree itself."""
import os, shutil, sys
os.environ["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + os.environ.get("PATH", "")
missing = [t for t in ("clang++-17", "clang++-18", "java", "ld.lld") if not shutil.which(t)]
missing += [f for f in ("/opt/veriftools/tla/tla2tools.jar",
                        "/opt/veriftools/tla/CommunityModules-deps.jar") if not os.path.exists(f)]
if missing:
    sys.exit("missing: " + ", ".join(missing))
print("ok")
