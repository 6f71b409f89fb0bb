#!/usr/bin/env python3
"""setup_cmd: nothing is cached between runs; this only makes sure the tools are here."""
import os, shutil, sys
need = ["java", "g++", "python3"]
missing = [t for t in need if not shutil.which(t)]
for j in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(j):
        missing.append(j)
if missing:
    print("missing:", missing)
    sys.exit(1)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
print("ready")
