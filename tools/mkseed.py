"""mkseed(id, property, file, old, new, needs, breaks, demo_sh, extra files): writes /verif/seeded/<id>/ with a patch of /repo HEAD."""
import json, os, subprocess
def mkseed(id, prop, edits, needs, breaks, files):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    R = "/repo"
    assert not subprocess.run(["git", "-C", R, "diff", "--quiet"]).returncode
    try:
        for f, old, new in edits:
            p = R + "/src/common/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "wb").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    for n, t in files.items():
        open(d + "/" + n, "w").write(t)
# demo.cpp compiled the way the repository's own build does, linked with its library
def demo(extra="", lib=True):
    return """#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -g -fno-strict-aliasing -w -I/repo/src -DCOMMON_BASE_BASE_H_ -include /repo/_build/base_includes.h %s "$D/demo.cpp" -o "$W/demo" %s -lglog -lgflags -lpthread
cd "$W"; timeout 120 ./demo
""" % (extra, "/repo/_build/libcommon_subset.a" if lib else "")
