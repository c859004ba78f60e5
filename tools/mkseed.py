#!/usr/bin/env python3
"""mkseed.py FILE...: each FILE (python) defines bugs through bug(id, prop, needs, breaks, [(path, old, new)...], demo_cpp).
Writes seeded/<id>/ from /repo's HEAD."""
import os, sys, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = os.path.join(V, "tools/seedlib")
def bug(id, prop, needs, breaks, edits, demo, sh=None, extra={}):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    diff = ""
    with tempfile.TemporaryDirectory() as t:
        files = {}
        for path, old, new in edits:
            if path not in files:
                files[path] = [subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + path]).decode()] * 2
            s = files[path][1]
            n = s.count(old)
            if n != 1:
                print("%s: %s: text found %d times" % (id, path, n)); sys.exit(1)
            files[path][1] = s.replace(old, new)
        for path, (a, b) in files.items():
            open(t + "/a", "w").write(a); open(t + "/b", "w").write(b)
            o = subprocess.run(["diff", "-u", "--label", "a/" + path, "--label", "b/" + path, t + "/a", t + "/b"], stdout=subprocess.PIPE).stdout.decode()
            diff += "diff --git a/%s b/%s\n" % (path, path) + o
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy(L + "/demo.sh", d) if sh is None else open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
    if demo is not None:
        open(d + "/demo.cpp", "w").write(demo)
        if '"mini.hpp"' in demo:
            shutil.copy(L + "/mini.hpp", d)
    for f, c in extra.items():
        open(d + "/" + f, "w").write(c)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print(id)
for f in sys.argv[1:]:
    exec(compile(open(f).read(), f, "exec"))
