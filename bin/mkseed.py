#!/usr/bin/env python3
"""mkseed.py FILE: (re)create planted bugs from a description:
blocks separated by '=====' lines:
 id: / property: / pkg: / needs: / breaks: ; 'file: path' with '<<<' old '===' new '>>>' edits; 'demo:' then Go test source."""
import sys, os, subprocess, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
txt = open(sys.argv[1]).read()
for blk in re.split(r'(?m)^=====.*\n', txt):
    if not blk.strip():
        continue
    head, demo = blk.split("\ndemo:\n", 1)
    m = dict(re.findall(r'(?m)^(id|property|pkg|needs|breaks): (.*)$', head))
    w = "/tmp/mkseed_%s" % m["id"]
    subprocess.check_call(["rm", "-rf", w]); subprocess.check_call(["cp", "-a", os.environ.get("BASE", "/repo"), w])
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=w)
    for f, edits in re.findall(r'(?ms)^file: (\S+)\n(.*?)(?=^file: |\Z)', head):
        p = os.path.join(w, f); s = open(p).read()
        for old, new in re.findall(r'(?ms)^<<<\n(.*?)^===\n(.*?)^>>>$', edits):
            if s.count(old) != 1:
                print(m["id"], "edit matches", s.count(old), "times:", old[:80]); sys.exit(1)
            s = s.replace(old, new)
        open(p, "w").write(s)
    d = os.path.join(V, "seeded", m["id"]); os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(open(os.path.join(V, "bin", "demo_template.sh")).read().replace("@PKG@", m["pkg"]))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if not demo.startswith("package"):
        demo = "package %s\n\n" % m["pkg"].split("/")[-1] + demo
    open(os.path.join(d, "demo_test.go"), "w").write(demo.replace("func TestDemo(", "func TestSeededDemo("))
    subprocess.call(["goimports", "-w", os.path.join(d, "demo_test.go")])
    json.dump({"property": m["property"], "needs": m["needs"], "what_it_breaks": m["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    subprocess.check_call(["rm", "-rf", w])
    print("made", m["id"])
