"""mkbug(id, prop, edits, files, needs, breaks): writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo files, meta.json).
edits: [(file, old, new)] (old must occur exactly once); files: {name: text}; a demo.llrl gets the standard demo.sh."""
import json, os, subprocess, tempfile, shutil
R = "/repo"
STD = r'''#!/bin/bash
# compiles and runs demo.llrl with the tree's compiler; its assertions abort (non-zero exit) when the property is broken
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/lib/llvm-14/bin:$PATH
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp "$here"/*.llrl "$T"/ && cd "$T" || exit 2
for b in @BACKENDS@; do
  timeout 100 /repo/target/release/llrl0 $b -o demo.exe demo || exit 1
  timeout 100 ./demo.exe || exit 1
done
'''
def mkbug(id, prop, edits, files, needs, breaks, backends=("-bchibi",)):
    d = "/verif/seeded/" + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp(prefix="mkbug")
    out = b""
    for f in dict.fromkeys(e[0] for e in edits):
        s = open(os.path.join(R, f)).read(); o = s
        for (g, a, b) in edits:
            if g == f:
                assert s.count(a) == 1, (id, f, a, s.count(a))
                s = s.replace(a, b)
        for side, txt in (("a", o), ("b", s)):
            p = os.path.join(t, side, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(txt)
    out = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True).stdout
    open(d + "/patch.diff", "wb").write(out)
    shutil.rmtree(t)
    files = dict(files)
    files.setdefault("demo.sh", STD.replace("@BACKENDS@", " ".join('"%s"' % b for b in backends)))
    for n, s in files.items():
        open(os.path.join(d, n), "w").write(s)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["git", "apply", "--check", d + "/patch.diff"], cwd=R, check=True)
    print("planted", id)
