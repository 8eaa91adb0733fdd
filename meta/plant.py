"""Makes a seeded bug from edits: plant(id, property, needs, breaks, [(file, old, new)...], demo, {file: text})."""
import json, os, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plant(id, prop, needs, breaks, edits, demo, files=None):
    d = os.path.join(HERE, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix="plant-")
    try:
        for side in "ab":
            for f in {e[0] for e in edits}:
                os.makedirs(os.path.dirname(os.path.join(t, side, f)), exist_ok=True)
                shutil.copy(os.path.join("/repo", f), os.path.join(t, side, f))
        for f, old, new in edits:
            p = os.path.join(t, "b", f)
            s = open(p, encoding="latin-1").read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w", encoding="latin-1").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally:
        shutil.rmtree(t)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        f.write("\n")
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write("#!/bin/bash\nset -e\nD=$(cd \"$(dirname \"$0\")\" && pwd)\nW=$(mktemp -d)\ntrap 'rm -rf \"$W\"' EXIT\n" + demo.strip() + "\n")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, text in (files or {}).items():
        open(os.path.join(d, n), "w").write(text)
