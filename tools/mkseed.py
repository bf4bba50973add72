#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes /verif/seeded/<id> for every seed(...) call in SPEC.py; --try also runs each demo on a patched and an unpatched copy."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(id, prop, edits, main, needs, what):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as w:
        for side in "ab":
            for f, _, _ in edits:
                os.makedirs(os.path.dirname("%s/%s/%s" % (w, side, f)), exist_ok=True)
                shutil.copy("/repo/" + f, "%s/%s/%s" % (w, side, f))
        for f, old, new in edits:
            p = "%s/b/%s" % (w, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=w, stdout=subprocess.PIPE, text=True)
        open(d + "/patch.diff", "w").write(r.stdout)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"])
    assert r.returncode == 0, id
    open(d + "/main.rs", "w").write(main)
    for f in ("demo.sh", "Cargo.toml", "Cargo.lock"):
        shutil.copy(os.path.join(ROOT, "tools/demo", f), d + "/" + f)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
    print("made", id)


exec(open(sys.argv[1]).read())
