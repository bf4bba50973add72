"""Mirror of the cargo workspace /repo without the git dependency concrete-ntt (which no
network can fetch): Cargo.toml files are copies minus that dependency, everything else is a
symlink into /repo.  Nothing in /repo is written."""
import os
import re
import shutil

SKIP = {".git", "target", "Cargo.lock"}


def strip(text):
    text = re.sub(r"(?m)^concrete-ntt\s*=\s*\{[^}\n]*\bgit\s*=[^}\n]*\}[^\n]*\n", "", text)
    return re.sub(r'"(?:dep:concrete-ntt|concrete-ntt\??/[^"]*)"\s*,?\s*', "", text)


def remove(path):
    if os.path.isdir(path) and not os.path.islink(path):
        shutil.rmtree(path)
    elif os.path.lexists(path):
        os.remove(path)


def holds_manifest(path):
    for _, dirs, files in os.walk(path):
        dirs[:] = [d for d in dirs if d not in SKIP]
        if "Cargo.toml" in files:
            return True
    return False


def mirror(src, dst):
    if os.path.islink(dst) or not os.path.isdir(dst):
        remove(dst)
        os.makedirs(dst)
    names = set(os.listdir(src)) - SKIP
    for name in set(os.listdir(dst)) - names - {"Cargo.lock"}:
        remove(os.path.join(dst, name))
    for name in sorted(names):
        s, d = os.path.join(src, name), os.path.join(dst, name)
        if name == "Cargo.toml":
            new = strip(open(s, encoding="utf-8").read())
            if os.path.islink(d) or not os.path.isfile(d) or open(d, encoding="utf-8").read() != new:
                remove(d)
                with open(d, "w", encoding="utf-8") as f:
                    f.write(new)
        elif os.path.isdir(s) and not os.path.islink(s) and holds_manifest(s):
            mirror(s, d)
        elif not os.path.islink(d) or os.readlink(d) != s:
            remove(d)
            os.symlink(s, d)
