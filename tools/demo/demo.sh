#!/bin/bash
# exit 0: the property holds on what main.rs tries; nonzero: it is broken. Works on a private copy of /repo.
exec python3 - "$(cd "$(dirname "$0")" && pwd)" <<'PY'
import os, re, shutil, subprocess, sys, tempfile
here = sys.argv[1]
with tempfile.TemporaryDirectory(prefix="demo.") as w:
    shutil.copytree("/repo", w + "/repo", ignore=shutil.ignore_patterns("target", ".git", ".cargo"), symlinks=True)
    for d, _, fs in os.walk(w + "/repo"):
        if "Cargo.toml" in fs:
            p = os.path.join(d, "Cargo.toml")
            t = open(p).read()
            t = re.sub(r"(?m)^concrete-ntt\s*=\s*\{[^}\n]*\bgit\s*=[^}\n]*\}[^\n]*\n", "", t)
            t = re.sub(r'"(?:dep:concrete-ntt|concrete-ntt\??/[^"]*)"\s*,?\s*', "", t)
            open(p, "w").write(t)
    os.makedirs(w + "/demo/src")
    shutil.copy(here + "/main.rs", w + "/demo/src/main.rs")
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copy(os.path.join(here, f), w + "/demo/" + f)
    env = dict(os.environ, CARGO_TARGET_DIR=w + "/target", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               CARGO_INCREMENTAL="0", HOME="/root", PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        env.pop(k, None)
    b = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=w + "/demo", env=env)
    if b.returncode:
        sys.exit("demo does not build")
    sys.exit(subprocess.run([w + "/target/debug/demo"], timeout=120).returncode and 1)
PY
