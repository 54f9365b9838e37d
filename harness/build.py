#!/usr/bin/env python3
"""Generate a corpus and build the simulator for it against /repo's working tree."""
import os, re, shutil, subprocess, sys, json
import gen
from gen import HERE, put

ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="1.98.1-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
BUILD = os.environ.get("BVERIF_BUILD", HERE + "/build")

def shards(seed, count, structs, enums, small, opts=None):
    out = []
    for i in range(count):
        g = gen.Gen(seed, f"{i}", opts)
        for _ in range(small):
            s = g.struct(maxbits=g.r.choice([8, 12, 16, 24]), nested_ok=False)
            g.nestable.append(s)
        for _ in range(small):
            g.nestable.append(g.enum(small=True))
        # two levels of nesting
        g.nestable.append(g.struct(maxbits=g.r.choice([16, 24, 40])))
        # larger parts, and a third level
        g.nestable.append(g.struct(maxbits=g.r.choice([64, 100, 130, 140, 170, 260])))
        if g.r.random() < 0.5:
            g.nestable.append(g.enum())
        for k in range(structs):
            g.shuffled() if k % 8 == 7 else g.struct()
        for _ in range(enums):
            g.enum()
        out.append(g)
    return out

PROFILES = {
    "dev": "opt-level = 0\noverflow-checks = true\ndebug-assertions = true\n",
    "release-like": "opt-level = 1\noverflow-checks = false\ndebug-assertions = false\n",
}

def write(ws, gens, profile="dev"):
    gen.emit(ws, gens)
    n = len(gens)
    put(ws + "/Cargo.toml", "[workspace]\nresolver = \"2\"\nmembers = [" + ", ".join(f'"shard{i}"' for i in range(n)) + ', "main"]\n'
        "[profile.dev]\ndebug = 0\n" + PROFILES[profile] + "codegen-units = 4\n[profile.dev.build-override]\nopt-level = 1\n[profile.dev.package.sim]\nopt-level = 2\n[profile.dev.package.simcore]\nopt-level = 2\n")
    os.makedirs(ws + "/main/src", exist_ok=True)
    put(ws + "/main/Cargo.toml", '[package]\nname = "main"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\nsim = { path = "%s/sim" }\n' % HERE
        + "".join(f'shard{i} = {{ path = "../shard{i}" }}\n' for i in range(n)))
    put(ws + "/main/src/main.rs", "fn main() { sim::main(&[" + ", ".join(f"shard{i}::ALL" for i in range(n)) + "], &[" + ", ".join(f"shard{i}::PRIMS" for i in range(n)) + '], include_str!("../../model.txt")) }\n')

def cargo(ws, extra=()):
    env = dict(ENV)
    env["CARGO_TARGET_DIR"] = BUILD + "/target"
    return subprocess.run(["cargo", "build", "--offline", "-j8", *extra], cwd=ws, env=env, text=True, capture_output=True)

if __name__ == "__main__":
    seed, count, structs, enums, small = (int(x) for x in sys.argv[1:6])
    ws = f"{BUILD}/ws"
    write(ws, shards(seed, count, structs, enums, small))
    p = cargo(ws)
    if p.returncode:
        p.stderr = "\n".join(l for l in p.stderr.split("\n\n") if not l.startswith("warning"))
        print(p.stderr[:6000])
        sys.exit(2)
