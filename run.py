#!/usr/bin/env python3
"""Driver of the checks.

  run.py CHECK            (VERIF_SEED, VERIF_TIER=quick|thorough)
  run.py replay FILE      rebuilds what FILE needs from /repo's working tree and executes its trace
"""
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/harness")
sys.dont_write_bytecode = True
import build  # noqa: E402

OUT = HERE + "/out"
# corpus per check: shards, structs, enums and small (nestable) definitions per shard; generator weights
MIX = {
    "C09": (24, 4, 22, 2, {}),
    "C10": (24, 20, 5, 2, {"alias": 2.5}),
    "C13": (24, 16, 8, 2, {"prim": 0.35}),
    "C14": (24, 16, 8, 3, {"nest": 0.35}),
}
DEFAULT = (24, 17, 9, 2, {})
PER = {"quick": 150, "thorough": 600}
# a quick check explores this many corpora (fewer on a machine so slow that they would take too long)
QUICK_CORPORA, QUICK_LIMIT = 3, 360

RULES = {
    "C01": "A run is one shared buffer with several clients reading and writing fields while foreign writes scribble over it; non-trivial: at least 5 comparisons with the register model and at least one foreign write.",
    "C02": "A run is one buffer used through every access path; non-trivial: at least 5 comparisons between paths and at least one foreign write or appended byte.",
    "C03": "A run is a sender, a faulty network and a receiver; non-trivial: at least 5 comparisons and at least one loss, duplication, reordering or crash.",
    "C04": "A run is a set of partially arrived buffers; non-trivial: at least 5 comparisons and at least one partial arrival.",
    "C05": "A run is a store whose sectors are flipped, torn and misdirected; non-trivial: at least 5 reads or decodes compared and at least one disk fault.",
    "C06": "A run is a record whose bits are damaged and repaired; non-trivial: at least 5 comparisons and at least one damage.",
    "C07": "A run is a redo logged update of a record in durable memory with crashes; non-trivial: at least 5 comparisons and at least one crash.",
    "C08": "A run is hex text through a channel which damages it; non-trivial: at least 5 comparisons and at least one text fault.",
    "C09": "A run is a message bus of one enum; non-trivial: at least 5 comparisons and at least one corrupted message or unknown id.",
    "C10": "A run is one buffer of a structure with reserve, read only, redundant or overlapping fields; non-trivial: at least 5 comparisons and at least one foreign write.",
    "C11": "A run is a library node and a reference node over a faulty network; non-trivial: at least 5 comparisons and at least one network fault or restart.",
    "C12": "A run is a set of messages hopping over relays; non-trivial: at least 5 comparisons and at least one loss, duplication or corruption.",
    "C13": "A run is one buffer of a structure with primitive enum fields; non-trivial: at least 5 comparisons and at least one foreign write.",
    "C14": "A run is a container with clients updating nested parts and neighbours; non-trivial: at least 5 comparisons and at least one foreign write.",
}
REAL = [
    "bondrewd-derive: the whole procedural macro crate of /repo (Bitfields and BitfieldEnum), run by rustc on every definition of the corpus",
    "bondrewd: the traits, hex conversion and error types of /repo",
    "the functions generated for every definition: field reads and writes, slice, checked and unchecked access, from/into bytes, slice, vector, hex, ids",
]
STUB = [
    "clients, peers, relays, network, disk and durable memory: actors of the simulator",
    "the layout reference (gen.py, model.rs): computed from the documentation, shares no code with /repo",
]


def mix(check, seed, k=0):
    c, st, en, sm, opts = MIX.get(check, DEFAULT)
    return dict(seed=seed * 100000 + int(check[1:]) * 1000 + k, count=c, structs=st, enums=en, small=sm, opts=opts)


class Compile(Exception):
    def __init__(self, schema, shard, text):
        super().__init__(text)
        self.schema, self.shard, self.text = schema, shard, text


def make(check, m, only=None, profile="dev"):
    """builds the simulator for a corpus; returns (binary, generators)"""
    os.makedirs(build.BUILD, exist_ok=True)
    gens = build.shards(m["seed"], m["count"], m["structs"], m["enums"], m["small"], m["opts"])
    if only is not None:
        gens = [g for g in gens if g.tag in only]
    ws = f"{build.BUILD}/ws-{check}"
    shutil.rmtree(ws, ignore_errors=True)
    with open(build.BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build.write(ws, gens, profile)
        p = build.cargo(ws)
        if p.returncode:
            found = blame(ws, p.stderr)
            if found:
                raise Compile(*found)
            print(p.stderr[-6000:], file=sys.stderr)
            print("harness: the simulator does not build", file=sys.stderr)
            sys.exit(2)
        binary = f"{ws}/main.bin"
        shutil.copy2(f"{build.BUILD}/target/debug/main", binary)
    return binary, gens


def blame(ws, err):
    """the definition whose derived code does not compile, if that is what went wrong"""
    part = []
    for line in err.splitlines() + ["error"]:
        # the messages of one error go on until the next message of cargo or rustc
        if part and re.match(r"(error|warning)\b|   Compiling |For more information", line):
            found = blame_one(ws, "\n".join(part))
            if found:
                return found
            part = []
        if part or re.match(r"error\b", line):
            part.append(line)
    return None


def blame_one(ws, part):
    for m in re.finditer(r"--> shard(\d+)/src/lib\.rs:(\d+)", part):
        name = None
        for i, l in enumerate(open(f"{ws}/shard{m[1]}/src/lib.rs"), 1):
            if i > int(m[2]):
                break
            if l.startswith("// @schema "):
                name = l.split()[2]
        if name:
            return name, re.match(r"[A-Z](\d+)x", name)[1], part.strip()
    return None


def source(gens, names):
    out = []
    need = set(names)
    for g in gens:
        for s in reversed(g.schemas):
            if s.name in need:
                for f in [f for v in s.variants for f in v["fields"]] if s.is_enum else s.fields:
                    t = f.ty.el if f.ty.k == "arr" else f.ty
                    if t.k == "nest":
                        need.add(t.ref.name)
                    elif t.k == "prim":
                        need.add(t.ref.name)
        for p in g.prims:
            if p.name in need:
                out.append(p.rust(p.mark).split("\nimpl V for")[0])
        for s in g.schemas:
            if s.name in need:
                out.append(re.split(r"\n(?:#\[allow\(unused_variables\)\] )?impl V for", s.rust())[0])
    return "\n".join(out)


def save(check, seed, body):
    os.makedirs(OUT, exist_ok=True)
    p = f"{OUT}/{check}-{seed}.json"
    json.dump(body, open(p, "w"), indent=1)
    return p


def known(check):
    p = HERE + "/known_findings.txt"
    ks = {}
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m[1] == check:
                ks[m[2]] = m[3]
    return ks


def finish(cmd, secs):
    try:
        return subprocess.run(cmd, text=True, capture_output=True, timeout=secs)
    except subprocess.TimeoutExpired:
        return None


def stuck(cmd, journal, secs):
    """(what happens, trace) when the simulator dies or makes no progress for this long, (None, None) if it does neither"""
    p = subprocess.Popen(cmd + ["--threads", "1", "--journal", journal], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    last, since = None, time.time()
    while p.poll() is None:
        time.sleep(0.5)
        try:
            s = os.stat(journal)
            now = (s.st_mtime_ns, s.st_size)
        except OSError:
            now = None
        if now != last:
            last, since = now, time.time()
        elif time.time() - since > secs:
            p.kill()
            p.wait()
            return f"no progress for {secs} s", open(journal).read()
    if p.returncode < 0:
        return f"ended by signal {-p.returncode}", open(journal).read()
    return None, None


def check(name):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in PER else "quick"
    limit = float(os.environ.get("VERIF_SECS", "1500" if tier == "thorough" else str(QUICK_LIMIT)))
    most = QUICK_CORPORA if tier == "quick" else 1 << 30
    ks = known(name)
    total, parts, viol = {}, [], None
    k = 0
    seen_known = {}
    while True:
        m = mix(name, seed, k)
        # every second corpus of a thorough run is built the way a release is
        profile = "release-like" if k % 2 and tier == "thorough" else "dev"
        ws = f"{build.BUILD}/ws-{name}"
        try:
            binary, gens = make(name, m, profile=profile)
        except Compile as e:
            gens = build.shards(m["seed"], m["count"], m["structs"], m["enums"], m["small"], m["opts"])
            viol = save(name, seed, dict(kind="compile", property=name, corpus=m, profile=profile, shards=[e.shard], schema=e.schema, source=source(gens, [e.schema]), message=e.text))
            what = f"definition {e.schema} no longer compiles: " + e.text.splitlines()[0]
            break
        kf, jf, tf = ws + "/known.txt", ws + "/out.json", ws + "/trace.txt"
        open(kf, "w").write("\n".join(ks))
        cmd = [binary, name, "--seed", str(seed * 1000 + k), "--per", str(PER[tier]), "--known", kf, "--out", jf, "--trace", tf]
        p = finish(cmd, 200 if tier == "quick" else 3600)
        if p is None or p.returncode < 0:
            # it hangs or was ended by a signal: once more on one thread, recording what is executed
            how, trace = stuck(cmd, ws + "/journal.txt", 60)
            if how:
                names = re.search(r"^schemas (.*)$", trace, re.M)[1].split()
                what = f"process: {how} in step {trace.count(chr(10) + 'step ')}"
                viol = save(name, seed, dict(kind="process", property=name, corpus=m, profile=profile, shards=sorted({re.match(r"[A-Z](\d+)x", n)[1] for n in names}), schemas=names, source=source(gens, names), message=what, trace=trace.splitlines() + ["fails " + what]))
                break
            print(f"harness: the simulator ended with {p and p.returncode}, which did not happen again", file=sys.stderr)
            sys.exit(2)
        if p.returncode not in (0, 1) or not os.path.exists(jf):
            print(p.stdout + p.stderr, file=sys.stderr)
            print(f"harness: the simulator ended with {p.returncode}", file=sys.stderr)
            sys.exit(2)
        r = json.load(open(jf))
        parts.append(r)
        for x in r["known"]:
            seen_known[x.split(": ")[0]] = x
        if p.returncode == 1:
            trace = open(tf).read()
            names = re.search(r"^schemas (.*)$", trace, re.M)[1].split()
            what = re.search(r"^fails (.*)$", trace, re.M)[1]
            key = re.search(r"^key (.*)$", p.stdout, re.M)[1]
            viol = save(name, seed, dict(kind="trace", property=name, key=key, corpus=m, profile=profile, shards=sorted({re.match(r"[A-Z](\d+)x", n)[1] for n in names}), schemas=names, source=source(gens, names), message=what, trace=trace.splitlines()))
            break
        k += 1
        if k >= most or time.time() - t0 > limit:
            break
    wall = time.time() - t0
    if parts:
        evidence(name, tier, seed, parts, wall, viol, t0)
    else:
        put_evidence(name, dict(property=name, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=1, coverage=dict(evaluations=0, distinct_nontrivial=0, rule=RULES[name], samples=[what])))
    for x in seen_known.values():
        print(f"KNOWN-FINDING: property={name} {x}")
    if viol:
        print(what)
        print(f"VIOLATION property={name} replay={viol}")
        return 1
    a = sum(p["runs"] for p in parts)
    print(f"{name}: {a} runs, {sum(p['steps'] for p in parts)} steps, {sum(p['schemas'] for p in parts)} definitions, no violation ({wall:.0f} s)")
    return 0


def add(parts, f):
    o = {}
    for p in parts:
        for k, v in p[f].items():
            o[k] = o.get(k, 0) + v
    return o


def evidence(name, tier, seed, parts, wall, viol, t0):
    def s(f):
        return sum(p[f] for p in parts)

    sim = s("wall")
    cov = dict(
        evaluations=s("runs"),
        distinct_nontrivial=s("nontrivial"),
        rule=RULES[name] + " Distinct: the whole history (definition, steps with their arguments, state digests) differs from that of every other run.",
        samples=[x for p in parts for x in p["samples"]][:3],
        corpora=len(parts),
        definitions=s("schemas"),
        definition_features_by_runs=add(parts, "features"),
        simulated_steps=s("steps"),
        simulated_time_units=s("sim_time"),
        runs_per_hour_simulating=int(s("runs") / max(sim, 1e-3) * 3600),
        runs_per_hour_with_builds=int(s("runs") / max(wall, 1e-3) * 3600),
        one_seed_is_one_run="run i of batch seed S is the PRNG stream (S, check, i)",
        operations=add(parts, "ops"),
        faults_injected=add(parts, "faults"),
        rare_conditions=add(parts, "probes"),
        distinct_histories=s("histories"),
        distinct_schedules=s("schedules"),
        schedule_measure="sequence of (step kind, actor or target)",
        distinct_states=s("states"),
        state_measure="digest of the observable state (buffers, queues, models) after each step",
        runs_executed_twice_with_equal_histories=s("redone"),
        history_digest="".join(p["digest"] for p in parts[:4]),
        real_components=REAL,
        stub_components=STUB,
    )
    put_evidence(
        name,
        dict(
            property=name,
            tier=tier,
            seed=seed,
            level="exploration",
            coverage=cov,
            assumptions=["sampled: definitions come from the generator's language (DESIGN.md), runs from the seeded scheduler", "the layout reference states the documented layout"],
            wall_s=round(wall, 2),
            violations=int(bool(viol)),
        ),
    )


def put_evidence(name, e):
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(e, open(f"{HERE}/evidence/{name}.json", "w"), indent=1)


def replay(path):
    r = json.load(open(path))
    try:
        binary, _ = make("replay", r["corpus"], only=set(r["shards"]), profile=r.get("profile", "dev"))
    except Compile as e:
        print(e.text)
        print(f"replayed: definition {e.schema} does not compile")
        return 1
    if r["kind"] == "compile":
        print("replayed: the definition compiles")
        return 0
    t = f"{build.BUILD}/ws-replay/trace.txt"
    open(t, "w").write("\n".join(r["trace"]) + "\n")
    p = finish([binary, "replay", t], 60)
    if p is None or p.returncode < 0:
        print("replayed: " + ("no end within 60 s" if p is None else f"ended by signal {-p.returncode}"))
        return 1
    print(p.stdout + p.stderr, end="")
    return p.returncode


def setup():
    """a small corpus end to end: the toolchain, the cached crates and /repo build here"""
    m = mix("C01", 1)
    m["count"] = 2
    binary, _ = make("setup", m)
    p = subprocess.run([binary, "C01", "--seed", "1", "--per", "5", "--out", f"{build.BUILD}/ws-setup/out.json", "--trace", f"{build.BUILD}/ws-setup/trace.txt"])
    print("setup: simulator builds and runs")
    return 0 if p.returncode in (0, 1) else 2


if __name__ == "__main__":
    if sys.argv[1] == "setup":
        sys.exit(setup())
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(check(sys.argv[1]))
