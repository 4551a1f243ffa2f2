#!/usr/bin/env python3
"""Decides one property of justjson by symbolic execution of its real code.

usage: check.py PROPERTY [quick|thorough]     run the check
       check.py --replay FILE                 replay one recorded counterexample
       check.py --setup                       build everything once

See DESIGN.md.  Exit 0: held on everything explored.  Exit 1: VIOLATION line.
Exit 2: no answer.
"""
import json, os, random, re, resource, signal, subprocess, sys, tempfile, threading, time
import props

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")
HARNESS = os.path.join(HERE, "harness")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
# seconds of exploration after which what is left counts as unexplored
BUDGET = {"quick": 330, "thorough": 2700}
# ... for the second pass, over the code compiled as users ship it
BUDGET2 = {"quick": 120, "thorough": 900}
NCPU = os.cpu_count() or 4
T0 = time.time()


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTDOC")) or k == "CARGO_HOME"}
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


class NoAnswer(Exception):
    pass


class Job:
    """A command running in the background."""

    def __init__(self, name, cmd, cwd=HERE):
        self.name, self.t = name, time.time()
        self.log = tempfile.TemporaryFile()
        self.p = subprocess.Popen(cmd, cwd=cwd, env=env(), stdin=subprocess.DEVNULL, stdout=self.log, stderr=subprocess.STDOUT)

    def wait(self, timeout=600):
        try:
            rc = self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise NoAnswer(f"{self.name}: no end after {timeout} s")
        self.secs = time.time() - self.t
        if rc != 0:
            self.log.seek(0)
            tail = self.log.read().decode("utf-8", "replace")[-3000:]
            raise NoAnswer(f"{self.name} failed ({rc}):\n{tail}")


def build_engine():
    return Job("engine build", ["cargo", "build", "--release", "--offline", "--target-dir", f"{BUILD}/engine"], f"{HERE}/engine")


def build_ir(feat, profile="release"):
    f = ["--features", "feat"] if feat else []
    return Job(f"harness IR build ({profile})", ["cargo", "rustc", "--offline", "--profile", profile, "--lib", "--crate-type", "staticlib", *f,
               "--target-dir", f"{BUILD}/ir" + ("-feat" if feat else ""),
               "--", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "--emit=llvm-ir,link"], HARNESS)


def build_replay(profile, feat):
    f = "native,feat" if feat else "native"
    return Job(f"replay build ({profile})", ["cargo", "build", "--offline", "--profile", profile, "--bin", "replay", "--features", f,
               "--target-dir", f"{BUILD}/native" + ("-feat" if feat else "") + f"-{profile}"], HARNESS)


def ir_path(feat, profile="release"):
    d = f"{BUILD}/ir{'-feat' if feat else ''}/{profile}/deps"
    c = [os.path.join(d, f) for f in os.listdir(d) if f.startswith("jjh-") and f.endswith(".ll")]
    if not c:
        raise NoAnswer("no IR was written")
    return max(c, key=os.path.getmtime)


def replay_bin(profile, feat):
    return f"{BUILD}/native{'-feat' if feat else ''}-{profile}/{'debug' if profile == 'dev' else profile}/replay"


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def model_args(m):
    params = ",".join(m["params"]) or "-"
    return [m["entry"], params, m["choices"] or "-", m["bytes"] or "-"]


def replay(m, profile, feat, timeout=60):
    """Runs the real code on one model.  -> (reproduced, outcome, obs)"""
    try:
        r = subprocess.run([replay_bin(profile, feat), *model_args(m)], stdin=subprocess.DEVNULL, capture_output=True,
                           timeout=timeout, preexec_fn=limits, env=env())
    except subprocess.TimeoutExpired:
        return True, f"no end after {timeout} s", None
    out = r.stdout.decode("utf-8", "replace")
    g = re.search(r"outcome=([^\t\n]*)\tobs=(.*)", out)
    if not g or r.returncode != 0:
        why = f"ended by signal {-r.returncode}" if r.returncode < 0 else f"exit {r.returncode}"
        return True, f"{why}: {r.stderr.decode('utf-8', 'replace').strip()[-300:]}", None
    o = g.group(1)
    return o.startswith(("fail:", "panic:")), o, g.group(2)


def replay_many(ms, profile, feat):
    """-> list of (outcome, obs); None where the process did not survive."""
    if not ms:
        return []
    with tempfile.NamedTemporaryFile("w", suffix=".models") as f:
        for m in ms:
            f.write(" ".join(model_args(m)) + "\n")
        f.flush()
        try:
            r = subprocess.run([replay_bin(profile, feat), f.name], stdin=subprocess.DEVNULL, capture_output=True, timeout=120,
                               preexec_fn=limits, env=env())
            got = [re.match(r"outcome=([^\t]*)\tobs=(.*)", l).groups() for l in r.stdout.decode("utf-8", "replace").splitlines()]
        except (subprocess.TimeoutExpired, AttributeError):
            got = []
    if len(got) != len(ms):
        # one of them ends the process: one at a time
        got = []
        for m in ms:
            rep, o, obs = replay(m, profile, feat)
            got.append((("fail:" if rep and not o.startswith(("fail:", "panic:")) else "") + o, obs))
    return got


def model(f, jobs):
    name, kind, msg = f[1], f[2], f[3]
    kv = dict(x.split("=", 1) for x in f[4:] if "=" in x)
    j = jobs[name].split()
    return {"job": jobs[name], "entry": j[0], "params": j[1:], "kind": kind, "msg": msg,
            "choices": kv.get("choices", ""), "bytes": kv.get("bytes", ""), "obs": kv.get("obs", ""), "stack": kv.get("stack", "")}


def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True, timeout=30).stdout.split("\n")
    except (OSError, subprocess.TimeoutExpired):
        r = names
    return sorted({re.sub(r"\[[0-9a-f]{8,}\]", "", n) for n in r if n})


def known_findings(pid):
    """harness ids of the defects recorded as known for this property"""
    r = {}
    for l in open(f"{HERE}/known-findings.txt"):
        g = re.match(r"known: property=(\w+) id=(\d+) (.*)", l)
        if g and g.group(1) == pid:
            r[int(g.group(2))] = g.group(3).strip()
    return r


def cross_check(d, n, seed):
    """Other solvers on a selection of the queries z3 answered unsat."""
    fs = sorted(os.listdir(d))
    random.Random(seed).shuffle(fs)
    res = {"queries": 0, "agree": 0, "unknown": 0}
    bad = []
    for f in fs[:n]:
        p = os.path.join(d, f)
        res["queries"] += 1
        for cmd in (["cvc5", "--tlimit=10000", p], ["z3-new", "-T:10", p]):
            try:
                o = subprocess.run(cmd, capture_output=True, text=True, timeout=20).stdout
            except (subprocess.TimeoutExpired, OSError):
                o = ""
            v = o.split()[0] if o.split() else ""
            if v == "unsat":
                res["agree"] += 1
            elif v == "sat":
                bad.append(p)
            else:
                res["unknown"] += 1
    return res, bad


def summarise(m):
    b = bytes.fromhex(m["bytes"]) if m["bytes"] else b""
    return {"harness": m["entry"], "params": ",".join(m["params"]), "choices": m["choices"], "symbolic_bytes": m["bytes"],
            "as_text": b.decode("utf-8", "backslashreplace"), "observed": m["obs"][:200]}


def run(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    quick, more = props.PROPS[pid]
    lines = list(dict.fromkeys(quick if tier == "quick" else quick + more))
    feat = any(l.startswith("c22_") for l in lines)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    b = [build_engine(), build_ir(feat), build_ir(feat, "shipped")]
    native = [build_replay("dev", feat), build_replay("user", feat)]
    try:
        for j in b:
            j.wait()
        jobs = {f"j{i}": l for i, l in enumerate(lines)}
        jobs.update({f"s{i}": l for i, l in enumerate(shipped_jobs(lines))})
        with tempfile.TemporaryDirectory(prefix="symx.") as tmp:
            return explore(pid, tier, seed, jobs, feat, native, tmp)
    finally:
        for j in native:
            if j.p.poll() is None:
                j.p.kill()
                j.p.wait()


def explore(pid, tier, seed, jobs, feat, native, tmp):
    os.mkdir(f"{tmp}/q")
    total = float(os.environ.get("VERIF_BUDGET", BUDGET[tier]))
    t = time.time()
    out = []
    for kind, profile, budget in (("j", "release", total), ("s", "shipped", min(total, BUDGET2[tier]))):
        with open(f"{tmp}/jobs", "w") as f:
            f.writelines(f"{n} {l}\n" for n, l in jobs.items() if n[0] == kind)
        cmd = [f"{BUILD}/engine/release/symx", ir_path(feat, profile), f"{tmp}/jobs", f"{tmp}/out", f"workers={NCPU}", f"budget={budget}",
               "steps=200000000", f"seed={seed}", "maxviol=3"]
        if kind == "j":
            cmd.append(f"dump={tmp}/q,4,{37 if tier == 'quick' else 11}")
        try:
            r = subprocess.run(cmd, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=budget + 150)
        except subprocess.TimeoutExpired:
            subprocess.run(["pkill", "-9", "-f", f"{tmp}/jobs"])
            raise NoAnswer("the engine did not end in time")
        if r.returncode != 0:
            raise NoAnswer(f"engine exit {r.returncode}: {r.stderr[-2000:]}")
        out += open(f"{tmp}/out", errors="replace").read().split("\n")
        if any(l.startswith("viol\t") for l in out):
            break
    explored_s = time.time() - t
    for j in native:
        j.wait()

    stat, covers, known, fns = {n: {} for n in jobs}, {n: set() for n in jobs}, {}, set()
    viol, err, samples, knowns = [], [], [], []
    solver = {}
    for l in out:
        f = l.split("\t")
        if f[0] == "job":
            d = stat[f[1]]
            for x in f[2:]:
                k, v = x.split("=")
                d[k] = max(d.get(k, 0), int(v)) if k.startswith("max") else d.get(k, 0) + int(v)
        elif f[0] == "cover":
            covers[f[1]].add(int(f[2]))
        elif f[0] == "knowncount":
            known[int(f[2])] = known.get(int(f[2]), 0) + int(f[3])
        elif f[0] in ("viol", "err", "sample", "known"):
            {"viol": viol, "err": err, "sample": samples, "known": knowns}[f[0]].append(model(f, jobs))
        elif f[0] == "fn":
            fns.add(f[1])
        elif f[0] == "solver":
            for x in f[2:]:
                k, v = x.split("=")
                solver[k] = solver.get(k, 0) + int(v)
    tot = {k: sum(d.get(k, 0) for d in stat.values()) for k in ("paths", "pruned", "forks", "steps", "branches", "viols", "errors", "incomplete")}
    listed = known_findings(pid)
    # a defect is only known where the file says so
    viol += [m for m in knowns if int(m["msg"] or m["kind"]) not in listed] if knowns else []

    notes, confirmed, ghosts = [], [], []
    # 1. counterexamples, on the real code
    seen = {}
    for m in viol:
        key = (m["entry"], m["kind"], m["msg"], m["stack"].split(" < ")[0])
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > 3 or len(confirmed) >= 5:
            continue
        ok = False
        for prof in ("dev", "user"):
            rep, o, _ = replay(m, prof, feat)
            m.setdefault("replays", {})[prof] = o
            ok |= rep or (m["kind"] not in ("check", "panic", "hang") and False)
        (confirmed if ok else ghosts).append(m)
    # a path which only took long is unexplored, no counterexample
    slow = [m for m in ghosts if m["kind"] == "hang"]
    ghosts = [m for m in ghosts if m["kind"] != "hang"]
    tot["incomplete"] += len(slow)

    # 2. paths the engine found fine, on the real code: same outcome, same observations
    traces, mismatches = 0, []
    if not confirmed:
        random.Random(seed).shuffle(samples)
        use = samples[: (160 if tier == "quick" else 600)]
        for prof in ("dev", "user"):
            for m, (o, obs) in zip(use, replay_many(use, prof, feat)):
                if o.startswith(("fail:", "panic:")):
                    m.setdefault("replays", {})[prof] = o
                    confirmed.append(m)
                elif o != "ok" or obs != m["obs"]:
                    mismatches.append((prof, m, o, obs))
                else:
                    traces += 1
        for m in knowns:
            if int(m["msg"] or m["kind"]) in listed:
                _, o, _ = replay(m, "dev", feat)
                if not o.startswith("known:"):
                    mismatches.append(("dev", m, o, None))

    # 3. the assertions were reached
    expected = json.load(open(f"{HERE}/covers.json")) if os.path.exists(f"{HERE}/covers.json") else {}
    missing = []
    for n, l in jobs.items():
        miss = set(expected.get(l, [])) - covers[n]
        if stat[n] and miss and stat[n].get("incomplete", 0) + stat[n].get("errors", 0) == 0:
            missing.append(f"{l}: witness {sorted(miss)} not reached")
    xs, bad = cross_check(f"{tmp}/q", 6 if tier == "quick" else 150, seed)

    exhaustive = tot["errors"] == 0 and tot["incomplete"] == 0 and tot["viols"] == 0 and not missing
    fl = [x for x in fns if "justjson" in x]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["forks"] + len(jobs),
            "transitions": solver.get("instrs", tot["steps"]),
            "traces_validated_against_impl": traces,
            "samples": [summarise(m) for m in samples[:8]],
            "exhaustive": exhaustive,
            "paths_decided": tot["paths"],
            "paths_infeasible_or_assumed_away": tot["pruned"],
            "symbolic_branches": tot["branches"],
            "queries_z3": {"unsat": solver.get("z3_unsat", 0), "sat": solver.get("z3_sat", 0),
                           "answered_from_cache": solver.get("cache_hits", 0), "answered_by_a_known_model": solver.get("model_hits", 0)},
            "solver_s": round(solver.get("z3_ms", 0) / 1000, 2),
            "second_solvers": xs,
            "engine_errors": tot["errors"], "unexplored_states": tot["incomplete"],
            "bounds": list(dict.fromkeys(props.describe(l) for l in jobs.values())),
            "per_harness_job": {l + (" (shipped profile)" if n[0] == "s" else ""): {"paths": stat[n].get("paths", 0), "witnesses": sorted(covers[n]), "symbolic_bytes": stat[n].get("maxvars", 0),
                                    "longest_path_instructions": stat[n].get("maxsteps", 0)} for n, l in jobs.items()},
            "functions_encoded": demangle(fl),
            "functions_encoded_count": len(fl), "library_functions_executed": len(fns) - len(fl),
            "known_finding_paths": known, "exploration_s": round(explored_s, 1),
            "witnesses_missing": missing,
        },
        "assumptions": props.ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 1),
        "violations": len(confirmed),
    }
    with open(f"{EVID}/{pid}.json.tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(f"{EVID}/{pid}.json.tmp", f"{EVID}/{pid}.json")
    if os.environ.get("VERIF_LEARN"):
        learn(jobs, covers, stat)

    print(f"{pid} {tier}: {tot['paths']} paths, {solver.get('instrs', 0)} instructions, z3 {solver.get('z3_unsat', 0)} unsat {solver.get('z3_sat', 0)} sat, "
          f"{explored_s:.1f} s exploring, {traces} paths replayed, errors {tot['errors']}, unexplored {tot['incomplete']}")
    for k, n in known.items():
        if k in listed:
            print(f"KNOWN-FINDING: property={pid} {listed[k]} ({n} paths)")
    for m in err[:5]:
        print(f"note: not executable: {m['msg'][:200]} [{m['job']}]")
    if confirmed:
        for i, m in enumerate(confirmed[:5]):
            p = f"{EVID}/{pid}-replay-{i}.json"
            m["property"], m["feat"] = pid, feat
            m["how"] = f"python3 {HERE}/check.py --replay {p}"
            with open(p, "w") as f:
                json.dump(m, f, indent=1)
            print(f"  {m['kind']} {m['msg'][:160]} in {m['job']}; bytes {m['bytes']} choices {m['choices']}; real code: {m.get('replays')}")
            print(f"VIOLATION property={pid} replay={p}")
        return 1
    if ghosts:
        for m in ghosts[:3]:
            print(f"not reproduced: {m['kind']} {m['msg'][:200]} in {m['job']} bytes {m['bytes']} choices {m['choices']} {m.get('replays')} stack {m['stack'][:300]}")
        return 2
    if mismatches:
        for prof, m, o, obs in mismatches[:3]:
            print(f"engine and real code ({prof}) disagree: {m['job']} bytes {m['bytes']} choices {m['choices']}: {o} {obs} instead of {m['obs']}")
        return 2
    if bad:
        print("solvers disagree:", bad[:3])
        return 2
    if missing:
        print("\n".join(missing[:5]))
        return 2
    if not exhaustive:
        print(f"INCOMPLETE: {tot['errors']} paths not executable, {tot['incomplete']} states unexplored; the rest holds")
    return 0


def shipped_jobs(lines):
    """The jobs repeated on the IR without debug assertions and overflow checks:
    the cheapest of each entry, then as many as fit in a third of the work."""
    p = f"{HERE}/costs.json"
    cost = json.load(open(p)) if os.path.exists(p) else {}
    order = sorted(lines, key=lambda l: (cost.get(l, 1000), l))
    left = sum(cost.get(l, 1000) for l in lines) / 3
    seen, r = set(), []
    for l in order:
        e = l.split()[0]
        if e not in seen or cost.get(l, 1000) <= left:
            seen.add(e)
            r.append(l)
            left -= cost.get(l, 1000)
    return r


def learn(jobs, covers, stat):
    p = f"{HERE}/covers.json"
    d = json.load(open(p)) if os.path.exists(p) else {}
    q = f"{HERE}/costs.json"
    c = json.load(open(q)) if os.path.exists(q) else {}
    for n, l in jobs.items():
        if n[0] == "j" and stat[n].get("paths", 0) > 0:
            d[l] = sorted(covers[n])
            # millions of instructions, roughly
            c[l] = 1 << max(0, stat[n].get("steps", 0) // 1000000).bit_length()
    for path, x in ((p, d), (q, c)):
        with open(path, "w") as f:
            json.dump(dict(sorted(x.items())), f, indent=0)
            f.write("\n")


def main():
    os.chdir(HERE)
    a = sys.argv[1:]
    try:
        if a[0] == "--setup":
            for j in [build_engine(), build_ir(False), build_ir(False, "shipped"), build_replay("dev", False)]:
                j.wait()
            print("built")
            return 0
        if a[0] == "--replay":
            m = json.load(open(a[1]))
            js = [build_replay(p, m["feat"]) for p in ("dev", "user")]
            for j in js:
                j.wait()
            hit = False
            for p in ("dev", "user"):
                rep, o, _ = replay(m, p, m["feat"])
                print(f"{p}: {o}")
                hit |= rep
            if hit:
                print(f"VIOLATION property={m['property']} replay={a[1]}")
            return 1 if hit else 0
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return run(a[0], "thorough" if tier == "thorough" else "quick")
    except NoAnswer as e:
        print(f"no answer: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
