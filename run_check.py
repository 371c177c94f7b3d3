#!/usr/bin/env python3
"""Runs the check of one property: run_check.py C01.

Builds the harness against /repo's working tree, checks the design models with TLC, records
histories of the real code and has TLC validate them against the specification.
Environment: VERIF_SEED, VERIF_TIER (quick | thorough).
"""
import bisect
import collections
import hashlib
import json
import multiprocessing
import multiprocessing.pool
import os
import re
import resource
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import cases  # noqa: E402
import plan  # noqa: E402

BUILD = os.path.join(HERE, ".build")
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    pass


# ------------------------------------------------------------------ building
def cargo_env():
    env = dict(os.environ)
    try:
        out = subprocess.run(
            ["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, env=env
        ).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                env[k.decode()] = v.decode()
    except OSError:
        pass
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


FLAGS = {
    "plain": "",
    "small": "--cfg generic_btree_verif",
    "gap": "--cfg generic_btree_verif_gap",
    "smallgap": "--cfg generic_btree_verif --cfg generic_btree_verif_gap",
}


def build(variant):
    """Returns the binary, or None and the compiler's output."""
    env = cargo_env()
    target = os.path.join(BUILD, variant)
    env["CARGO_TARGET_DIR"] = target
    env["RUSTFLAGS"] = "-Awarnings " + FLAGS[variant]
    p = subprocess.run(
        ["cargo", "build", "--release", "--offline", "-q"],
        cwd=os.path.join(HERE, "harness"),
        env=env,
        capture_output=True,
        text=True,
    )
    exe = os.path.join(target, "release", "gbtv")
    if p.returncode != 0 or not os.path.exists(exe):
        return None, p.stderr[-3000:]
    return exe, ""


def build_all(variants):
    """Variants that do not build (the code a hook refers to was moved) fall back to plain."""
    with multiprocessing.pool.ThreadPool(len(variants)) as pool:
        res = dict(zip(variants, pool.map(build, variants)))
    if res.get("plain", (1, 0))[0] is None:
        raise ToolError("the harness does not build against /repo:\n" + res["plain"][1])
    return {v: r[0] for v, r in res.items() if r[0]}


# ------------------------------------------------------------------ TLC
def tlc(module, cfg, env_extra, meta, heap="3g", workers="1", timeout=1500, extra=()):
    env = dict(os.environ)
    env.update(env_extra)
    env.pop("JAVA_TOOL_OPTIONS", None)
    os.makedirs(meta, exist_ok=True)
    gc = "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC"
    cmd = ["java", "-Xmx" + heap, "-Xss64m", gc, "-cp", CP, "-Djava.io.tmpdir=" + meta, "tlc2.TLC",
           "-workers", workers, "-metadir", meta, "-nowarning", "-noGenerateSpecTE",
           "-config", cfg, *extra, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=env, capture_output=True, text=True,
                           errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC took too long on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.stdout + p.stderr, p.returncode


REJECT = re.compile(r'<<"REJECT", (\d+), "(\w+)", "(\w+)">>')
STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")

SIMULATED = re.compile(r"The number of states generated: (\d+)")


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (list, tuple)):
        return "{%s}" % ", ".join(tla(x) for x in v)
    return '"%s"' % v if isinstance(v, str) else str(v)


def run_model(model, scratch, exes, seed, submit):
    """Checks a design model with TLC; what it emits is handed to the real code."""
    t = time.time()
    name = model["name"]
    cfg = os.path.join(scratch, name + ".cfg")
    with open(cfg, "w") as f:
        f.write(model["cfg"])
        if model.get("consts"):
            f.write("CONSTANTS\n" + "".join(
                "    %s = %s\n" % (k, tla(v)) for k, v in model["consts"].items()))
    out, rc = tlc(model["module"] + ".tla", cfg, {}, os.path.join(scratch, "m-" + name), heap="8g",
                  workers=str(model.get("workers", 4)), timeout=model.get("timeout", 700),
                  extra=model.get("extra", ()))
    m = STATES.findall(out) or [2 * (x,) for x in SIMULATED.findall(out)]
    ok = rc == 0 and ("No error has been found" in out
                      or "-simulate" in model.get("extra", ()) and m != [] and "Error:" not in out)
    res = {"name": name, "module": model["module"],
           "constants": {k: tla(v) for k, v in model.get("consts", {}).items()}, "ok": ok,
           "states": int(m[-1][1]) if m else 0, "transitions": int(m[-1][0]) if m else 0,
           "wall": round(time.time() - t, 1), "out": "" if ok else out[-4000:], "replays": []}
    if not ok or not model.get("replays"):
        return res
    trans = cases.READ[model["read"]](out)
    for n, r in enumerate(model["replays"]):
        path = os.path.join(scratch, "%s-%d.cases" % (name, n))
        made = cases.WRITE[r["write"]](trans, path, r.get("ops"), r["most"], seed)
        v = r["variant"] if r["variant"] in exes else "plain"
        parts = max(1, min(CORES, made["cost"] // 600))
        args = [r["harness"], "--cases", path] + r["args"]
        futures = [submit((exes[v], v, r["family"], args + ["--part", str(k), "--parts", str(parts)],
                           r["spec"], scratch, "%s-%d-%d" % (name, n, k), False))
                   for k in range(parts)]
        res["replays"].append((made, futures))
    return res


def validate(spec, trace, scratch, name, const):
    """All (line, op, clause) of the trace that the specification does not allow."""
    rejects, states = [], 0
    offset = 0
    path = trace
    for attempt in range(25):
        env = {"TRACE": path}
        out, rc = tlc(spec + ".tla", spec + ".cfg", env, os.path.join(scratch, "t-" + name))
        rejects += [(int(a) + offset, b, c) for a, b, c in REJECT.findall(out)]
        m = STATES.findall(out)
        states += int(m[-1][1]) if m else 0
        if rc == 0 and "No error has been found" in out:
            return rejects, states
        # the specification has no answer for a line: the state it was reached in is nonsense
        at = re.findall(r"^/\\ i = (\d+)", out, re.M)
        if not at or "Error:" not in out or "OutOfMemory" in out:
            raise ToolError("TLC failed on %s:\n%s" % (name, out[-3000:]))
        line = int(at[-1])
        with open(path) as f:
            lines = f.readlines()
        if line > len(lines):
            raise ToolError("TLC failed at the end of %s:\n%s" % (name, out[-3000:]))
        op = json.loads(lines[line - 1]).get("op", "q")
        why = [l for l in out.splitlines() if l.startswith("Error:")][:2]
        rejects.append((line + offset, op, "undefined " + " ".join(why)[:200]))
        nxt = line
        while nxt < len(lines) and '"op":"reset"' not in lines[nxt]:
            nxt += 1
        if nxt >= len(lines):
            return rejects, states
        offset += nxt
        path = os.path.join(scratch, name + ".rest")
        with open(path, "w") as f:
            f.writelines(lines[nxt:])
    return rejects, states


# ------------------------------------------------------------------ one shard
def limits(gigabytes=2):
    resource.setrlimit(resource.RLIMIT_AS, (gigabytes << 30, gigabytes << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def record(exe, args, trace, sync=False):
    cmd = [exe] + args + ["--out", trace] + (["--sync"] if sync else [])
    env = dict(os.environ)
    env["RUST_BACKTRACE"] = "0"
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=env,
                           preexec_fn=lambda: limits(7 if args[0] == "scale" else 2), timeout=1200)
        return p.returncode, p.stderr[-400:], p.stdout
    except subprocess.TimeoutExpired:
        return -999, "the harness did not finish", ""


DEPTH = re.compile(r'"d":(\d+),"nl"')
OPRE = re.compile(r'"op":"(\w+)"')


def run_shard(job):
    exe, variant, family, args, spec, scratch, name, keep = job
    trace = os.path.join(scratch, name + ".nd")
    rc, err, said = record(exe, args, trace)
    crashed = None
    if rc not in (0, 7):
        # a crash that is no panic (abort, stack overflow, out of memory): repeat, noting every call
        record(exe, args, trace, sync=True)
        pend = ""
        try:
            pend = open(trace + ".pending").read()
        except OSError:
            pass
        if not pend:
            return {"error": "the harness failed (%s): %s" % (rc, err), "name": name}
        with open(trace, "rb+") as f:      # drop an incomplete last line
            data = f.read()
            cut = data.rfind(b"\n") + 1
            f.truncate(cut)
        with open(trace, "a") as f:
            f.write("{%s,\"pn\":\"crash: exit %s %s\"}\n" % (pend, rc, re.sub(r'[^\w .:,-]', ' ', err)[:200]))
        crashed = rc
    ops = collections.Counter()
    feats = collections.Counter()
    heights = collections.Counter()
    episodes = 0
    lines = 0
    n_rejected = 0
    try:
        with open(trace) as f:
            for l in f:
                lines += 1
                m = OPRE.search(l)
                op = m.group(1) if m else "?"
                ops[op] += 1
                if op == "reset":
                    episodes += 1
                if family == "tree" and op not in ("reset", "q"):
                    k = l.find('"lv":')
                    if k >= 0:
                        h = l.count("]],[[", k, l.find('"rc":', k)) + 1
                        heights[h] += 1
                elif family == "scale":
                    m = DEPTH.search(l)
                    if m:
                        heights[int(m.group(1))] += 1
        rej, states = validate(spec, trace, scratch, name, {}) if lines else ([], 0)
    except ToolError as e:
        return {"error": str(e), "name": name}
    finds = []
    if rej:
        with open(trace) as f:
            data = f.readlines()
        for line, op, clause in rej:
            if len(finds) >= 4000:
                break
            ev = data[line - 1]
            at = re.search(r'"at":"(\w+)', ev)
            pn = re.search(r'"pn":"([^"]*)', ev)
            finds.append({"line": line, "op": op, "clause": clause, "cause": "",
                          "at": at.group(1) if at else "", "pn": pn.group(1) if pn else ""})
        causes(finds, data)
    res = {"name": name, "variant": variant, "family": family, "args": args, "spec": spec,
           "lines": lines, "states": states, "episodes": episodes, "ops": dict(ops),
           "heights": dict(heights), "finds": finds, "crashed": crashed, "trace": trace,
           "tally": json.loads(said) if said.startswith("{") else {}}
    if not finds and not keep:
        os.unlink(trace)
    return res


def causes(finds, data):
    """Which call first left the tree's structure broken, for what goes wrong later in that history."""
    starts = [k for k, l in enumerate(data, 1) if '"op":"reset"' in l]
    sums = {f["line"] for f in finds if f["clause"] in ("elementsum", "nodesum", "rootsum")}
    broken = {}
    for f in sorted(finds, key=lambda f: f["line"]):
        episode = bisect.bisect(starts, f["line"])
        first = broken.get(episode)
        if first and first[0] < f["line"]:
            f["cause"] = first[1]
        elif not first and f["clause"] in ("links", "check", "counts") and f["line"] not in sums:
            broken[episode] = (f["line"], f["op"])


def excerpt(trace, line):
    """The history that leads to a line: from the start of its episode."""
    hist = []
    with open(trace) as f:
        for k, l in enumerate(f, 1):
            if '"op":"reset"' in l:
                hist = []
            hist.append(l.rstrip("\n"))
            if k == line:
                break
    return hist


# ------------------------------------------------------------------ main
def known_findings():
    """Open findings: property, op, clause and a text the failing history must contain."""
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\w+) op=(\w+) clause=(\w+) match=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    conf = plan.PROPS[prop]
    scratch = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        return check(prop, tier, seed, start, conf, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, seed, start, conf, scratch):
    variants = sorted({j[0] for j in plan.jobs(prop, tier)} | {"plain"}
                      | {r["variant"] for m in plan.models(prop, tier, seed) for r in m.get("replays", [])})
    if "smallgap" in variants:
        variants = sorted(set(variants) | {"small"})
    exes = build_all(variants)
    built = time.time() - start

    # design models
    todo = plan.models(prop, tier, seed)
    jobs = []
    for n, (variant, family, args, spec) in enumerate(plan.jobs(prop, tier)):
        v = variant
        if v not in exes:
            v = "small" if variant == "smallgap" and "small" in exes else "plain"
            if family == "gap":
                continue
        s = int(hashlib.sha256(("%d/%s/%d" % (seed, prop, n)).encode()).hexdigest()[:12], 16)
        a = [x.replace("$SEED", str(s)) for x in args]
        jobs.append((exes[v], v, family, a, spec, scratch, "s%d" % n, False))
    with multiprocessing.Pool(CORES) as pool, multiprocessing.pool.ThreadPool(conf.get("models", 2)) as mp:
        submit = lambda job: pool.apply_async(run_shard, (job,))  # noqa: E731
        amodels = mp.map_async(lambda m: run_model(m, scratch, exes, seed, submit), todo, chunksize=1)
        ares = [submit(j) for j in jobs]
        models = amodels.get()
        shards = [a.get() for a in ares]
        for m in models:
            done = []
            for made, futures in m["replays"]:
                parts = [f.get() for f in futures]
                shards += parts
                tally = collections.Counter()
                for x in parts:
                    tally.update(x.get("tally", {}))
                made.pop("cost")
                done.append({**made, "replayed": dict(tally)})
            m["replays"] = done
    for m in models:
        if not m["ok"]:
            raise ToolError("the design model %s fails:\n%s" % (m["name"], m["out"]))
    errors = [s for s in shards if "error" in s]
    shards = [s for s in shards if "error" not in s]

    # judge
    mine, other = [], collections.Counter()
    for s in shards:
        for f in s["finds"]:
            props = plan.blame(s["family"], f, s)
            if prop in props:
                mine.append((s, f))
            else:
                other["%s/%s" % (f["op"], f["clause"].split()[0])] += 1
    known, fresh = [], []
    kf = known_findings()
    for s, f in mine:
        h = None
        hit = None
        for k in kf:
            if k[0] == prop and k[1] == f["op"] and k[2] == f["clause"].split()[0]:
                h = h or excerpt(s["trace"], f["line"])
                if re.search(k[3], h[-1]):
                    hit = k
        (known if hit else fresh).append((s, f, hit))
    for k in sorted({x[2] for x in known}):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[4]))

    # evidence
    ops = collections.Counter()
    heights = collections.Counter()
    for s in shards:
        ops.update(s["ops"])
        heights.update({int(k): v for k, v in s["heights"].items()})
    samples = []
    for s in shards[:3]:
        samples.append("%s %s: %d events, %d episodes accepted by %s"
                       % (s["variant"], " ".join(s["args"]), s["lines"], s["episodes"], s["spec"]))
    for m in models:
        samples.append("TLC %s %s: %d distinct states%s" % (
            m["module"], m["constants"], m["states"],
            "; replayed: %s" % m["replays"][0] if m["replays"] else ""))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(s["states"] for s in shards) + sum(m["states"] for m in models),
            "transitions": sum(s["lines"] for s in shards) + sum(m["transitions"] for m in models),
            "traces_validated_against_impl": sum(s["episodes"] for s in shards),
            "samples": samples,
            "events_by_operation": dict(ops),
            "states_by_tree_height": {str(k): v for k, v in sorted(heights.items())},
            "design_models": [{k: m[k] for k in ("module", "constants", "states", "transitions", "wall", "replays")}
                              for m in models],
            "shards": [{"variant": s["variant"], "args": s["args"], "events": s["lines"]} for s in shards],
            "clauses_of_other_properties_seen_violated": dict(other),
        },
        "assumptions": plan.ASSUMPTIONS,
        "wall_s": round(time.time() - start, 1),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if fresh:
        # the shortest history
        best = min(fresh[:300], key=lambda x: len(excerpt(x[0]["trace"], x[1]["line"])))
        s, f, _ = best
        out = os.path.join(HERE, "out", prop)
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, "replay-%d.json" % seed)
        with open(path, "w") as o:
            json.dump({"property": prop, "operation": f["op"], "clause": f["clause"], "failure": f["pn"],
                       "recorded_with": {"variant": s["variant"], "args": s["args"], "line": f["line"]},
                       "validated_against": s["spec"],
                       "history": [json.loads(x) for x in excerpt(s["trace"], f["line"])]}, o)
        print("%s: %s violates '%s' %s" % (prop, f["op"], f["clause"], f["pn"]))
        print("violations by clause: %s" % dict(collections.Counter(
            "%s/%s" % (x[1]["op"], x[1]["clause"].split()[0]) for x in fresh)))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        raise ToolError("; ".join(e["error"] for e in errors)[:4000])
    print("%s %s: %d events in %d histories accepted, %d models, %.0f s (build %.0f s)%s"
          % (prop, tier, ev["coverage"]["transitions"], ev["coverage"]["traces_validated_against_impl"],
             len(models), time.time() - start, built,
             "; other clauses violated: %s" % dict(other) if other else ""))
    return 0


if __name__ == "__main__":
    import multiprocessing.pool
    try:
        sys.exit(main())
    except ToolError as e:
        print("error: %s" % e, file=sys.stderr)
        sys.exit(2)
