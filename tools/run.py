#!/usr/bin/env python3
"""run.py check ID [quick|thorough]   decide one property: model check, execute, validate
   run.py setup                        build driver and Java interpretations
   run.py replay FILE                  re-execute the calls of a replay file and validate them again
   run.py fuzz ID N                    check with N times the generated script (development)"""
import sys, os, json, re, subprocess, shutil, time, hashlib, random, glob
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
OUT = os.path.join(VERIF, ".out")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8
HANG = 150          # seconds without a new trace line

class ToolError(Exception):
    pass

def log(*a):
    print(*a, flush=True)

def env():
    e = dict(os.environ)
    e.update(HOME="/root", PATH="/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", ""), RUSTUP_TOOLCHAIN="stable",
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTFLAGS="-Aunused_imports",
             CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    e.pop("JAVA_TOOL_OPTIONS", None)
    return e

# ------------------------------------------------------------------ building
def build():
    os.makedirs(BUILD, exist_ok=True)
    java = os.path.join(BUILD, "java")
    srcs = sorted(glob.glob(os.path.join(VERIF, "java/cesr/*.java")))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
    stamp = os.path.join(java, "stamp")
    if not (os.path.exists(stamp) and open(stamp).read() == h):
        shutil.rmtree(java, ignore_errors=True)
        os.makedirs(java)
        r = subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", java] + srcs, capture_output=True, text=True, env=env())
        if r.returncode:
            raise ToolError("javac: " + r.stderr[-3000:])
        open(stamp, "w").write(h)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "harness/Cargo.toml")],
                       capture_output=True, text=True, env=env(), cwd=os.path.join(VERIF, "harness"))
    if r.returncode:
        raise ToolError("cargo build: " + r.stderr[-4000:])
    return os.path.join(BUILD, "target/debug/driver")

# ----------------------------------------------------------------------- TLC
def tlc(work, spec, cfg, extra_env=None, workers=1, heap="2g", timeout=800, args=()):
    meta = os.path.join(work, "md")
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:cesr.Overrides",
           "-cp", os.path.join(BUILD, "java") + ":" + TLA, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg, *args, spec]
    e = env()
    e.update(extra_env or {})
    out = os.path.join(work, "out")
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out: {spec}")
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out

def counts(text):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", text)
    if not m:
        return 0, 0
    g, d, _ = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))

def model_check(work, name, module, cfg, menv, heap="4g", simulate=None):
    """exhaustive TLC run; returns (generated, distinct, script lines)"""
    d = os.path.join(work, "mc_" + name)
    os.makedirs(d, exist_ok=True)
    t = time.time()
    args = []
    if simulate:
        args = ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]), "-seed", str(simulate[2])]
    rc, out = tlc(d, module + ".tla", cfg + ".cfg", menv, workers=1 if simulate else JOBS, heap=heap, args=args)
    lines, rest = [], []
    for line in open(out):
        if line.startswith('"OP '):
            lines.append(json.loads(line)[3:])
        else:
            rest.append(line)
    text = "".join(rest)
    g, di = counts(text)
    if rc != 0 or "Error:" in text:
        raise ToolError(f"model {name}: TLC exit {rc}\n" + text[-3000:])
    if not simulate and (not re.search(r"Model checking completed. No error has been found", text) or g == 0):
        raise ToolError(f"model {name}: no completed run\n" + text[-3000:])
    if simulate:
        m = re.findall(r"Progress: ([\d,]+) states checked, ([\d,]+) traces generated", text) or re.findall(r"The number of states generated: ([\d,]+)()", text)
        g = int(m[-1][0].replace(",", "")) if m else 0
        di = 0
    log(f"  model {name}: {g} states generated, {di} distinct, {len(lines)} behaviours exported, {time.time()-t:.1f}s")
    os.remove(out)
    return g, di, lines

# -------------------------------------------------------------------- driver
def drive(driver, lines, base, total=False, threads=0):
    """execute script lines; a crash or a hang of the library becomes the outcome of the call"""
    script, trace = base + ".script", base + ".trace"
    done = []
    rest = lines
    part = 0
    while rest:
        s, t = f"{script}.{part}", f"{trace}.{part}"
        open(s, "w").write("\n".join(rest) + "\n")
        with open(base + ".err", "w") as ef:
            p = subprocess.Popen([driver, s, t], stdout=subprocess.DEVNULL, stderr=ef, env={**env(), **({"TOTAL": "1"} if total else {}), **({"THREADS": str(threads)} if threads else {})})
            last, since, hang = -1, time.time(), False
            while True:
                try:
                    p.wait(timeout=0.05 if time.time() - since < 2 else 2)
                    break
                except subprocess.TimeoutExpired:
                    n = os.path.getsize(t) if os.path.exists(t) else 0
                    if n != last:
                        last, since = n, time.time()
                    elif time.time() - since > HANG:
                        p.kill()
                        p.wait()
                        hang = True
                        break
        got = open(t, encoding="utf-8").read().split("\n") if os.path.exists(t) else []
        got = [g for g in got[:-1]] if got else []        # the last piece has no newline
        done += got
        if p.returncode == 0 and not hang:
            if len(got) < len(rest) * max(1, threads):
                raise ToolError("driver: trace is short")
            os.remove(s); os.remove(t)
            break
        if p.returncode == 3:
            raise ToolError("driver: " + open(base + ".err").read()[-2000:])
        if p.returncode in (-9, -15) and not hang:
            raise ToolError("driver killed by the system")
        if threads:
            # which call it was is not known
            return [json.dumps({**json.loads(rest[0]), "r": {"k": "hang" if hang else "abort"}})]
        bad = json.loads(rest[len(got)])
        bad["r"] = {"k": "hang" if hang else "abort"}
        done.append(json.dumps(bad))
        rest = rest[len(got) + 1:]
        part += 1
        os.remove(s); os.remove(t)
        if part > 40:
            break               # enough: the rest is not executed
    return done

def once(trace):
    """the different calls and outcomes in a trace of threads, and the round of each (its validity does not depend on it)"""
    at = {}
    for l in trace:
        d = json.loads(l)
        i = d.pop("round", None)
        at.setdefault(json.dumps(d, separators=(",", ":")), i)
    return at

# ---------------------------------------------------------------- validation
def validate(work, idx, lines, heap="2g", total=False):
    d = os.path.join(work, f"tv{idx}")
    os.makedirs(d, exist_ok=True)
    trace = os.path.join(d, "trace.ndjson")
    open(trace, "w").write("\n".join(lines) + "\n")
    rc, out = tlc(d, "Trace.tla", "Trace.cfg", {"TRACE": trace, **({"TOTAL": "1"} if total else {})}, heap=heap)
    rejects, text = [], []
    for line in open(out):
        if line.startswith('"REJECT '):
            _, n, x = json.loads(line).split(" ", 2)
            rejects.append((int(n) - 1, json.loads(x)))
        else:
            text.append(line)
    text = "".join(text)
    g, di = counts(text)
    if rc != 0 or "Error:" in text or di != len(lines) + 1:
        raise ToolError(f"trace validation failed to run (exit {rc}, {di} states for {len(lines)} calls)\n" + text[-3000:])
    shutil.rmtree(d)
    return g, di, rejects

# --------------------------------------------------------------------- check
def shards(lines, stateful, size, threads=0):
    if not lines:
        return []
    n = max(1, min(len(lines) // 500, JOBS))
    n = max(n, -(-len(lines) // size))
    if threads:
        rounds = [lines[i:i + threads] for i in range(0, len(lines), threads)]
        return [sum(rounds[i::n], []) for i in range(n)]
    if not stateful:
        # neighbours stay together: a call may bear on the next
        return [[l for b in range(i * 16, len(lines), n * 16) for l in lines[b:b + 16]] for i in range(n)]
    groups, cur = [], []
    for l in lines:
        if '"new":true' in l.replace(" ", "") and cur:
            groups.append(cur); cur = []
        cur.append(l)
    groups.append(cur)
    res = [[] for _ in range(min(n, len(groups)))]
    for i, g in enumerate(groups):
        res[i % len(res)] += g
    return res

def known():
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                m = re.match(r"finding: property=(\S+) (\{.*\}) :: (.*)", line.strip())
                res.append((m.group(1), json.loads(m.group(2)), m.group(3)))
    return res

def pretty(e):
    def f(v):
        if isinstance(v, list) and len(v) > 1 and all(isinstance(x, int) and 32 <= x < 127 for x in v):
            return "'" + bytes(v).decode() + "'"
        if isinstance(v, dict):
            return {k: f(x) for k, x in v.items()}
        if isinstance(v, list):
            return [f(x) for x in v]
        return v
    return f(e)

def check(pid, tier, mult=1):
    import checks
    from gen import mixed
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = checks.CHECKS[pid]
    work = os.path.join(OUT, f"{pid}_{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rdir = os.path.join(OUT, "replay", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    driver = build()
    log(f"{pid} {tier} seed={seed}: built in {time.time()-t0:.1f}s")
    states = trans = ntr = 0
    cover, models, samples, rejects = {}, {}, [], []
    rnd = random.Random(f"{pid}/{seed}")
    for src in spec.sources(tier):
        ts = time.time()
        if src.model:
            g, d, lines = model_check(work, src.name, src.model, src.cfg or src.model, src.env, heap=src.heap,
                                      simulate=src.simulate and (src.simulate[0], src.simulate[1], seed))
            states += d or g; trans += g
            models[src.name] = {"generated": g, "distinct": d, "exported": len(lines)}
            if src.sample and len(lines) > src.sample:
                lines = random.Random(f"s{src.name}{seed}").sample(sorted(lines), src.sample)
            if src.expand:
                lines = [json.dumps(x, separators=(",", ":")) for l in lines for x in src.expand(json.loads(l))]
            if src.dedup:
                lines = list(dict.fromkeys(lines))
        else:
            made = src.make(random.Random(f"{src.name}/{seed}"), src.n * mult)
            if not (src.stateful or src.total or src.threads or src.plain):
                made = mixed.related(random.Random(f"r{src.name}/{seed}"), made)
            lines = [json.dumps(x, separators=(",", ":"), ensure_ascii=True) for x in made]
        if src.model and not src.script:
            continue
        if not lines:
            raise ToolError(f"{src.name}: empty script")
        parts = shards(lines, src.stateful, src.shard, src.threads)
        with ThreadPoolExecutor(min(JOBS, src.jobs)) as ex:
            traces = list(ex.map(lambda p: drive(driver, p[1], os.path.join(work, f"{src.name}_{p[0]}"), src.total, src.threads), enumerate(parts)))
        td = time.time()
        rounds = [{}] * len(traces)
        if src.threads:
            made = sum(map(len, traces))
            rounds = [once(t) for t in traces]
            traces = [list(m) for m in rounds]
            log(f"  {src.name}: {made} calls and outcomes seen by {src.threads} threads, {sum(map(len, traces))} different")
        with ThreadPoolExecutor(min(JOBS, src.jobs)) as ex:
            res = list(ex.map(lambda p: validate(work, f"{src.name}_{p[0]}", p[1], src.theap, src.total), enumerate(traces)))
        n = 0
        for tr, at, part, (g, d, rej) in zip(traces, rounds, parts, res):
            states += d; trans += g; n += len(tr)
            for i, x in rej:
                rejects.append((json.loads(tr[i]), x, (tr, i, part, at), src))
            for line in tr:
                m = re.search(r'"op":"([^"]*)"', line)
                k = line.rfind('"r":{"k":"')
                e = m.group(1) + ":" + (line[k+10:k+12] if k >= 0 else "?")
                cover[e] = cover.get(e, 0) + 1
            if tr and len(samples) < 12:
                c = rnd.choice([t for t in tr[:500]])
                if len(c) < 3000:
                    samples.append(pretty(json.loads(c)))
        ntr += n
        log(f"  {src.name}: {n} calls executed ({td-ts:.1f}s) and validated ({time.time()-td:.1f}s), {sum(len(r[2]) for r in res)} rejected")
    # verdict
    kf = [(k, t) for p, k, t in known() if p == pid]
    hits, fresh = {}, []
    for e, x, led, src in rejects:
        for k, t in kf:
            if all(e.get(a) == b for a, b in k.items()):
                hits[t] = hits.get(t, 0) + 1
                break
        else:
            fresh.append((e, x, led, src))
    for k, t in kf:
        if t in hits:
            log(f"KNOWN-FINDING: property={pid} {t}")
    for n, (e, x, (tr, i, part, at), src) in enumerate(fresh[:20]):
        path = os.path.join(rdir, f"{n}.json")
        # what led to it: the session so far, or the rounds up to this one
        hist = [json.loads(h) for h in (tr[:i + 1] if src.stateful else part[:(at[tr[i]] + 1) * src.threads] if src.threads and at[tr[i]] is not None else [tr[i]])]
        if src.stateful:
            hist = hist[max([j for j, h in enumerate(hist) if h.get("new") is True] or [0]):]
        calls = [{k: v for k, v in h.items() if k != "r"} for h in hist]
        json.dump({"property": pid, "source": src.name, "total": src.total, "threads": src.threads if len(calls) > 1 else 0, "calls": calls, "observed": e["r"], "expected": x}, open(path, "w"))
        if n < 5:
            log("  rejected:", json.dumps(pretty({k: v for k, v in e.items() if k != "r"}))[:1500])
            log("    observed:", json.dumps(pretty(e["r"]))[:1200])
            log("    expected:", json.dumps(pretty(x))[:1200])
        log(f"VIOLATION property={pid} replay={path}")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"states": states, "transitions": trans, "traces_validated_against_impl": ntr, "models": models,
           "calls_by_outcome": cover, "rejected": len(rejects), "known": len(rejects) - len(fresh), "samples": samples}
    while len(json.dumps(cov)) > 60000 and cov["samples"]:
        cov["samples"].pop()
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
               "wall_s": round(time.time() - t0, 1)}, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    log(f"{pid}: {'VIOLATED' if fresh else 'held'}; {ntr} calls, {states} states, {time.time()-t0:.1f}s")
    return 1 if fresh else 0

def replay(path):
    d = json.load(open(path))
    driver = build()
    work = os.path.join(OUT, f"replay_{os.getpid()}")
    os.makedirs(work)
    tr = drive(driver, [json.dumps(c) for c in d["calls"]], os.path.join(work, "r"), d.get("total", False), d.get("threads", 0))
    if d.get("threads"):
        tr = list(once(tr))
    g, n, rej = validate(work, "r", tr, total=d.get("total", False))
    shutil.rmtree(work)
    for i, x in rej:
        log("rejected:", json.dumps(pretty(json.loads(tr[i]))), "\nexpected:", json.dumps(pretty(x)))
    log("still rejected" if rej else "accepted")
    return 1 if rej else 0

def main():
    try:
        cmd = sys.argv[1]
        if cmd == "setup":
            build()
            return 0
        if cmd == "check":
            return check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick"))
        if cmd == "fuzz":
            return check(sys.argv[2], "quick", int(sys.argv[3]))
        if cmd == "replay":
            return replay(sys.argv[2])
        raise ToolError("usage")
    except ToolError as e:
        log("ERROR:", e)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        return 2

if __name__ == "__main__":
    sys.exit(main())
