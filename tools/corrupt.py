#!/usr/bin/env python3
"""corrupt.py [ID...]: measure the binding. Executes samples of each check's behaviours, changes one recorded observation
per call (a byte, a flag, an element, the kind of outcome) and lets TLC judge the corrupted trace: it should reject every
call whose outcome the specification determines. Prints, by operation and place, what was corrupted and what was accepted."""
import sys, os, json, random, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run, checks

def leaves(v, path=()):
    if isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, path + (k,))
    elif isinstance(v, list):
        yield path, v
        for i, x in enumerate(v):
            if not isinstance(x, int) or isinstance(x, bool):
                yield from leaves(x, path + (i,))
    else:
        yield path, v

def damage(rnd, e):
    r = e["r"]
    ls = [(p, v) for p, v in leaves(r)]
    p, v = rnd.choice(ls)
    at = r
    for q in p[:-1]:
        at = at[q]
    if not p:
        return None
    if isinstance(v, bool):
        new = not v
    elif isinstance(v, int):
        new = v + 1
    elif isinstance(v, str):
        if p == ("k",):
            if v == "ok": e["r"] = {"k": "er"}; return "k:ok->er"
            e["r"] = {"k": "panic"}
            return "k->panic"
        return None
    elif isinstance(v, list):
        if all(isinstance(x, int) and not isinstance(x, bool) for x in v) and v:
            i = rnd.randrange(len(v)); new = list(v); new[i] = new[i] - 1 if new[i] else 1
        elif v:
            new = v[:-1]
        else:
            return None
    else:
        return None
    at[p[-1]] = new
    return ".".join("#" if isinstance(q, int) else q for q in p)

def one(pid, n):
    spec = checks.CHECKS[pid]
    driver = run.build()
    work = os.path.join(run.OUT, f"corrupt_{pid}_{os.getpid()}")
    os.makedirs(work)
    rnd = random.Random(pid)
    table = {}
    for src in spec.sources("quick"):
        if src.total:
            continue
        if src.model:
            if not src.script: continue
            g, d, lines = run.model_check(work, src.name, src.model, src.cfg or src.model, src.env, heap=src.heap,
                                          simulate=src.simulate and (src.simulate[0], src.simulate[1], 1))
            if src.expand:
                lines = [json.dumps(x, separators=(",", ":")) for l in lines for x in src.expand(json.loads(l))]
        else:
            lines = [json.dumps(x, separators=(",", ":"), ensure_ascii=True) for x in src.make(random.Random(pid), src.n)]
        if src.stateful:
            # a session up to some call, which alone is corrupted
            groups = []
            for l in lines:
                if json.loads(l).get("new"): groups.append([])
                groups[-1].append(l)
            groups = [g[:rnd.randrange(len(g)) + 1] for g in rnd.sample(groups, min(n, len(groups)))]
            tr = run.drive(driver, [l for g in groups for l in g], os.path.join(work, src.name), False)
            bad, where, last, at = [], [], [], 0
            for g in groups:
                es = [json.loads(t) for t in tr[at:at + len(g)]]
                at += len(g)
                w = damage(rnd, es[-1])
                if not w: continue
                where.append(w)
                bad += [json.dumps(e) for e in es]
                last.append(len(bad) - 1)
            _, _, r = run.validate(work, src.name, bad, src.theap, False)
            rej = {i for i, _ in r}
            for w, j in zip(where, last):
                t = table.setdefault((json.loads(bad[j])["op"], w), [0, 0, None])
                t[0] += 1
                if j not in rej:
                    t[1] += 1
                    t[2] = bad[j]
            if rej - set(last): print("   also rejected:", sorted(rej - set(last))[:5])
            continue
        lines = rnd.sample(lines, min(n, len(lines)))
        tr = run.drive(driver, lines, os.path.join(work, src.name), False)
        bad, where = [], []
        for t in tr:
            e = json.loads(t)
            w = damage(rnd, e)
            if w:
                bad.append(json.dumps(e)); where.append(w)
        parts = [list(range(i, len(bad), 8)) for i in range(8)]
        parts = [p for p in parts if p]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda p: run.validate(work, f"{src.name}_{p[0]}", [bad[j] for j in p], src.theap, False), parts))
        rej = {p[i] for p, (_, _, r) in zip(parts, res) for i, _ in r}
        for j, w in enumerate(where):
            op = json.loads(bad[j])["op"]
            t = table.setdefault((op, w), [0, 0, None])
            t[0] += 1
            if j not in rej:
                t[1] += 1
                t[2] = bad[j]
    shutil.rmtree(work)
    a, b = sum(t[0] for t in table.values()), sum(t[1] for t in table.values())
    print(f"{pid}: {a} corrupted calls, {b} accepted")
    for (op, w), t in sorted(table.items()):
        if t[1]:
            print(f"   {op:12} {w:40} {t[1]}/{t[0]}   {json.dumps(run.pretty(json.loads(t[2])))[:260] if os.environ.get('SHOW') else ''}", flush=True)

for pid in sys.argv[2:] or sorted(checks.CHECKS):
    one(pid, int(sys.argv[1]))
