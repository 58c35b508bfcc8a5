"""Writing sessions on failing devices: spec/Faults.tla, traces in spec/TraceFaults.tla."""
import os
from lib import drv, gen
from lib.ctx import Session
from .writer import Play, canon
from .laz import LazPlay

KIND = {"new": "new", "close": "close", "destroy": "destroy"}
HEALTHY = {"budget": -1, "mode": "hard", "exc": False}


def steps(ops, well, run):
    """one call after the other, as the specification sees them"""
    out = []
    for o, ok, lost, w in zip(ops, run["oks"], run["lost"], well):
        k = o["op"].split(".")[1]
        # on a real file, and where no writer came to be, only the end tells whether something was lost
        out.append({"kind": KIND.get(k, "write"), "ok": ok == "1", "well": w == "1", "lost": lost == "1" or (lost == "?" and not run["same"])})
    return out


def ending(rng, pre):
    e = [pre + "close"] + ([pre + "close"] if rng.random() < .3 else []) + [pre + "destroy"]
    return [pre + "destroy"] if rng.random() < .1 else e


def bases(c, n):
    """writing sessions without their endings: (preparation, calls)"""
    rng = c.rng
    hs = c.behaviours("GenWriter", "GenWriter.cfg", n, 12, Depth=10, WAdd=60, WMove=20, WBadMove=8, WBadAdd=10, WClose=1)
    ls = c.behaviours("GenLaz", "GenLaz.cfg", n // 2, 10, Depth=8, WGood=75, WBad=20)
    out = []
    for i, h in enumerate(hs + ls):
        s = Session()
        copc = i < len(hs)
        cfg = gen.Config(rng, copc=copc)
        if copc:
            s.must(cfg.new())
            p = Play(c, s, cfg, gen.Embedding(rng, rng.choice([1, 2, 6])))
            p.few = rng.random() < .7
            p.history([e for e in h if e["op"] in ("add", "move")][:rng.choice([0, 1, 3, 5, 8])], finds=0)
        else:
            s.must(cfg.new())
            p = LazPlay(c, s, cfg)
            p.few = rng.random() < .7
            p.history([e for e in h if e["op"] == "write"][:rng.choice([0, 1, 2, 4])])
        pre = "w." if copc else "lw."
        calls = [o for o in s.ops if o["op"].startswith(pre) and o["op"] not in ("w.find", "lw.counts")]
        prep = [o for o in s.ops if not o["op"].startswith(pre)]
        calls += [{"op": e, "name": "w"} for e in ending(rng, pre)]
        out.append((prep, calls, ("copc" if copc else "laz") + " session %d" % i))
    return out


def sweep(c, base, used, seeks, well, dense):
    prep, calls, note = base
    rng = c.rng
    runs = []
    def some(n, k):
        xs = list(range(n + 1))
        if len(xs) <= k:
            return xs
        # every position near both ends, a sample between
        return sorted(set(xs[:20] + xs[-60:] + rng.sample(xs, k)))
    for mode in ("hard", "once", "lazy"):
        for exc in (False, True):
            for b in some(used, dense * 20 if dense else 2500 if mode == "hard" and not exc else 120):
                runs.append({"budget": b, "mode": mode, "exc": exc})
    for exc in (False, True):
        for b in some(seeks, 10**9):
            runs.append({"budget": b, "mode": "seek", "exc": exc})
    for b in some(used, 300 if dense else 30):
        runs.append({"budget": b, "mode": "file", "exc": False})
    s = Session(note, calls=len(calls), runs=len(runs))
    for o in prep:
        s.must(o)
    path = os.path.join(c.dir, "f%d" % rng.randrange(1 << 60))
    first = {"op": "sweep", "name": "w", "ops": calls, "runs": [HEALTHY], "keep": True}

    want = []

    def healthy(r):
        if not r["ok"] or r["runs"][0]["oks"] != well or "1" in r["runs"][0]["lost"]:
            return [{"event": "Unexpected", "op": "sweep", "err": str(r)[:300]}]
        if calls[0]["op"] == "w.new":
            want.append(canon(bytes.fromhex(r["hex"])))
        return []
    s.op(first, healthy)

    def judge(r):
        if not r["ok"]:
            return [{"event": "Unexpected", "op": "sweep", "err": r["err"][:300]}]
        seen, out = {}, []
        for d, x in zip(runs, r["runs"]):
            if not x["same"] and "hex" in x and calls[0]["op"] == "w.new":
                x["same"] = canon(bytes.fromhex(x["hex"])) == want[0]
            ev = {"event": "Run", "steps": steps(calls, well, x), "same": x["same"], "mode": d["mode"], "exc": d["exc"]}
            k = repr(ev)
            if k not in seen:
                seen[k] = dict(ev, budgets=[])
                out.append(seen[k])
            if len(seen[k]["budgets"]) < 5:
                seen[k]["budgets"].append(d["budget"])
            c.counts["device failures tried"] = c.counts.get("device failures tried", 0) + 1
        return out
    s.op({"op": "sweep", "name": "w", "ops": calls, "runs": runs, "ref": "kept", "path": path}, judge)
    s.op({"op": "file.rm", "path": path})
    return s


def C21(c):
    c.model("MCFaults", "MCFaults.cfg", workers=4)
    bs = bases(c, c.pick(24, 120))
    probe = drv.run(c.exe, [p + [{"op": "sweep", "name": "w", "ops": o, "runs": [HEALTHY]}] for p, o, _ in bs])
    ss = []
    for b, r in zip(bs, probe):
        if isinstance(r, drv.Crash) or not r[-1]["ok"]:
            s = Session(b[2])
            for o in b[0] + b[1]:
                s.op(o)
            s.op({"op": "file.rm", "path": "/nonexistent"}, lambda x, r=r: [{"event": "Unexpected", "op": "healthy session", "err": str(r)[:200]}])
            ss.append(s)
            continue
        x = r[-1]["runs"][0]
        ss.append(sweep(c, b, x["used"], x["seeks"], x["oks"], 200 if c.thorough else 0))
    c.play(ss, "TraceFaults", "TraceFaults.cfg", timeout=300, label="failing devices")
