"""Driver for the parallel pipelines: one script of calls per line, like the C++ driver."""
import contextlib, io, json, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, pool
copc = core.install(os.environ["VERIF_REPO"], os.environ["VERIF_CORE"])
import workfns
from copclib.mp import read as mpread, transform as mptransform
import numpy as np

UNIT = 4       # coordinates are counted in quarters


def units(v):
    u = v * UNIT
    return int(u) if u == int(u) and abs(u) < 2**31 else 2**31 - 1


def row(r):
    return [units(r[0]), units(r[1]), units(r[2]), int(r[3]), int(r[4])]


def key(k):
    return [k.d, k.x, k.y, k.z]


class Progress:
    def __init__(self):
        self.updates, self.resets = 0, []

    def update(self, n=1):
        self.updates += n

    def reset(self, total=None):
        self.resets.append(total)


class State:
    pass


def run(st, a):
    events = []
    log = a["log"]
    seen = [0]

    def new_lines():
        try:
            with open(log) as f:
                ls = [[int(x) for x in l.split()] for l in f]
        except FileNotFoundError:
            ls = []
        out = ls[seen[0]:]
        seen[0] = len(ls)
        return out

    def record(kind, fut):
        events.append(["submit"] if kind == "submit" else ["finish", new_lines()])
    real = a.get("real")
    reader = copc.FileReader(a["src"])
    if a["nodes"] is None:
        nodes = None
    else:
        nodes = []
        for k in a["nodes"]:
            n = reader.FindNode(copc.VoxelKey(*k)) if k is not None else copc.Node()
            nodes.append(n)
        if a.get("container") == "tuple":
            nodes = tuple(nodes)
    prog = Progress() if a["progress"] else None
    kw = dict(a.get("kw", {}))
    if nodes is not None:
        kw["nodes"] = nodes
    if a.get("resolution") is not None:
        kw["resolution"] = a["resolution"]
    if prog:
        kw["progress"] = prog
    if a.get("chunk") is not None:
        kw["chunk_size"] = a["chunk"]
    if a.get("workers") is not None:
        kw["max_workers"] = a["workers"]
    fail = {tuple(k): v for k, v in a.get("fail", [])}
    args = dict(log=log, classes=a["classes"], shift=a["shift"], fail=fail, slow=a.get("slow", 0), sparse=a.get("sparse", False))
    args.update(a.get("more", {}))
    calls = [0]

    def callback(**got):
        calls[0] += 1
        if a.get("cbfail") == calls[0]:
            raise KeyError("callback")
        rows_ = got.get("rows")
        pts = [row(r) for r in rows_] if rows_ is not None else None
        cnt = got.get("count", got.get("point_count"))
        if "compressed_points" in got:
            h = st.header
            raw = copc.DecompressBytes(got["compressed_points"], h, got["point_count"]) if got["point_count"] else None
            back = [row(r) for r in workfns.rows(copc.Points.Unpack(raw, h))] if raw is not None else []
            if pts is None:
                pts = back
            elif pts != back:
                pts = [[2**31 - 1] * 5]
            cnt = got["point_count"]
        else:
            pts = pts if pts is not None else []
            cnt = len(pts)
        events.append(["deliver", {"key": key(got["node"].key), "pts": pts, "count": cnt}])
    if a["callback"]:
        kw["completed_callback"] = callback
    what = a["what"]
    got = {}
    ok, err = True, ""
    writer = None
    w = a.get("writer")
    sched = None if real else pool.Schedule(a["hist"], record)
    pool.install(sched)
    try:
        try:
            if what in ("copc", "laz"):
                wc = reader.copc_config
                if w["scale"]:
                    cls = copc.CopcConfigWriter if what == "copc" else copc.LazConfigWriter
                    wc = cls(w["fmt"], w["scale"], w["offset"], "", reader.copc_config.extra_bytes_vlr)
                    wc.las_header.min, wc.las_header.max = [b / UNIT for b in w["bounds"][0]], [b / UNIT for b in w["bounds"][1]]
                writer = (copc.FileWriter if what == "copc" else copc.LazWriter)(w["path"], wc)
                st.header = (writer.copc_config if what == "copc" else writer.laz_config).las_header
                if w["scale"] is None:
                    st.header.min, st.header.max = [b / UNIT for b in w["bounds"][0]], [b / UNIT for b in w["bounds"][1]]
                if a.get("bonus") is not None:
                    kw["mp_init_function"] = workfns.set_up
                    kw["mp_init_function_args"] = dict(bonus=a["bonus"], fail=bool(a.get("initfail")))
                if a["update"]:
                    kw["update_minmax"] = True
                if a["form"] == "none":
                    mptransform.transform_multithreaded(reader, writer if not a.get("nowriter") else 7, **kw)
                else:
                    mptransform.transform_multithreaded(reader=reader, writer=writer if not a.get("nowriter") else 7, transform_function=workfns.transform,
                                                        transform_function_args=dict(args, form=a["form"]), **kw)
            elif what == "read":
                mpread.read_multithreaded(reader, workfns.read, args, **kw)
            elif what == "concat":
                r = mpread.read_concat_xyz_class_limit(reader, *([a["limits"]] if a["limits"] is not False else []), **kw)
                got["points"] = [[units(v) for v in p] for p in np.asarray(r).reshape(-1, 3).tolist()]
                got["shape"] = list(np.shape(r))
            elif what == "map":
                r = mpread.read_map_xyz_class_limit(reader, *([a["limits"]] if a["limits"] is not False else []), **kw)
                got["map"] = [[k, [[units(v) for v in p] for p in np.asarray(x).tolist()]] for k, x in r.items()]
        except Exception as e:
            ok, err = False, "%s: %s" % (type(e).__name__, e)
        if writer is not None:
            try:
                writer.Close()
                with open(w["path"], "rb") as f:
                    got["hex"] = f.read().hex()
            except Exception as e:
                got["close"] = "%s: %s" % (type(e).__name__, e)
    finally:
        pool.install(None)
        if sched:
            for p in sched.pools:
                if not p.closed:
                    p.shutdown()
        new_lines()
        seen[0] = 0
        worked = new_lines()
        for p in (log, w["path"] if w else log):
            with contextlib.suppress(FileNotFoundError):
                os.unlink(p)
    return {"ok": True, "done": ok, "err": err[:300], "events": events, "worked": worked, "got": got,
            "updates": prog.updates if prog else 0, "resets": prog.resets if prog else []}


def do(st, a):
    if a["op"] == "mp":
        return run(st, a)
    if a["op"] == "nodes":
        r = copc.FileReader(a["src"])
        return {"ok": True, "keys": [key(n.key) for n in r.GetNodesWithinResolution(a["resolution"])]}
    if a["op"] == "put":
        with open(a["path"], "wb") as f:
            f.write(bytes.fromhex(a["hex"]))
        return {"ok": True}
    if a["op"] == "rm":
        os.unlink(a["path"])
        return {"ok": True}
    raise SystemExit(99)


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        s = json.loads(line)
        st = State()
        res = []
        for a in s["ops"]:
            try:
                res.append(do(st, a))
            except Exception as e:
                res.append({"ok": False, "err": "%s: %s" % (type(e).__name__, e)})
        out.write(json.dumps({"id": s["id"], "res": res}) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
