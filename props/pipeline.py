"""Parallel pipelines of the Python package: spec/Pipeline.tla, traces in spec/TracePipeline.tla."""
import os, struct
from lib import build, drv, gen, lasfile as L
from lib.ctx import Session
from .reader import big_layout, ROOT

UNIT = 4
PY = "/opt/veriftools/pyvenv/bin/python"


def driver(script):
    """the Python driver: runs like the C++ one"""
    env = {"VERIF_CORE": build.build_python(), "VERIF_REPO": build.REPO, "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1"}
    drv.ENV.update(env)
    return [PY, os.path.join(build.VERIF, "driver/py", script)]


class Source:
    """a COPC file whose coordinates are whole units, with points that can be told apart"""

    def __init__(self, c, n):
        rng = self.rng = c.rng
        self.fmt = rng.choice([6, 7, 8])
        self.eb = rng.choice([[], [], [{"t": 3, "n": "x"}], [{"t": 0, "o": 5, "n": "y"}]])
        self.scale = rng.choice([0.25, 0.5, 1.0])
        self.offset = rng.choice([0.0, 100.0, -2.25])
        # often around the origin: zeros are values like others
        self.near = rng.random() < .4
        if self.near:
            self.offset = 0.0
        self.lay = big_layout(rng, n) if n else {"nodes": [], "pages": [ROOT]}
        ebb = L.eb_bytes(self.eb)
        text = lambda n: bytes(rng.choice(b"abc DEF-09\xe9\xff\x80") for _ in range(rng.choice([0, n])))
        self.b = L.Builder(self.fmt, self.eb, scale=(self.scale,) * 3, offset=(self.offset,) * 3, min=(-9.0, -8.0, -7.0), max=(9.0, 8.0, 7.0),
                           guid=text(16), sys=text(32), gen=text(32), genc=0x10)
        self.b.info = (1.0, 2.0, 3.0, 64.0, 10.0)
        self.pts, self.page = {}, {}
        self.b.pages = {tuple(p): {"nodes": [], "subs": []} for p in self.lay["pages"]}
        uid = 0
        order = list(self.lay["nodes"])
        rng.shuffle(order)
        self.keys = []
        for k, p in order:
            k, p = tuple(k), tuple(p)
            self.b.pages[p]["nodes"].append(k)
            self.page[k] = p
            self.keys.append(k)
            rs = []
            for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
                uid += 1
                r = gen.row(rng, self.fmt, ebb, False)
                r.update({a: rng.choice([0, 0, 1, -1]) if self.near and rng.random() < .7 else rng.randrange(-60, 60) for a in "XYZ"}, Classification=rng.choice([0, 1, 2, 2, 7, 200]), PointSourceId=uid)
                rs.append(r)
            self.pts[k] = [[int((r[a] * self.scale + self.offset) * UNIT) for a in "XYZ"] + [r["Classification"], r["PointSourceId"]] for r in rs]
            if rs:
                self.b.add(k, b"".join(L.pack_row(r, self.fmt, ebb) for r in rs))
        for p in self.b.pages:
            if p != ROOT:
                o = (p[0] - 1,) + tuple(v >> 1 for v in p[1:])
                while o not in self.b.pages:
                    o = (o[0] - 1,) + tuple(v >> 1 for v in o[1:])
                self.b.pages[o]["subs"].append(p)
        self.bytes = self.b.build()


def points_of(raw, f):
    h = f["hdr"]
    eb = h["reclen"] - L.BASE[h["fmt"]]
    data = L.decode(raw, h["fmt"], eb)
    if data is None:
        return [[L.BIG] * 5]
    rows = L.unpack_rows(data, h["fmt"], eb)
    def u(i, v):
        x = (v * h["scale"][i] + h["offset"][i]) * UNIT
        return int(x) if x == int(x) else L.BIG
    return [[u(i, r[a]) for i, a in enumerate("XYZ")] + [r["Classification"], r["PointSourceId"]] for r in rows]


def contents(b, copc):
    f = L.parse(b)
    h = f["hdr"]
    out = {"bounds": [[int(v * UNIT) if v * UNIT == int(v * UNIT) else L.BIG for v in h[k]] for k in ("min", "max")]}
    if not copc:
        out["chunks"] = [points_of(c["raw"], f) for c in f["chunks"]]
        return out
    nodes, todo = [], [([0, 0, 0, 0], f["info"]["rootoff"], f["info"]["rootsize"])]
    while todo and len(nodes) < 10000:
        page, off, size = todo.pop()
        for e in L.parse_entries(b[off:off + size]):
            if e["n"] == -1:
                todo.append((e["key"], e["off"], e["size"]))
            else:
                pts = points_of(b[e["off"]:e["off"] + e["size"]], f)
                nodes.append({"key": e["key"], "page": page, "pts": pts if len(pts) == e["n"] else [[L.BIG] * 5]})
    out["nodes"] = nodes
    return out


BADARGS = ["both", "chunk", "workers", "writer", "limits", "forbidden", "reserved"]
BADWORK = ["exit", "wrong", "odd", "missing", "callback", "init"]


class Caller:
    def __init__(self, c, s, n):
        self.c, self.s, self.rng = c, s, c.rng
        self.src = Source(c, n)
        self.path = os.path.join(c.dir, "src-%d.laz" % self.rng.randrange(1 << 60))
        s.must({"op": "put", "path": self.path, "hex": self.src.bytes.hex()})

    def call(self, plan, hist, real=False, bad=""):
        rng, src, what = self.rng, self.src, plan["what"]
        xf = what in ("copc", "laz")
        scratch = os.path.join(self.c.dir, "w-%d" % rng.randrange(1 << 60))
        sel = rng.choice(["nodes", "nodes", "all", "res"]) if plan["n"] == len(src.keys) or rng.random() < .3 else "nodes"
        keys = list(src.keys)
        rng.shuffle(keys)
        keys = keys[:plan["n"]]
        if what in ("read", "concat") and keys and rng.random() < .1:
            keys.append(rng.choice(keys))
        a = {"op": "mp", "what": what, "src": self.path, "log": scratch + ".log", "hist": hist, "real": real,
             "chunk": rng.choice([plan["chunk"]] * 4 + [None]), "workers": rng.choice([plan["workers"], plan["workers"], None]),
             "progress": rng.random() < .5, "callback": what not in ("concat", "map") and rng.random() < .8, "update": xf and rng.random() < .6,
             "form": rng.choice(["points", "tuple", "tuple", "new", "none"]), "resolution": None, "slow": rng.choice([1, 4]) if real else 0,
             "container": rng.choice(["list", "list", "tuple"]), "sparse": rng.random() < .4}
        classes = rng.choice([[], [], [2], [1, 2], [7, 200], [5], [0], [0, 7]])
        shift = rng.choice([[0, 0, 0], [4, -8, 12], [1000, 0, -4]])
        bonus = rng.choice([None, None, 4, -16]) if xf else None
        if xf and a["form"] == "none" or what in ("concat", "map"):
            shift, bonus = [0, 0, 0], None
            classes = [] if xf else classes
        bounds = rng.choice([[[0, 0, 0], [0, 0, 0]], [[-4, -5, -6], [40, 50, 60]]])
        kw, more, fail = {}, {}, []
        limits = classes or rng.choice([[], None, False])
        if xf:
            own = rng.random() < .4
            a["writer"] = {"path": scratch + ".laz", "fmt": src.fmt, "scale": [0.25] * 3 if own else None, "offset": rng.choice([[0.0] * 3, [7.5] * 3]),
                           "bounds": bounds}
        if sel == "res":
            a["resolution"] = rng.choice([0.5, 1, 2, 5, 10, 20, 1000])
            found = {}

            def learn(r):
                found["keys"] = [tuple(k) for k in r["keys"]]
                return []
            self.s.op({"op": "nodes", "src": self.path, "resolution": a["resolution"]}, learn)
        a["nodes"] = [list(k) for k in keys] if sel == "nodes" else None
        errs = {}
        for i in plan["bad"] if what in ("read", "copc", "laz") and a["form"] != "none" and sel == "nodes" else []:
            if i <= len(keys):
                fail.append([list(keys[i - 1]), "raise"])
                errs[keys[i - 1]] = "ValueError: boom (%d, %d, %d, %d)" % keys[i - 1]
        # ---- what may be wrong with a call
        if bad == "both":
            a["nodes"], sel = [list(k) for k in keys], "nodes"
            a["resolution"] = rng.choice([0, 1, 5.5])
        elif bad == "chunk":
            a["chunk"] = rng.choice([0, -1, -5])
        elif bad == "workers":
            a["workers"] = rng.choice([0, -1])
        elif bad == "writer" and xf:
            a["nowriter"] = True
        elif bad == "limits" and what in ("concat", "map"):
            limits = rng.choice([7, {}, "x"])
        elif bad == "forbidden" and what in ("concat", "map"):
            kw[rng.choice(["completed_callback", "filter_function", "filter_function_args"])] = 1
        elif bad == "reserved" and sel == "nodes" and keys and (what == "read" or xf and a["form"] != "none"):
            more[rng.choice(["points", "node", "reader"] + (["writer_header"] if xf else []))] = 1
        elif bad in ("exit", "wrong", "odd") and sel == "nodes" and keys and (what == "read" or xf and a["form"] != "none"):
            fail.append([list(rng.choice(keys)), bad])
        elif bad == "missing" and sel == "nodes":
            a["nodes"].insert(rng.randrange(len(a["nodes"]) + 1), None)
        elif bad == "callback" and sel == "nodes" and keys and what not in ("concat", "map"):
            a["callback"], a["cbfail"] = True, rng.randrange(1, len(keys) + 1)
        elif bad == "init" and xf and a["form"] != "none" and keys and sel == "nodes":
            bonus, a["initfail"] = 4, True
        else:
            bad = ""
        a.update(classes=classes, shift=[v / UNIT for v in shift], fail=fail, limits=limits, kw=kw, more=more)
        if bonus is not None:
            a["bonus"] = bonus / UNIT
        moved = [v + (bonus or 0) for v in shift]

        def f(r):
            ks = keys if sel == "nodes" else src.keys if sel == "all" else found["keys"]
            items = [{"key": list(k), "page": list(src.page[k]), "pts": src.pts[k], "err": errs.get(k, "")} for k in ks]
            logged = what == "read" or xf and a["form"] != "none"
            cc = {"items": items, "what": what, "classes": classes, "shift": moved, "update": a["update"], "bounds": bounds, "bad": bad,
                  "callback": a["callback"], "logged": logged, "progress": a["progress"], "chosen": sel == "nodes",
                  "chunk": max(a["chunk"], 0) if a["chunk"] is not None else 1024}
            out = [{"event": "Call", "c": cc}]
            if not r["ok"]:
                return out + [{"event": "Unexpected", "op": "mp", "err": r["err"]}]
            for e in r["events"]:
                if e[0] == "submit":
                    out.append({"event": "Submit"})
                elif e[0] == "finish":
                    out.append({"event": "Finish", "keys": e[1]})
                else:
                    out.append({"event": "Deliver", "r": {"key": e[1]["key"], "pts": e[1]["pts"]}, "count": e[1]["count"], "traced": logged and not real})
            g, got = r["got"], {"none": 0}
            if "close" in g:
                return out + [{"event": "Unexpected", "op": "Close", "err": g["close"]}]
            if "points" in g:
                got = {"points": g["points"] if len(g["shape"]) == 2 and g["shape"][1] == 3 else [[L.BIG]]}
            if "map" in g:
                got = {"map": [{"key": [int(x) for x in k.strip("()").split(",")], "pts": p} for k, p in g["map"]]}
            if "hex" in g:
                try:
                    got = contents(bytes.fromhex(g["hex"]), what == "copc")
                except L.Malformed as x:
                    return out + [{"event": "Unexpected", "op": "file", "err": str(x)}]
            out.append({"event": "End", "ok": r["done"], "err": r["err"], "worked": r["worked"], "updates": r["updates"], "resets": r["resets"], "got": got})
            k = ("failed" if not r["done"] else "returned") + " calls (%s)" % what
            self.c.counts[k] = self.c.counts.get(k, 0) + 1
            return out
        self.s.op(a, f)

    def done(self):
        self.s.op({"op": "rm", "path": self.path})


def C20(c):
    c.exe = driver("mpdrv.py")
    c.model("MCPipeline", "MCPipeline.cfg", workers=4)
    if c.thorough:
        from lib import tlc
        with tlc.variant("MCPipeline.cfg", {"MaxItems": 4, "MaxWorkers": 3, "Whats": '{"copc"}'}) as path:
            c.model("MCPipeline", path, workers=8, timeout=3000)
    hs = c.behaviours("GenPipeline", "GenPipeline.cfg", c.pick(700, 6000), 120)
    ss, rng = [], c.rng
    at = 0
    while at < len(hs):
        k = rng.choice([1, 3, 5, 8])
        part = hs[at:at + k]
        at += k
        s = Session("calls %d.." % at)
        p = Caller(c, s, max([h["plan"]["n"] for h in part]) if rng.random() < .8 else rng.choice([1, 12]))
        for h in part:
            r = rng.random()
            plan = dict(h["plan"])
            p.call(plan, h["hist"], real=rng.random() < .04, bad=rng.choice(BADARGS) if r < .12 else rng.choice(BADWORK) if r < .25 else "")
        p.done()
        ss.append(s)
    c.play(ss, "TracePipeline", "TracePipeline.cfg", timeout=120, label="pipelines")
