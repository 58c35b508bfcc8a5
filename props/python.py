"""The Python interface: spec/PyValues.tla for values sent between processes, and the other specifications once more over it."""
import os
from lib import drv, gen, lasfile as L
from lib.ctx import Session
from . import codec, config, geometry, laz, pipeline, points, reader, writer

DBL = {"zero": 0.0, "nz": -0.0, "one": 1.0, "tenth": 0.1, "den": 5e-324, "max": 1.7976931348623157e308, "nan": float("nan"), "inf": float("inf"), "ninf": float("-inf")}
RETS = config.RETS
OTHERS = ["point", "points", "box", "info", "extents", "extent", "cfg", "laz", "eb"]


def token(x):
    return L.bits(DBL[x]) if x in DBL else x


def seen(r):
    """a dumped value as the specification has it"""
    v = r["v"]
    if r["kind"] == "header":
        v = dict(v, byret=",".join(str(x) for x in v["byret"]))
    return {"kind": r["kind"], "v": v}


class Values:
    def __init__(self, c, s):
        self.c, self.s, self.rng, self.live, self.k = c, s, c.rng, set(), 0

    def known(self, event, **kw):
        return lambda r: [dict(kw, event=event)] if r["ok"] else [{"event": "Unexpected", "what": event, "err": r["err"][:200]}]

    def get(self, n):
        self.s.op({"op": "val.get", "name": n}, lambda r: [dict(seen(r), event="Get", n=n)] if r["ok"] else [{"event": "Unexpected", "err": r["err"][:200]}])

    def made(self, o, n, kind, v=None):
        def f(r):
            if not r["ok"]:
                return [{"event": "Unexpected", "what": "Make", "err": r["err"][:200]}]
            return [{"event": "Make", "n": n, "kind": kind, "v": v or seen(r)["v"]}]
        self.s.op(o, f)

    def file(self):
        """a reader of a file with some nodes"""
        self.k += 1
        src = pipeline.Source(self.c, self.rng.choice([1, 3, 6]))
        while not src.keys:
            src = pipeline.Source(self.c, 3)
        r = "r%d" % self.k
        self.s.must({"op": "buf.set", "buf": r, "hex": src.bytes.hex()})
        self.s.must({"op": "r.open", "name": r, "buf": r})
        return r

    def do(self, e):
        op, s, n, rng = e["op"], self.s, e.get("n"), self.rng
        if op == "Make":
            k, v = e["kind"], e["v"]
            if k == "header":
                if rng.random() < .4:
                    v = {"from": self.file()}
                else:
                    fmt = rng.choice([6, 7, 8])
                    v = {"fmt": fmt, "reclen": L.BASE[fmt] + rng.choice([0, 1, 255, 1000, 65535 - 38]), "scale": [L.bits(rng.choice([0.01, 1.0, 1e-7])) for _ in range(3)],
                         "offset": [L.bits(rng.choice([0.0, -0.5, 1e9])) for _ in range(3)], "copc": rng.random() < .5}
                    if rng.random() < .4:
                        del v["copc"]
                        v["counts"] = [rng.choice([0, 1, 2**n - 1, 2**n - 2, rng.getrandbits(n)]) for n in (32, 64, 32, 64, 32)]
                self.made({"op": "val.make", "name": n, "kind": k, "v": v}, n, k)
            elif k == "node" and rng.random() < .3:
                self.made({"op": "val.node", "name": n, "r": self.file(), "i": rng.randrange(10)}, n, k)
            else:
                if k == "vec":
                    v = {f: token(x) for f, x in v.items()}
                self.made({"op": "val.make", "name": n, "kind": k, "v": v}, n, k, v)
            self.live.add(n)
        elif op == "Part":
            s.op({"op": "val.part", "name": n, "from": e["m"], "a": e["a"]}, self.known("Part", n=n, m=e["m"], a=e["a"]))
            self.live.add(n)
        elif op == "Put":
            v = w = e["val"]
            if e["a"] == "byret":
                w, v = RETS[v], ",".join(str(x) for x in RETS[v])
            elif isinstance(v, str):
                v = w = token(v)
            s.op({"op": "val.put", "name": n, "a": e["a"], "v": w}, lambda r: [{"event": "Put", "n": n, "a": e["a"], "val": v, "ok": r["ok"]}])
        elif op == "PutPart":
            s.op({"op": "val.putpart", "name": n, "a": e["a"], "from": e["m"]}, self.known("PutPart", n=n, a=e["a"], m=e["m"]))
        elif op == "Poke":
            s.op({"op": "val.poke", "name": n, "i": e["i"] - 1, "b": e["b"]}, self.known("Poke", n=n, i=e["i"], b=e["b"]))
        elif op == "Extend":
            s.op({"op": "val.extend", "name": n, "bs": e["bs"]}, self.known("Extend", n=n, bs=e["bs"]))
        elif op == "Save":
            s.op({"op": "val.save", "to": e["t"], "names": e["ns"], "proto": e["proto"]}, self.known("Save", t=e["t"], ns=e["ns"]))
        elif op == "Load":
            s.op({"op": "val.load", "from": e["t"], "names": e["ns"], "far": e["far"]},
                 lambda r: [{"event": "Load", "t": e["t"], "ns": e["ns"], "seen": [seen(x) for x in r["seen"]]}] if r["ok"] else [{"event": "Unexpected", "what": "Load", "err": r["err"][:200]}])
            self.live |= set(e["ns"])
        elif op == "Copy":
            s.op({"op": "val.copy", "name": n, "from": e["m"], "how": e["how"]}, self.known("Copy", n=n, m=e["m"]))
            self.live.add(n)
        elif op == "Eq":
            s.op({"op": "val.eq", "a": e["a"], "b": e["b"]},
                 lambda r: [{"event": "Eq", "a": e["a"], "b": e["b"], "v": r["v"], "heq": r["heq"]}] if r["ok"] else [{"event": "Unexpected", "what": "Eq", "err": r["err"][:200]}])


def values(c, num, depth):
    out = []
    for i, h in enumerate(c.behaviours("GenPyValues", "GenPyValues.cfg", num, depth + 2, Depth=depth)):
        s = Session("values %d" % i)
        v = Values(c, s)
        for e in h:
            v.do(e)
            for n in sorted(v.live):
                v.get(n)
        if i % 10 == 0:
            for k in OTHERS:
                p = c.rng.randrange(2, 6)
                s.op({"op": "val.send", "kind": k, "proto": p}, lambda r, k=k, p=p: [{"event": "Send", "kind": k, "proto": p, "ok": r["ok"], "same": r.get("same", False)}])
        out.append(s)
    return out


def records(c, num):
    out = []
    rng = c.rng
    for i in range(num):
        s = Session("records %d" % i)
        for _ in range(3):
            fmt, eb = rng.choice([6, 7, 8]), rng.choice([0, 0, 1, 2, 7, 30, 230, 300])
            sc, of = points.layout(rng)
            k = rng.choice([0, 1, 1, 2, 3, 5])
            pick = rng.choice(["one", "hdr", "lay"])
            data = b"".join(points.random_record(rng, fmt, eb) for _ in range(1 if pick == "one" else k))
            if pick != "one" and rng.random() < .2:
                data = data[:-1] if data and rng.random() < .5 else data + bytes(rng.randrange(1, L.BASE[fmt]))
            points.unpack_session(c, s, fmt, eb, sc, of, data, pick)
            points.pack_session(c, s, fmt, eb, [rng.choice(points.SC) for _ in range(3)], of, rng.choice([0, 1, 1, 2, 4]))
        out.append(s)
    return out


def codec_sessions(c, num):
    out = []
    for i, h in enumerate(c.behaviours("GenCodec", "GenCodec.cfg", num, 26, Depth=24)):
        s = Session("codec %d" % i)
        p = codec.Player(c, s, 40)
        for e in h:
            if e["op"] in ("enc", "dec"):
                p.do(e)
            elif e["op"] == "put":      # the stream helpers aren't part of the interface
                p.do_enc(e)
        out.append(s)
    return out


def C24(c):
    c.model("MCPyValues", c.pick("MCPyValuesQ.cfg", "MCPyValues.cfg"), workers=8)
    c.exe = pipeline.driver("pydrv.py")
    c.play(values(c, c.pick(250, 4000), c.pick(20, 30)), "TracePyValues", "TracePyValues.cfg", label="values")
    # the other specifications once more, over the Python interface
    c.play(points.store_sessions(c, c.pick(150, 1500), c.pick(16, 24), 40, 50), "TracePoints", "TracePoints.cfg", label="Python points")
    c.play(records(c, c.pick(60, 600)), "TracePoints", "TracePoints.cfg", label="Python records")
    geometry.batches(c, geometry.key_asks(c)[:c.pick(1500, 20000)] + geometry.box_asks(c)[:c.pick(1500, 20000)], "Python keys and boxes")
    c.play(writer.sessions(c, c.pick(80, 800), writer.BAD, ("hier", "chunks", "head"), ("data", "comp", "pts"), finds=.4), "TraceWriter", "TraceWriter.cfg",
           label="Python writer")
    c.play(laz.sessions(c, c.pick(60, 600), ("head", "chunks")), "TraceLaz", "TraceLaz.cfg", label="Python LAZ writer")
    n = c.pick(30, 300)
    c.play(reader.well_formed(c, n, n // 10) + reader.spatial(c, n, n // 10) + reader.validation(c, n, n // 10) + reader.placements(c, n // 2, 3), "TraceReader",
           "TraceReader.cfg", label="Python reader")
    config.play(c, config.sessions(c, "file", c.pick(80, 800), 30), "Python file metadata")
    config.play(c, config.sessions(c, "all", c.pick(60, 600), 24) + config.sessions(c, "ext", c.pick(60, 600), 24) +
                config.sessions(c, "derive", c.pick(40, 400), 20) + config.extent_constructors(c, False)[:-1], "Python configurations")
    config.play(c, config.scaling(c, c.pick(20, 200)) + config.bounds(c, c.pick(20, 200)), "Python scaling and bounds")
    c.play(codec_sessions(c, c.pick(80, 800)), "TraceCodec", "TraceCodec.cfg", label="Python codec")
