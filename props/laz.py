"""LAZ writing sessions: spec/LazSession.tla, traces in spec/TraceLaz.tla."""
import os
from lib import gen, lasfile as L
from lib.ctx import Session
from .writer import Play, Vast, contents, file_event, sha


class LazPlay:
    def __init__(self, c, s, cfg, name="w", sink="mem"):
        self.c, self.s, self.cfg, self.rng, self.name, self.sink = c, s, cfg, c.rng, name, sink
        self.n, self.closed, self.gone, self.calls = 0, False, False, []
        self.new(name, sink)

    def new(self, name, sink):
        self.name, self.sink, self.closed, self.gone = name, sink, False, False
        o = {"op": "lw.new", "name": name, "cfg": "c", "sink": sink}
        if sink == "file":
            self.path = o["path"] = os.path.join(self.c.dir, "%s-%d.laz" % (name, self.rng.randrange(1 << 60)))
        spec = self.cfg.spec()
        self.s.op(o, lambda r: [{"event": "Open", "cfg": spec} if r["ok"] else {"event": "Unexpected", "op": "lw.new", "err": r["err"]}])

    npoints = Play.npoints
    few = False
    data = Play.data

    def call(self, o, f):
        if not self.closed:
            self.calls.append((o, f))
        self.s.op(o, f)

    def write(self, kind, times=1):
        args, pre, how, ln, n, fits, data = self.data({"pts1": "pts", "pts2": "pts"}.get(kind, kind))
        for o in pre:
            self.s.must(o)

        def f(r):
            e = {"event": "Write", "how": how, "data": data, "len": ln, "n": n, "fits": fits, "ok": r["done"], "points": L.wide(r["points"]), "chunks": r["chunks"]}
            return [e if times == 1 else dict(e, event="WriteMany", times=times)]
        o = dict({"op": "lw.add", "name": self.name}, **args)
        if times > 1:
            o["times"] = times
        self.call(o, f)

    def counts(self):
        self.s.op({"op": "lw.counts", "name": self.name},
                  lambda r: [{"event": "Counts", "points": L.wide(r["points"]), "chunks": r["chunks"]}])

    def close(self):
        self.s.op({"op": "lw.close", "name": self.name}, lambda r: [{"event": "Close", "ok": r["ok"]}])
        self.closed = True

    def destroy(self):
        self.s.op({"op": "lw.destroy", "name": self.name}, lambda r: [{"event": "Destroy"}])
        self.closed = self.gone = True

    def output(self, parts=(), buf=None, canonical=False):
        cfg = self.cfg

        def f(r):
            b, digest = contents(r)
            out = [{"event": "Output", "digest": digest}]
            if canonical:
                out.append({"event": "Twin", "canon": digest})
            return out + [file_event(b, cfg, p) for p in parts]
        o = {"op": "w.bytes", "name": self.name}
        if buf:
            o["buf"] = buf
        self.s.op(o, f)

    def history(self, hist, sample=False):
        for e in hist:
            if e["op"] == "write" and not self.gone:
                self.write(e["d"])
                if self.rng.random() < .3:
                    self.counts()
            elif e["op"] == "close" and not self.gone:
                self.close()
            elif e["op"] == "destroy" and not self.gone:
                self.destroy()
            elif e["op"] == "look" and not self.gone:
                self.counts()
            if self.closed and sample:
                self.output()

    def read_back(self, buf):
        s, cfg = self.s, self.cfg
        if self.sink == "file" and self.rng.random() < .5:
            s.must({"op": "lr.open", "name": "r", "path": self.path})
        else:
            s.must({"op": "lr.open", "name": "r", "buf": buf})

        def data(r):
            if not r["ok"]:
                return [{"event": "Unexpected", "op": "lr.data", "err": r["err"]}]
            b = bytes.fromhex(r["v"])
            if len(b) % cfg.reclen:
                return [{"event": "Unexpected", "op": "lr.data", "err": "partial record"}]
            return [{"event": "Read", "rows": gen.tokens_of_block(b, cfg.fmt, cfg.ebb), "layout": [cfg.fmt, cfg.reclen]}]

        def pts(r):
            if not r["ok"]:
                return [{"event": "Unexpected", "op": "lr.pts", "err": r["err"]}]
            return [{"event": "Read", "rows": gen.tokens_of_dump(r["p"], cfg.scale, cfg.offset), "layout": [r["p"]["fmt"], r["p"]["reclen"]]}]
        todo = [("data", data), ("pts", pts)]
        self.rng.shuffle(todo)
        # a LAZ reader reads through its points once
        for i, (k, f) in enumerate(todo):
            if i and k:
                s.op({"op": "lr.close", "name": "r"})
                s.must({"op": "lr.open", "name": "r", "buf": buf})
            s.op({"op": "lr." + k, "name": "r"}, f)
        s.op({"op": "lr.close", "name": "r"})


def sessions(c, num, parts, read=True, sample=False, depth=10, **w):
    out = []
    for i, h in enumerate(c.behaviours("GenLaz", "GenLaz.cfg", num, depth + 2, Depth=depth, **w)):
        s = Session("laz history %d" % i)
        cfg = gen.Config(c.rng, copc=False)
        s.must(cfg.new())
        p = LazPlay(c, s, cfg, sink=c.rng.choice(["mem", "mem", "file"]))
        p.history(h, sample)
        if not p.closed:
            c.rng.choice([p.close, p.close, p.destroy])()
        if not p.gone and p.sink == "file":
            p.close()
        p.output(parts, "out")
        if read:
            p.read_back("out")
        if not p.gone:
            p.destroy()
            p.output()
        if p.sink == "file":
            s.op({"op": "file.rm", "path": p.path})
        out.append(s)
    return out


def huge_counts(c, num):
    out = []
    for i in range(num):
        s = Session("huge laz counts %d" % i)
        cfg = gen.Config(c.rng, copc=False)
        s.must(cfg.new())
        p = LazPlay(c, s, cfg, sink=c.rng.choice(["mem", "file"]))
        for _ in range(c.rng.randrange(1, 8)):
            p.write(c.rng.choice(["huge", "huge", "huge", "pts1", "nopoints"]))
            p.counts()
        p.close()
        p.output(("head", "chunks"), "out")
        p.destroy()
        if p.sink == "file":
            s.op({"op": "file.rm", "path": p.path})
        out.append(s)
    return out


def twins(c, num):
    """the same history completed in different ways on different targets"""
    out = []
    for i, h in enumerate(c.behaviours("GenLaz", "GenLaz.cfg", num, 9, Depth=7)):
        s = Session("laz completion %d" % i)
        cfg = gen.Config(c.rng, copc=False)
        s.must(cfg.new())
        p = LazPlay(c, s, cfg)
        p.history([e for e in h if e["op"] == "write"])
        for j in range(3):
            if j:
                calls = list(p.calls)
                p.new("w%d" % j, c.rng.choice(["mem", "file"]))
                for o, f in calls:
                    s.op(dict(o, name=p.name), f)
            complete(c, p)
            p.output((), canonical=True)
            if p.sink == "file":
                s.op({"op": "file.rm", "path": p.path})
        out.append(s)
    return out


def complete(c, p):
    how = c.rng.choice(["close", "closeclose", "destroy", "closedestroy", "closeadd"])
    if how == "destroy":
        return p.destroy()
    p.close()
    if how == "closeadd":
        p.write("pts1") if hasattr(p, "write") else p.add([0, 0, 0, 0], [0, 0, 0, 0], "raw")
        p.close()
    if how == "closeclose":
        p.close()
    if how == "closedestroy":
        p.destroy()


def vast_files(c, num, parts=("chunks",)):
    """files of more than 4 GiB"""
    out = []
    for i in range(num):
        s = Vast("vast file %d" % i)
        cfg = gen.Config(c.rng, copc=False)
        cfg.wkt = gen.WKT
        s.must(cfg.new())
        p = LazPlay(c, s, cfg, sink="sparse")
        kinds = ["vast"] * 3 + ["pts1", "comp", "pts2"]
        c.rng.shuffle(kinds)
        for k in kinds + ["pts1"]:
            p.write(k)
        p.counts()
        p.close()
        p.output(parts, "out")
        out.append(s)
    return out


def many_chunks(c):
    """more chunks than 16 bits can count"""
    s = Session("many chunks")
    cfg = gen.Config(c.rng, copc=False, eb=[])
    s.must(cfg.new())
    p = LazPlay(c, s, cfg)
    p.few = True
    p.write("pts1")
    p.write("comp", times=c.rng.randrange(65536, 70000))
    p.close()
    p.output(("chunks", "head"), "out")
    return [s]


def too_large(c, num, parts=("chunks",)):
    """chunks too long to be told"""
    out = []
    for i in range(num):
        s = Vast("too large %d" % i)
        cfg = gen.Config(c.rng, copc=False)
        s.must(cfg.new())
        p = LazPlay(c, s, cfg, sink="sparse")
        for k in c.rng.choice([["pts1", "toolarge", "comp"], ["toolarge", "pts2"], ["comp", "toolarge"]]):
            p.write(k)
            p.counts()
        p.close()
        p.output(parts, "out")
        out.append(s)
    return out


def C15(c):
    c.model("MCLaz", "MCLaz.cfg", workers=4)
    c.play(sessions(c, c.pick(400, 3000), ("chunks",)), "TraceLaz", "TraceLaz.cfg", label="laz content")
    c.play(vast_files(c, c.pick(1, 4)), "TraceLaz", "TraceLaz.cfg", label="beyond 4 GiB")
    c.play(too_large(c, c.pick(1, 4)), "TraceLaz", "TraceLaz.cfg", label="too long")
    c.play(many_chunks(c), "TraceLaz", "TraceLaz.cfg", label="many chunks")
