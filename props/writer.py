"""COPC writing sessions: spec/CopcWriter.tla, traces in spec/TraceWriter.tla."""
import hashlib, json, math, os
from lib import gen, lasfile as L
from lib.ctx import Session
from lib.gen import short

sha = lambda b: hashlib.sha1(b).hexdigest()


# ------------------------------------------------------------ projections
def contents(r):
    """the bytes of an output, and their digest"""
    if "parts" in r:
        return L.Sparse(r["parts"], r["len"]), sha(json.dumps([r["parts"], r["len"]]).encode())
    b = bytes.fromhex(r["hex"])
    return b, sha(b)


class Vast(Session):
    """about a file with holes"""

    def events(self, results):
        try:
            L.holes([])
            seen = []
            for r in results if isinstance(results, list) else []:
                seen += [tuple(h) for h in r.get("holes", []) if tuple(h) not in seen]
            L.holes(sorted(seen))
            if isinstance(results, list):       # no memory for the driver: nothing to judge from there on
                out = [i for i, r in enumerate(results) if "no memory for the zeros" in str(r.get("err", ""))]
                results = results[:out[0]] if out else results
            return Session.events(self, results)
        finally:
            L.holes([])


def file_record(b):
    """the finished file as the specification sees it"""
    f = L.parse(b)
    h = f["hdr"]
    eb = h["reclen"] - L.BASE.get(h["fmt"], 0)

    def dec(c):
        d = L.decode(c["raw"], h["fmt"], eb) if h["fmt"] in L.BASE and eb >= 0 else None
        return "undecodable" if d is None else short(d.hex())
    fo, fs = L.fo, L.fs
    return {
        "hdr": {"magic": h["magic"].decode("latin1"), "major": h["major"], "minor": h["minor"], "hsize": h["hsize"], "fmt": h["fmt"],
                "compressed": bool(h["fmtraw"] & 0x80), "reclen": h["reclen"], "wktbit": bool(h["genc"] & 16), "waveoff": h["waveoff"],
                "count": L.wide(h["count"]), "legacy": L.wide(h["legacy"]), "pointoff": h["pointoff"], "evlroff": fo(h["evlroff"])},
        "vlrs": [{k: v[k] for k in ("user", "id", "off", "len")} for v in f["vlrs"]], "vlrend": f["vlrend"],
        "chunks": [{"off": fo(c["off"]), "size": fs(c["size"]), "n": c["n"], "raw": short(c["raw"].hex()), "dec": dec(c)} for c in f["chunks"]],
        "chunkend": fo(f["chunkend"]), "table": dict(f["table"], at=fo(f["table"]["at"]), end=fo(f["table"]["end"])),
        "evlrs": [{"user": v["user"], "id": v["id"], "off": fo(v["off"]), "len": v["len"],
                   "entries": L.parse_entries(v["data"]) if v["user"] == "copc" and v["id"] == 1000 else []} for v in f["evlrs"]],
        "evlrend": fo(f["evlrend"]), "len": fo(len(b)),
        "info": {"rootoff": fo(f["info"]["rootoff"]), "rootsize": f["info"]["rootsize"]} if f["info"] else {"rootoff": -1, "rootsize": -1}}


def file_event(b, cfg, part):
    try:
        return {"event": "File", "part": part, "f": file_record(b)}
    except Exception as e:
        return {"event": "Unexpected", "op": "parse", "err": "%s: %s" % (type(e).__name__, e)}


def canon(b):
    """everything in the file except the freely chosen order of hierarchy pages and their entries"""
    f = L.parse(b)
    pages = sorted((v["len"], sorted((tuple(e["key"]), e["n"], e["size"], e["off"] if e["n"] != -1 else 0) for e in L.parse_entries(v["data"])))
                   for v in f["evlrs"] if v["id"] == 1000 and v["user"] == "copc")
    other = [(v["user"], v["id"], v["data"].hex()) for v in f["evlrs"] if (v["user"], v["id"]) != ("copc", 1000)]
    vl = []
    for v in f["vlrs"]:
        d = v["data"]
        if v["user"] == "copc" and v["id"] == 1:
            d = d[:40] + d[48:]
        vl.append((v["off"], v["user"], v["id"], d.hex()))
    body = b[:f["hdr"]["hsize"]].hex(), b[f["hdr"]["pointoff"]:f["table"]["end"]].hex()
    return sha(json.dumps([len(b), pages, other, vl, body]).encode())


# ------------------------------------------------------------ building sessions
class Play:
    """Turns a history of the specification into calls on the real writer and collects what it did."""

    def __init__(self, c, s, cfg, emb, name="w", cfgname="c", sink="mem"):
        self.c, self.s, self.cfg, self.emb, self.rng = c, s, cfg, emb, c.rng
        self.name, self.sink, self.n = name, sink, 0
        self.known, self.calls = {}, []
        self.new(name, cfgname, sink)

    def new(self, name, cfgname, sink):
        c, s, cfg = self.c, self.s, self.cfg
        self.name, self.sink, self.closed, self.gone = name, sink, False, False
        o = {"op": "w.new", "name": name, "cfg": cfgname, "sink": sink}
        if sink == "file":
            self.path = os.path.join(self.c.dir, "%s-%d.copc.laz" % (name, c.rng.randrange(1 << 60)))
            o["path"] = self.path
        spec = cfg.spec()
        s.op(o, lambda r: [{"event": "Open", "cfg": spec}] if r["ok"] else [{"event": "Unexpected", "op": "w.new", "err": r["err"]}])

    def key(self, k):
        e = self.emb(k)
        return list(e) if e is not None else gen.bad_key(self.rng, k)

    few = False

    def npoints(self):
        if self.few:
            return 1
        return self.rng.choice([1, 1, 2, 3, 5, self.rng.randrange(1, 40)])

    def data(self, kind):
        """-> (driver arguments, preceding ops, how, len, n, fits, data)"""
        cfg, rng = self.cfg, self.rng
        none = {"raw": "", "plain": "", "rows": []}
        rs = gen.rows(rng, cfg, self.npoints())
        b = gen.block(rs, cfg)
        full = {"raw": "", "plain": short(b.hex()), "rows": gen.tokens_of_block(b, cfg.fmt, cfg.ebb)}
        if kind == "raw":
            return {"data": b.hex()}, [], "raw", len(b), len(rs), True, full
        if kind == "ragged":
            x = b + b[:rng.randrange(1, cfg.reclen)]
            if rng.random() < .3:
                x = b[:rng.randrange(1, cfg.reclen)]
            return {"data": x.hex()}, [], "raw", len(x), len(x) // cfg.reclen, True, none
        if kind == "empty":
            return {"data": ""}, [], "raw", 0, 0, True, none
        if kind in ("comp", "nopoints"):
            z = L.encode(b, cfg.fmt, cfg.ebb)
            n = len(rs) if kind == "comp" else rng.choice([0, -1, -len(rs), -2147483648])
            return {"comp": z.hex(), "n": n}, [], "comp", len(z), n, True, dict(full, raw=short(z.hex()))
        if kind == "huge":      # more points than anyone looks at
            z = L.encode(b, cfg.fmt, cfg.ebb)
            n = rng.choice([2147483647, 2147483647, 2147483646, 1 << 30, 65536, rng.randrange(1 << 28, 1 << 31)])
            return {"comp": z.hex(), "n": n}, [], "comp", len(z), n, True, dict(full, raw=short(z.hex()))
        if kind == "toolarge":  # more than an entry can tell
            return {"zeros": rng.choice([1 << 31, (1 << 31) + 4096]), "n": 3}, [], "comp", 1, 3, False, none
        if kind == "vast":      # gibibytes of (zero) data
            z = self.zeros = getattr(self, "zeros", rng.randrange((1 << 31) - 5000, 1 << 31))
            raw = short((b"zeros:%d" % z).hex())
            n = rng.choice([1, 7, 1 << 20])
            return {"zeros": z, "n": n}, [], "comp", 4001 + z % 1009, n, True, {"raw": raw, "plain": "undecodable", "rows": []}
        if kind == "nodata":
            return {"comp": "", "n": rng.choice([1, 5])}, [], "comp", 0, 1, True, none
        self.n += 1
        name = "p%s%d" % (self.name, self.n)
        if kind == "pts":
            return {"pts": name}, [gen.make_pts(name, rs, cfg)], "pts", 0, len(rs), True, full
        if kind == "nopts":
            return {"pts": name}, [{"op": "pts.new", "name": name, "fmt": cfg.fmt, "eb": cfg.ebb}], "pts", 0, 0, True, none
        # misfit: another format or another number of extra bytes, sometimes with the same record length
        other = gen.Config(rng, fmt=cfg.fmt, plain=True)
        ch = rng.choice(["fmt", "more", "more", "less", "same"])
        other.ebb = cfg.ebb
        if ch == "fmt":
            other.fmt = rng.choice([f for f in (6, 7, 8) if f != cfg.fmt])
        elif ch == "less" and cfg.ebb > 0:
            other.ebb = rng.randrange(cfg.ebb)
        elif ch == "same":
            fs = [f for f in (6, 7, 8) if f != cfg.fmt and cfg.reclen - L.BASE[f] >= 0]
            if fs:
                other.fmt = rng.choice(fs)
                other.ebb = cfg.reclen - L.BASE[other.fmt]
            else:
                other.ebb += 1
        else:
            # twice or one and a half times as long: any number / any even number of them has as many bytes as whole records
            other.ebb += rng.choice([1, 2, 8, cfg.reclen, cfg.reclen, cfg.reclen // 2])
        n = self.npoints()
        whole = cfg.reclen // math.gcd(cfg.reclen, other.reclen)
        if whole <= 70 and rng.random() < .5:
            n = whole * rng.choice([1, 1, 2])      # as many bytes as some points of the file
        rs = gen.rows(rng, other, n)
        return {"pts": name}, [gen.make_pts(name, rs, other)], "pts", 0, len(rs), False, none

    def add(self, k, p, kind):
        args, pre, how, ln, n, fits, data = self.data(kind)
        for o in pre:
            self.s.must(o)
        o = dict({"op": "w.add", "name": self.name, "k": k}, **args)
        if p != [0, 0, 0, 0] or self.rng.random() < .5:
            o["p"] = p

        def f(r):
            e = {"event": "Add", "k": k, "p": p, "how": how, "data": data, "len": ln, "n": n, "fits": fits, "ok": r["ok"], "off": 0, "size": 0,
                 "rk": [], "rp": [], "rn": 0}
            if r["ok"]:
                nd = r["node"]
                if not nd["valid"]:
                    return [{"event": "Unexpected", "op": "w.add", "err": "invalid node returned"}]
                e.update(off=L.fo(nd["off"]), size=L.fs(nd["size"]), rk=nd["key"], rp=nd["page"], rn=nd["count"])
            return [e]
        self.call(o, f)
        self.known[tuple(k)] = 1

    def call(self, o, f):
        if not self.closed:
            self.calls.append((o, f))
        self.s.op(o, f)

    def move(self, k, p):
        self.call({"op": "w.move", "name": self.name, "k": k, "p": p}, lambda r: [{"event": "Move", "k": k, "p": p, "ok": r["ok"]}])

    def find(self, k):
        def f(r):
            if not r["ok"]:
                return [{"event": "Unexpected", "op": "w.find", "err": r["err"]}]
            n = r["node"]
            return [{"event": "Find", "k": k, "valid": n["valid"], "rk": n.get("key", []), "rp": n.get("page", []), "off": L.fo(n.get("off", 0)),
                     "size": L.fs(n.get("size", 0)), "n": n.get("count", 0)}]
        self.s.op({"op": "w.find", "name": self.name, "k": k}, f)

    def close(self):
        self.s.op({"op": "w.close", "name": self.name}, lambda r: [{"event": "Close", "ok": r["ok"]}])
        self.closed = True

    def destroy(self):
        self.s.op({"op": "w.destroy", "name": self.name}, lambda r: [{"event": "Destroy"}])
        self.closed = self.gone = True

    def output(self, parts=(), buf=None, canonical=False):
        """samples the output: digest of all bytes, and the named views of the file"""
        cfg = self.cfg

        def f(r):
            if not r["ok"]:
                return [{"event": "Unexpected", "op": "w.bytes", "err": r["err"]}]
            b, digest = contents(r)
            out = [{"event": "Output", "digest": digest}]
            if canonical:
                try:
                    out.append({"event": "Twin", "canon": canon(b)})
                except Exception as e:
                    out.append({"event": "Unexpected", "op": "canon", "err": str(e)})
            for p in parts:
                out.append(file_event(b, cfg, p))
            return out
        o = {"op": "w.bytes", "name": self.name}
        if buf:
            o["buf"] = buf
        self.s.op(o, f)

    def history(self, hist, finds=.2, sample=False):
        for e in hist:
            k, p = self.key(e["k"]), self.key(e["p"])
            if e["op"] == "add":
                self.add(k, p, e["d"])
            elif e["op"] == "move":
                self.move(k, p)
            elif e["op"] == "close":
                self.close()
            elif e["op"] == "destroy":
                if not self.gone:
                    self.destroy()
            elif e["op"] == "look" and not self.gone:
                self.find(k)
            if not self.gone and self.rng.random() < finds:
                self.find(self.rng.choice([k, p]))
                if self.known and self.rng.random() < .5:
                    self.find(list(self.rng.choice(sorted(self.known))))
            if self.closed and sample:
                self.output()

    def read_back(self, buf, forms=("data", "comp", "pts"), structure=True, name="r", extra=()):
        s, cfg, rng = self.s, self.cfg, self.rng
        if self.sink == "file" and rng.random() < .5:
            s.must({"op": "r.open", "name": name, "path": self.path})
        elif self.sink == "sparse":
            s.must({"op": "r.open", "name": name, "sparse": self.name})
        else:
            s.must({"op": "r.open", "name": name, "buf": buf})

        def all_(r):
            if not r["ok"]:
                return [{"event": "Unexpected", "op": "r.all", "err": r["err"]}]
            return [{"event": "All", "nodes": [{"key": n["key"], "page": n["page"], "off": L.fo(n["off"]), "size": L.fs(n["size"]), "n": n["count"]} for n in r["nodes"]]}]

        def pages(r):
            return [{"event": "Pages", "pages": r["pages"]} if r["ok"] else {"event": "Unexpected", "op": "r.pages", "err": r["err"]}]
        asks = []
        if structure:
            asks += [lambda: s.op({"op": "r.all", "name": name}, all_), lambda: s.op({"op": "r.pages", "name": name}, pages)]
        ks = [list(k) for k in sorted(self.known)] + [list(x) for x in extra]
        for k in ks:
            for form in forms:
                asks.append(lambda k=k, form=form: self.read(name, k, form))
        rng.shuffle(asks)
        for a in asks:
            a()
        s.op({"op": "r.close", "name": name})

    def read(self, name, k, form):
        cfg = self.cfg

        def f(r):
            if not r["ok"]:
                return [{"event": "Unexpected", "op": "read", "err": r["err"]}]
            e = {"event": "Read", "k": k, "form": form, "v": "", "dec": "", "rows": [], "layout": []}
            if form == "pts":
                e["rows"] = gen.tokens_of_dump(r["p"], cfg.scale, cfg.offset)
                e["layout"] = [r["p"]["fmt"], r["p"]["reclen"], r["p"]["eb"]]
            else:
                v = (b"zeros:%d" % r["zeros"]).hex() if r.get("zeros") else r["v"]
                e["v"] = short(v)
                if form == "comp":
                    d = L.decode(bytes.fromhex(v), cfg.fmt, cfg.ebb)
                    e["dec"] = "undecodable" if d is None else short(d.hex())
            return [e]
        self.s.op({"op": "r." + form, "name": name, "k": k}, f)


def long_history(rng, n, bad=0.1, movew=.25):
    """a long random history over a larger octree (validated against the same specification)"""
    keys = [(0, 0, 0, 0)]
    for _ in range(rng.randrange(5, 40)):
        b = rng.choice(keys) if rng.random() < .7 else keys[-1]
        if b[0] < 20:
            keys.append((b[0] + 1,) + tuple(2 * v + rng.randrange(2) for v in b[1:]))
    out = []
    def up(k):
        return (k[0] - 1,) + tuple(v >> 1 for v in k[1:])
    def anc(k):
        r = [k]
        while r[-1][0] > 0:
            r.append(up(r[-1]))
        return r
    for _ in range(n):
        k = rng.choice(keys)
        p = rng.choice(anc(k))
        x = rng.random()
        if x < bad:
            k, p = rng.choice([(k, rng.choice(keys)), (k, (-1, -1, -1, -1)), ((1, 2, 0, 0), p), (k, (1, 2, 0, 0)), (p, k)])
        d = rng.choice(["raw", "comp", "pts"]) if rng.random() > bad else rng.choice(["ragged", "empty", "nopoints", "nodata", "misfit", "nopts"])
        out.append({"op": "move" if rng.random() < movew else "add", "k": list(k), "p": list(p), "d": d})
    return out


def sessions(c, num, weights, parts, forms, structure=True, finds=.2, depth=12, long=0, read=True, sample=False, plain=False):
    hs = c.behaviours("GenWriter", "GenWriter.cfg", num, depth + 2, Depth=depth, **weights)
    hs += [long_history(c.rng, c.rng.randrange(15, 90)) for _ in range(long)]
    out = []
    for i, h in enumerate(hs):
        s = Session("history %d" % i)
        emb = gen.Embedding(c.rng, c.rng.choice([1, 1, 2, 6])) if i < num else (lambda k: tuple(k) if min(k) >= 0 and not any(v >> k[0] for v in k[1:]) else None)
        cfg = gen.Config(c.rng, plain=plain)
        s.must(cfg.new())
        p = Play(c, s, cfg, emb, sink=c.rng.choice(["mem", "mem", "mem", "file"]))
        p.history(h, finds, sample)
        if not p.closed or (not p.gone and c.rng.random() < .3):
            c.rng.choice([p.close, p.close, p.destroy])()
        if not p.gone and p.sink == "file":
            p.close()
        p.output(parts, "out")
        if read:
            p.read_back("out", forms, structure, extra=[list(emb((1, 1, 1, 1)) or (1, 1, 1, 1)), [9, 511, 0, 1], [-1, -1, -1, -1]])
        if not p.gone:
            p.destroy()
            p.output()
        if p.sink == "file":
            s.op({"op": "file.rm", "path": p.path})
        out.append(s)
    return out


class Bulk(Session):
    """accepted additions in a row become one event"""

    def events(self, results):
        out, many = [], []
        for e in Session.events(self, results) + [None]:
            if e and e["event"] == "Add" and e["ok"]:
                many.append(e)
                continue
            if many:
                out.append({"event": "AddMany", "adds": many})
                many = []
            if e:
                out.append(e)
        return out


def big_pages(c, parts):
    """pages of thousands of entries"""
    out = []
    for n in (2047, 2060):
        s = Bulk("big pages %d" % n)
        cfg = gen.Config(c.rng, eb=[])
        cfg.wkt = gen.WKT
        s.must(cfg.new())
        p = Play(c, s, cfg, lambda k: tuple(k), sink="mem")
        p.few = True
        p.known = {}
        sub = [3, 1, 2, 3]
        p.add([0, 0, 0, 0], [0, 0, 0, 0], "raw")
        for i in range(n - 2):  # with the root and the page's entry
            p.add([12, i, 7, 3000], [0, 0, 0, 0], "raw")
        for i in range(2100 if n > 2047 else 5):
            p.add([14, 2048 + i % 50, 4096 + i // 50, 6144], sub, "raw")
        p.close()
        p.output(parts, "out")
        p.destroy()
        out.append(s)
    return out


def huge_counts(c, num, parts):
    """files whose points take more than 32 bits to count"""
    out = []
    for i in range(num):
        s = Session("huge counts %d" % i)
        cfg = gen.Config(c.rng)
        s.must(cfg.new())
        p = Play(c, s, cfg, lambda k: tuple(k), sink=c.rng.choice(["mem", "file"]))
        ks = c.rng.sample([[2, x, y, z] for x in range(4) for y in range(4) for z in range(2)], c.rng.randrange(1, 9))
        for k in ks:
            p.add(k, c.rng.choice([[0, 0, 0, 0], [1] + [v >> 1 for v in k[1:]], k]), c.rng.choice(["huge", "huge", "huge", "raw", "pts"]))
            p.find(k)
        c.rng.choice([p.close, p.destroy])()
        if not p.gone and p.sink == "file":
            p.close()
        p.output(parts, "out")
        p.read_back("out", ("comp",))
        if p.sink == "file":
            s.op({"op": "file.rm", "path": p.path})
        out.append(s)
    return out


def too_large(c, num, parts):
    """chunks whose size doesn't fit an entry"""
    out = []
    for i in range(num):
        s = Vast("too large %d" % i)
        cfg = gen.Config(c.rng)
        cfg.wkt = gen.WKT
        s.must(cfg.new())
        p = Play(c, s, cfg, lambda k: tuple(k), sink="sparse")
        p.add([1, 0, 0, 0], [0, 0, 0, 0], "pts")
        p.add([1, 0, 1, 0], c.rng.choice([[0, 0, 0, 0], [1, 0, 1, 0]]), "toolarge")
        p.find([1, 0, 1, 0])
        p.add(c.rng.choice([[1, 0, 1, 0], [1, 1, 1, 0]]), [0, 0, 0, 0], "comp")
        p.close()
        p.output(parts, "out")
        p.read_back("out", ("comp",))
        out.append(s)
    return out


def vast_files(c, num, parts):
    """files of more than 4 GiB"""
    out = []
    for i in range(num):
        s = Vast("vast file %d" % i)
        cfg = gen.Config(c.rng)
        cfg.wkt = gen.WKT
        s.must(cfg.new())
        p = Play(c, s, cfg, lambda k: tuple(k), sink="sparse")
        ks = c.rng.sample([[2, x, y, z] for x in range(4) for y in range(4) for z in range(2)], 8)
        kinds = ["vast"] * 3 + ["raw", "comp", "pts", "comp"]
        c.rng.shuffle(kinds)
        for k, kind in zip(ks, kinds):
            p.add(k, c.rng.choice([[0, 0, 0, 0], [1] + [v >> 1 for v in k[1:]], k]), kind)
            p.find(k)
        p.add(ks[7], c.rng.choice([[0, 0, 0, 0], ks[7]]), "pts")      # behind everything
        for k in ks[:3]:
            p.move(k, c.rng.choice([[0, 0, 0, 0], [1] + [v >> 1 for v in k[1:]]]))
        p.close()
        p.output(parts, "out")
        p.read_back("out", ("comp",), extra=[[9, 511, 0, 1]])
        out.append(s)
    return out


ADDS = dict(WAdd=72, WMove=14, WBadAdd=6, WBadMove=2)
PAGES = dict(WAdd=60, WMove=28, WBadAdd=4, WBadMove=2)
BAD = dict(WAdd=34, WMove=10, WBadAdd=36, WBadMove=14)
MOVES = dict(WAdd=38, WMove=50, WBadAdd=2, WBadMove=6)


def models(c):
    c.model("MCWriter", c.pick("MCWriterQ.cfg", "MCWriter.cfg"), workers=8)


def C01(c):
    models(c)
    c.play(sessions(c, c.pick(250, 1500), ADDS, (), ("data", "comp", "pts"), long=c.pick(25, 200)), "TraceWriter", "TraceWriter.cfg", label="content")
    c.play(vast_files(c, c.pick(1, 4), ()), "TraceWriter", "TraceWriter.cfg", label="beyond 4 GiB")


def C02(c):
    models(c)
    c.play(sessions(c, c.pick(500, 3000), PAGES, ("hier",), ("comp",), read=False, long=c.pick(50, 400)), "TraceWriter", "TraceWriter.cfg", label="pages")
    c.play(big_pages(c, ("hier",)), "TraceWriter", "TraceWriterBig.cfg", label="big pages")
    c.play(vast_files(c, c.pick(1, 4), ("hier",)), "TraceWriter", "TraceWriter.cfg", label="beyond 4 GiB")


def C06(c):
    models(c)
    c.play(sessions(c, c.pick(350, 2500), BAD, ("hier", "chunks", "head"), ("pts",), structure=True, finds=.4, long=c.pick(25, 200)), "TraceWriter",
           "TraceWriter.cfg", label="refusals")
    c.play(too_large(c, c.pick(1, 4), ("head", "chunks", "hier")), "TraceWriter", "TraceWriter.cfg", label="too large")


def C07(c):
    models(c)
    c.play(sessions(c, c.pick(350, 2500), MOVES, ("hier",), ("data",), finds=.7, depth=14, long=c.pick(25, 200)), "TraceWriter", "TraceWriter.cfg",
           label="moves")


def C04(c):
    from . import laz
    models(c)
    c.play(sessions(c, c.pick(400, 2500), ADDS, ("head", "chunks"), (), read=False, long=c.pick(20, 200)), "TraceWriter", "TraceWriter.cfg", label="copc files")
    c.play(big_pages(c, ("head", "chunks")), "TraceWriter", "TraceWriterBig.cfg", label="big pages")
    c.play(huge_counts(c, c.pick(30, 300), ("head", "chunks", "hier")), "TraceWriter", "TraceWriter.cfg", label="huge counts")
    c.play(vast_files(c, c.pick(2, 5), ("head", "chunks", "hier")), "TraceWriter", "TraceWriter.cfg", label="beyond 4 GiB")
    c.play(laz.vast_files(c, c.pick(1, 4), ("head", "chunks")), "TraceLaz", "TraceLaz.cfg", label="laz beyond 4 GiB")
    c.play(laz.huge_counts(c, c.pick(30, 300)), "TraceLaz", "TraceLaz.cfg", label="huge counts in laz files")
    c.play(laz.sessions(c, c.pick(300, 2000), ("head", "chunks"), read=False), "TraceLaz", "TraceLaz.cfg", label="laz files")


def twins(c, num):
    """the same history completed in different ways on different targets"""
    from .laz import complete
    out = []
    for i, h in enumerate(c.behaviours("GenWriter", "GenWriter.cfg", num, 12, Depth=10, **PAGES)):
        s = Session("completion %d" % i)
        cfg = gen.Config(c.rng)
        s.must(cfg.new())
        p = Play(c, s, cfg, gen.Embedding(c.rng, 2), sink=c.rng.choice(["mem", "file"]))
        p.history([e for e in h if e["op"] in ("add", "move")])
        for j in range(3):
            if j:
                p.new("w%d" % j, "c", c.rng.choice(["mem", "file"]))
                for o, f in list(p.calls):
                    s.op(dict(o, name=p.name), f)
            calls = list(p.calls)
            complete(c, p)
            p.calls = calls
            p.output((), canonical=True)
            if p.sink == "file":
                s.op({"op": "file.rm", "path": p.path})
        out.append(s)
    return out


DONE = dict(WAdd=46, WMove=14, WBadAdd=6, WBadMove=2)


def C05(c):
    from . import laz
    models(c)
    c.model("MCLaz", "MCLaz.cfg")
    c.play(sessions(c, c.pick(300, 2000), DONE, ("hier", "chunks"), (), read=False, sample=True, depth=14), "TraceWriter", "TraceWriter.cfg", label="after completion")
    c.play(twins(c, c.pick(150, 1200)), "TraceWriter", "TraceWriter.cfg", label="ways of completing")
    c.play(laz.sessions(c, c.pick(200, 1200), (), read=False, sample=True, depth=12, WGood=45, WBad=15), "TraceLaz", "TraceLaz.cfg", label="laz after completion")
    c.play(laz.twins(c, c.pick(120, 1000)), "TraceLaz", "TraceLaz.cfg", label="laz ways of completing")
