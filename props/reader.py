"""Reading sessions on files of our own and of foreign producers: spec/CopcReader.tla, Queries.tla, TraceReader.tla."""
import json, random, struct
from lib import gen, lasfile as L
from lib.ctx import Session
from lib.gen import short
from .writer import file_record

NOGEO = []
ROOT = (0, 0, 0, 0)


def record(b, copc=True, full=None, cut=None):
    """the file as TraceReader sees it; raises when the independent parser can't walk it"""
    f = file_record(b)
    p = L.parse(b)
    both = p["vlrs"] + p["evlrs"]

    def find(user, rid):
        for v in both:
            if v["user"] == user and v["id"] == rid:
                return v["data"]
    eb, ext, st = find("LASF_Spec", 4), find("copc", 10000), find("rock_robotic", 10001)
    f["ebtypes"] = [x["t"] for x in L.parse_eb(eb)] if eb is not None else []
    f["extcount"] = -1 if ext is None else len(ext) // 16
    f["statcount"] = -1 if st is None else len(st) // 16
    f["npages"] = sum(1 for v in f["evlrs"] for e in v["entries"] if e["n"] == -1)
    f["copc"] = copc
    f["full"] = L.fo(len(b)) if full is None else full
    if cut is not None:
        f["len"] = cut
    del f["chunks"], f["table"]
    return f

LOOKED_FOR = [("LASF_Projection", 2112), ("LASF_Spec", 4), ("copc", 1), ("copc", 1000), ("copc", 10000), ("rock_robotic", 10001), ("laszip encoded", 22204)]


class Foreign:
    """A well-formed COPC or LAZ file as another producer might lay it out."""

    def __init__(self, c, cfg, layout=None, free=True, geo=None, wild=True, npts=None, copc=True, empty=.06, ext=None):
        self.c, self.cfg, self.rng, self.copc = c, cfg, c.rng, copc
        rng = self.rng
        self.geo = geo
        nd = L.NDIM[cfg.fmt] + len(cfg.eb)

        def pairs():
            return [(rng.choice([0.0, -1.5, 2.0, 1e10]), rng.choice([0.0, 3.25, 1e-3, 1e12])) for _ in range(nd)]
        self.ext = None if not copc or not (rng.random() < .6 if ext is None else ext) else [(min(p), max(p)) for p in pairs()]
        self.stats = pairs() if copc and rng.random() < .4 else None
        self.wkt = cfg.wkt.encode("latin1") if cfg.wkt else None
        text = lambda n: "".join(rng.choice("abc DEF-09") for _ in range(rng.choice([0, 1, n // 2, n]))).strip()
        self.head = dict(source=rng.randrange(65536), sys=text(32), gen=text(32), guid=bytes(rng.randrange(1, 256) for _ in range(16)),
                         day=rng.randrange(366), year=rng.randrange(3000), scale=cfg.scale, offset=cfg.offset,
                         genc=0x10 | rng.choice([0, 1]), legacy=rng.choice([0, None]))
        if self.head["legacy"] is None:
            del self.head["legacy"]
        if geo:
            self.head.update(min=geo.real(geo.mn), max=geo.real(geo.mx))
        else:
            self.head.update(min=(-1.0, -2.0, 0.5), max=(63.0, 20.0, 60.25))
        b = self.b = L.Builder(cfg.fmt, cfg.eb, copc=copc, wkt=self.wkt, ext=self.ext, extstats=self.stats, **self.head)
        b.info = (1.0, 2.0, 3.0, 4.0, geo.spacing * geo.unit if geo else rng.choice([0.0, 1.0, 10.0]))
        self.data = []
        self.keys = []
        if copc:
            order = list(layout["nodes"])
            rng.shuffle(order)
            b.pages = {tuple(p): {"nodes": [], "subs": []} for p in layout["pages"]}
            for k, p in order:
                k, p = tuple(k), tuple(p)
                b.pages[p]["nodes"].append(k)
                self.keys.append(k)
                if rng.random() > empty:
                    self.put(k, npts, wild)
            for p in b.pages:
                if p != ROOT:
                    o = (p[0] - 1,) + tuple(v >> 1 for v in p[1:])
                    while o not in b.pages:
                        o = (o[0] - 1,) + tuple(v >> 1 for v in o[1:])
                    b.pages[o]["subs"].append(p)
        else:
            for _ in range(rng.randrange(4)):
                self.put(None, npts, wild)
        if free:
            self.shuffle()
        self.rows = {}

    def shuffle(self):
        rng, b = self.rng, self.b
        b.page_order = rng.choice([None, rng.shuffle])
        b.one_evlr = rng.random() < .4
        b.evlr_seq = rng.choice([None, rng.shuffle])
        b.vlr_order = rng.choice([None, rng.shuffle])
        b.evlr_records = {x for x in ("wkt", "eb", "ext", "stats") if rng.random() < .45}
        for x in (b.extra_vlrs, b.extra_evlrs):
            for _ in range(rng.choice([0, 0, 1, 3])):
                user, rid = rng.choice(["other", "LASF_Spec", "copc", "LASF_Projection", "rock_robotic", "laszip encodex"]), rng.choice([7, 34735, 5, 9999])
                if rng.random() < .6:       # one that's almost one of those looked for
                    user, rid = rng.choice(LOOKED_FOR)
                    if rng.random() < .6:
                        user = rng.choice([user[:-1], user[1:], user + "2", "x" + user, user.swapcase(), user[:-1] + "~", ""])[:16]
                    else:
                        rid = rng.choice([rid - 1, rid + 2, rid ^ 256, rid + 20000])
                x.append((user, rid,
                          bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 60, 300])))))
        b.gap = rng.choice([0, 0, 1, 100])
        for p in b.pages.values():
            if rng.random() < .5:
                p["mix"] = rng.shuffle

    def put(self, k, npts, wild):
        rng, cfg = self.rng, self.cfg
        n = npts or rng.choice([1, 1, 2, 3, rng.randrange(1, 12)])
        rs = [gen.row(rng, cfg.fmt, cfg.ebb, wild) for _ in range(n)]
        if self.geo:
            for r in rs:
                self.geo.place(r, k, cfg)
        blk = gen.block(rs, cfg)
        self.b.add(k, blk)
        t = gen.tokens_of_block(blk, cfg.fmt, cfg.ebb)
        comp = self.b.chunks[-1][0]
        self.data.append({"key": k, "size": len(comp), "n": n, "plain": short(blk.hex()), "raw": short(comp.hex()), "rows": t,
                          "pts": [{"t": x, "p": self.geo.point(r, cfg)} for x, r in zip(t, rs)] if self.geo else []})

    def build(self):
        self.bytes = self.b.build()
        p = L.parse(self.bytes)
        for d, ch in zip(self.data, [ch for ch in p["chunks"] if ch["n"] or not self.b.holes]):
            d["off"] = ch["off"]
        return self.bytes

    def event(self, f=None):
        return {"event": "File", "f": f or record(self.bytes, self.copc), "data": [{k: L.fo(v) if k == "off" else v for k, v in d.items() if k != "key"} for d in self.data],
                "geo": [self.geo.spec()] if self.geo else []}

    # ---- what a reader should say about the records
    def said(self):
        h = self.head
        pair = lambda ps: [[L.bits(x) for x in p] for p in ps] if ps is not None else []
        txt = lambda x: x.hex() if isinstance(x, bytes) else x.encode("latin1").hex()
        i = self.b.info
        return {"wkt": short((self.wkt or b"").hex()), "eb": short(json.dumps([ebnorm(e) for e in self.cfg.eb], sort_keys=True)),
                "ext": pair(self.ext), "stats": pair(self.stats), "zero": [L.bits(0.0)] * 2,
                "hdr": short(json.dumps([h["source"], txt(h["sys"]), txt(h["gen"]), txt(h["guid"]), h["day"], h["year"], h["genc"],
                                         [[L.bits(float(x)) for x in h[k]] for k in ("scale", "offset", "min", "max")]])),
                "info": short(json.dumps([L.bits(x) for x in i])) if self.copc else ""}


def ebnorm(e):
    z = [L.bits(0.0)] * 3
    return {k: e.get(k, {"o": 0, "n": "", "d": ""}.get(k, z)) for k in ("t", "o", "n", "d", "nd", "mn", "mx", "sc", "of")}


def config_got(c, copc):
    """the driver's dump of a configuration in the terms of ConfigOf"""
    h = c["h"]
    r = {"wkt": short(c["wkt"]), "eb": short(json.dumps([ebnorm(e) for e in c["eb"]], sort_keys=True)), "ebbytes": h["ebsize"], "fmt": h["fmt"],
         "count": L.wide(h["count"]),
         "hdr": short(json.dumps([h["source"], h["sys"], h["gen"], h["guid"], h["day"], h["year"], h["genc"], [h["scale"], h["offset"], h["min"], h["max"]]])),
         "info": "", "ext": [], "stats": False, "mv": []}
    if copc:
        i, x = c["info"], c["ext"]
        r.update(info=short(json.dumps([i[k] for k in ("cx", "cy", "cz", "half", "spacing")])), ext=[v[:2] for v in x["items"]], stats=x["ext"],
                 mv=[v[2:] for v in x["items"]] if x["ext"] else [])
    return r


def nodes_of(r):
    return [{"key": n["key"], "page": n["page"], "off": L.fo(n["off"]), "size": n["size"], "n": n["count"]} for n in r["nodes"]]


class Asker:
    """Questions to one reader; nothing is asked of a reader that could not be opened."""

    def __init__(self, c, s, file, name="r"):
        self.c, self.s, self.file, self.name, self.rng = c, s, file, name, c.rng
        self.open_ = False
        self.entries = {}

    def new_file(self, ev):
        """announces the file the following questions are about"""
        self.s.op({"op": "key.consts"}, lambda r: [ev])

    def open(self, buf, copc=True, rbudget=None, name=None):
        if name:
            self.name = name
        o = {"op": "r.open" if copc else "lr.open", "name": self.name, "sparse" if isinstance(self.file.bytes, L.Sparse) else "buf": buf}
        if rbudget is not None:
            o["rbudget"] = rbudget
        self.copc = copc

        def f(r):
            self.open_ = r["ok"]
            self.why = r.get("err", "")
            return [{"event": "Open", "ok": r["ok"], "err": self.why[:80]}]
        self.s.op(o, f)
        return self

    def ask(self, o, make, **base):
        def f(r):
            if not self.open_:
                return []
            e = dict(base, ok=r["ok"])
            if r["ok"]:
                e.update(make(r))
            else:
                e["err"] = r.get("err", "")[:80]
            return [e]
        self.s.op(dict(o, name=self.name), f)

    def find(self, k):
        self.ask({"op": "r.find", "k": k}, lambda r: {"nodes": nodes_of({"nodes": [r["node"]]}) if r["node"]["valid"] else []}, event="Find", k=k, nodes=[])

    def all(self):
        self.ask({"op": "r.all"}, lambda r: {"nodes": nodes_of(r)}, event="All", nodes=[])

    def pages(self):
        self.ask({"op": "r.pages"}, lambda r: {"pages": r["pages"]}, event="Pages", pages=[])

    def kids(self, k):
        self.ask({"op": "r.kids", "k": k}, lambda r: {"nodes": nodes_of(r)}, event="Kids", k=k, nodes=[])

    def read(self, k, form, node=None):
        cfg = self.file.cfg
        sc, of = self.file.head["scale"], self.file.head["offset"]

        def make(r):
            if form == "pts":
                return {"rows": gen.tokens_of_dump(r["p"], sc, of), "layout": [r["p"]["fmt"], r["p"]["reclen"]]}
            return {"v": short(r["v"])}
        o = {"op": "r." + form}
        if node:
            o["node"] = node
        else:
            o["k"] = k
        self.ask(o, make, event="Read", k=k, form=form, v="", rows=[], layout=[cfg.fmt, cfg.reclen])

    def config(self):
        self.ask({"op": "r.cfg" if self.copc else "lr.cfg"}, lambda r: {"got": config_got(r["c"], self.copc)}, event="Config", said=self.file.said())

    def sweep(self):
        f = self.file
        cfg = f.cfg
        if self.rng.random() < .5:
            def make(r):
                b = bytes.fromhex(r["v"])
                return {"rows": gen.tokens_of_block(b, cfg.fmt, cfg.ebb) if len(b) % cfg.reclen == 0 else ["partial record"], "layout": [cfg.fmt, cfg.reclen]}
            self.ask({"op": "lr.data"}, make, event="Sweep", rows=[])
        else:
            self.ask({"op": "lr.pts"}, lambda r: {"rows": gen.tokens_of_dump(r["p"], f.head["scale"], f.head["offset"]), "layout": [r["p"]["fmt"], r["p"]["reclen"]]},
                     event="Sweep", rows=[])

    # ---- spatial
    def res(self, v):
        return {} if v is None else {"res": L.bits(v * self.file.geo.unit)}

    def depth(self, res=None):
        self.ask(dict({"op": "r.depth"}, **self.res(res)), lambda r: {"v": r["v"]}, event="Depth", res=res or 0)

    def nodes(self, q, box=None, res=None):
        g = self.file.geo
        o = {"op": {"at": "r.atres", "upto": "r.inres", "within": "r.inbox", "touch": "r.xbox"}[q]}
        if box is not None:
            o["box"] = g.realbox(box)
        if q in ("at", "upto"):
            o["res"] = L.bits(res * g.unit)
        else:
            o.update(self.res(res))
        self.ask(o, lambda r: {"keys": [n["key"] for n in r["nodes"]]}, event="Nodes", q=q, box=g.full(box) if box is not None else [], res=res or 0, keys=[])

    def points(self, q, box=None, res=None):
        f = self.file
        o = dict({"op": "r.allpts" if q == "all" else "r.ptsbox"}, **self.res(res))
        if box is not None:
            o["box"] = f.geo.realbox(box)
        self.ask(o, lambda r: {"rows": gen.tokens_of_dump(r["p"], f.head["scale"], f.head["offset"])}, event="Points", q=q,
                 box=f.geo.full(box) if box is not None else [], res=res or 0, rows=[])

    def validate(self, verbose):
        self.ask({"op": "r.validate", "verbose": verbose}, lambda r: {k: r[k] for k in ("v", "quiet", "outhdr", "outnode", "says", "saysnot") if k in r},
                 event="Validate", verbose=verbose)

    def close(self):
        self.s.op({"op": "r.close" if self.copc else "lr.close", "name": self.name})


# ------------------------------------------------------------ layouts
def emb_layout(g, emb):
    k = lambda x: list(emb(x)) if emb(x) is not None else list(x)
    return {"pages": [k(p) for p in g["pages"]], "nodes": [(k(n["k"]), k(n["p"])) for n in g["nodes"]]}


def big_layout(rng, n, maxdepth=12, stretch=.7):
    """a larger random octree"""
    keys = [ROOT]
    while len(keys) < n:
        b = rng.choice(keys[-4:]) if rng.random() < .5 else rng.choice(keys)
        if b[0] < maxdepth:
            k = (b[0] + 1,) + tuple(2 * v + rng.randrange(2) for v in b[1:])
            if k not in keys:
                keys.append(k)
    pages = [ROOT] + [k for k in keys[1:] if rng.random() < .3]
    ps = set(pages)
    nodes = []
    for k in keys:
        if rng.random() < .85:
            up, x = [], k
            while True:
                if x in ps:
                    up.append(x)
                if x[0] == 0:
                    break
                x = (x[0] - 1,) + tuple(v >> 1 for v in x[1:])
            nodes.append((k, up[0] if rng.random() < .6 else rng.choice(up)))
    return {"pages": pages, "nodes": nodes}


def query(a, e, emb, keys):
    rng = a.rng
    k = emb(e["k"])
    k = list(k) if k is not None else gen.bad_key(rng, e["k"])
    q = e["q"]
    if keys and rng.random() < .3:
        k = list(rng.choice(keys))
    if q == "find":
        a.find(k)
    elif q == "kids":
        a.kids(k)
    elif q == "all":
        a.all()
    elif q == "pages":
        a.pages()
    elif q in ("data", "comp", "pts"):
        a.read(k, q)
    elif q == "bynode":
        d = [x for x in a.file.data if x["key"] == tuple(k)]
        if d:
            a.read(k, rng.choice(["data", "comp", "pts"]), node={"key": k, "off": d[0]["off"], "size": d[0]["size"], "count": d[0]["n"]})
        else:
            a.find(k)
    elif a.file.geo:
        a.depth()
    else:
        a.config()


def histories(c, num, depth=10, bias=45):
    return c.behaviours("GenReader", "GenReader.cfg", num, depth + 3, Depth=depth, PageBias=bias)


def well_formed(c, num, big):
    out = []
    hs = histories(c, num)
    for i, g in enumerate(hs + [None] * big):
        s = Session("layout %d" % i)
        cfg = gen.Config(c.rng, plain=c.rng.random() < .5)
        if g is not None:
            emb = gen.Embedding(c.rng, c.rng.choice([1, 2, 5]))
            lay = emb_layout(g, emb)
            hist = g["hist"]
        else:
            emb = lambda k: tuple(k) if min(k) >= 0 and not any(v >> k[0] for v in k[1:]) else None
            lay = big_layout(c.rng, c.rng.randrange(5, 40))
            ks = [k for k, _ in lay["nodes"]] + lay["pages"]
            qs = ["find"] * 4 + ["kids"] * 2 + ["all", "pages", "data", "comp", "pts", "bynode", "other"]
            hist = [{"q": c.rng.choice(qs), "k": c.rng.choice(ks)} for _ in range(25)]
        f = Foreign(c, cfg, lay)
        f.build()
        s.must({"op": "buf.set", "buf": "b", "hex": f.bytes.hex()})
        a = Asker(c, s, f)
        a.new_file(f.event())
        a.open("b")
        for e in hist:
            query(a, e, emb, f.keys)
        # the same questions to another reader, in another order
        a.close()
        a2 = Asker(c, s, f, "r2").open("b")
        h2 = list(hist)
        c.rng.shuffle(h2)
        for e in h2:
            query(a2, e, emb, f.keys)
        a2.all()
        a2.close()
        out.append(s)
    return out


class Stretched(Session):
    """about a file with holes"""

    def events(self, results):
        try:
            L.holes(self.meta["cuts"])
            return Session.events(self, results)
        finally:
            L.holes([])


def stretched(c, num, copc=True):
    """files of more than 4 GiB, mostly unused"""
    out = []
    rng = c.rng
    for i in range(num):
        cfg = gen.Config(rng, copc=copc)
        lay = big_layout(rng, rng.randrange(2, 20), maxdepth=6)
        f = Foreign(c, cfg, lay if copc else None, copc=copc)
        G = [(1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 32) - 300, (1 << 32) - 1 - rng.randrange(1 << 20)]
        if f.data and copc:
            for j in rng.sample(range(len(f.data)), min(len(f.data), rng.choice([0, 1, 2, 3]))):
                f.b.holes[j] = rng.choice(G)
        if rng.random() < .6 or not f.b.holes:
            f.b.holes["end"] = rng.choice(G + [1 << 32, 1 << 33, (1 << 40) + 77, rng.randrange(1 << 31, 1 << 45)])
        f.build()
        s = Stretched("stretched file %d" % i, cuts=f.b.cuts)
        try:
            L.holes(f.b.cuts)
            a = Asker(c, s, f)
            s.must({"op": "sparse.set", "name": "b", "parts": [[o, bytes(b).hex()] for o, b in f.bytes.parts]})
            a.new_file(f.event())
        finally:
            L.holes([])
        a.open("b", copc)
        a.config()
        ks = f.keys + [(9, 0, 0, 1), (-1, -1, -1, -1)]
        if not copc:
            a.sweep()
        for _ in range(12 if copc else 0):
            query(a, {"q": rng.choice(["find"] * 3 + ["kids", "all", "pages", "data", "comp", "pts", "bynode", "other"]), "k": rng.choice(ks)}, lambda k: k, f.keys)
        a.close()
        out.append(s)
    return out


def C03(c):
    c.model("MCReader", c.pick("MCReaderQ.cfg", "MCReader.cfg"), workers=8)
    c.play(well_formed(c, c.pick(300, 2500), c.pick(30, 300)), "TraceReader", "TraceReader.cfg", label="questions in any order")
    c.play(stretched(c, c.pick(60, 600)), "TraceReader", "TraceReader.cfg", label="beyond 4 GiB")


# ------------------------------------------------------------ C13, C14
class Geo:
    """Coordinates on an integer grid on which the code's floating point arithmetic is exact (dyadic), or where
    nothing is closer than a quarter of a step to a boundary (decimal)."""
    DEPTH = 8

    def __init__(self, rng, cfg):
        self.rng = rng
        self.dyadic = rng.random() < .6
        if self.dyadic:
            self.unit = 1 / 64
            cfg.scale = [rng.choice([1.0, 0.5, 0.25, 0.125, 0.015625]) for _ in range(3)]
            cfg.offset = [rng.choice([0.0, -7.5, 1000.25, 350000.5]) for _ in range(3)]
            sp = rng.choice([1, 3, 10, 25]) * 64 * rng.choice([4, 16])
            sp = max(1, sp // 256) * 256
            self.mn = [self.grid(cfg.offset[i]) + rng.choice([0, 64, -640, rng.randrange(-1000, 1000)]) for i in range(3)]
        else:
            s = rng.choice([0.01, 0.001, 0.1])
            self.unit = s / 4
            cfg.scale = [s] * 3
            cfg.offset = [rng.choice([0.0, 1000.0, -20.0]) for _ in range(3)]
            sp = rng.choice([1, 3, 7]) * 4 * 256
            self.mn = [self.grid(cfg.offset[i]) + 4 * rng.randrange(-300, 300) + 2 for i in range(3)]
        self.span = sp
        q = 1 if self.dyadic else 4
        ext = [sp if rng.random() < .4 else q * rng.randrange(sp // q + 1) for _ in range(3)]
        ext[rng.randrange(3)] = sp
        self.mx = [a + b for a, b in zip(self.mn, ext)]
        self.spacing = rng.choice([sp // 128, sp // 16, sp, 1, rng.randrange(1, sp + 1)]) or 1
        self.tidy, self.used = True, False

    def grid(self, x):
        return round(x / self.unit)

    def real(self, p):
        return [x * self.unit for x in p]

    def full(self, box):
        if len(box) == 4:
            return [box[0], box[1], -L.BIG, box[2], box[3], L.BIG]
        return box

    def realbox(self, box):
        return [L.bits(x * self.unit) if abs(x) < L.BIG else L.bits((1 if x > 0 else -1) * 1.7976931348623157e308) for x in box]

    def cell(self, k):
        st = self.span >> k[0]
        return [self.mn[i] + st * k[i + 1] for i in range(3)] + [self.mn[i] + st * (k[i + 1] + 1) for i in range(3)]

    def place(self, r, k, cfg):
        """moves a point row into (or, when not tidy, possibly out of) the cell of its node"""
        rng = self.rng
        b = self.cell(k) if k is not None else self.mn + self.mx
        for i, ax in enumerate("XYZ"):
            st = self.grid(cfg.scale[i])
            o = self.grid(cfg.offset[i])
            lo, hi = b[i], b[i + 3]
            if getattr(self, "inside", False):
                # inside of the header bounds as well
                hi = min(hi, max(self.mx[i], lo))
            if self.tidy == "one":
                # one coordinate of one point is just outside
                if not self.used and rng.random() < .08:
                    self.used = True
                    r[ax] = rng.choice([-((o - lo) // st) - 1, (hi - o) // st + 1, -((o - lo) // st) - rng.randrange(1, 50), (hi - o) // st + rng.randrange(1, 50)])
                    continue
            elif not self.tidy and rng.random() < .12:
                lo, hi = rng.choice([(lo - self.span, lo), (hi, hi + self.span), (self.mn[i] - 50 * st, self.mx[i] + 50 * st), (lo - st, hi + st)])
            a, z = -((o - lo) // st), (hi - o) // st      # first step at or above lo, last at or below hi
            r[ax] = rng.choice([a, z, rng.randrange(a, z + 1)]) if a <= z else a

    def point(self, r, cfg):
        return [r[ax] * self.grid(cfg.scale[i]) + self.grid(cfg.offset[i]) for i, ax in enumerate("XYZ")]

    def spec(self):
        return {"mn": self.mn, "mx": self.mx, "spacing": self.spacing}

    def box(self, keys, pts):
        """a query box with its faces at or near interesting places"""
        rng = self.rng

        def coord(i):
            c = rng.random()
            if c < .4 and keys:
                v = rng.choice([self.cell(rng.choice(keys))[i], self.cell(rng.choice(keys))[i + 3]])
            elif c < .7 and pts:
                v = rng.choice(pts)[i]
            elif c < .8:
                v = rng.choice([self.mn[i], self.mx[i], self.mn[i] - 10 * self.span, self.mx[i] + 10 * self.span])
            else:
                v = self.mn[i] + rng.randrange(-100, self.span + 100)
            if self.dyadic:
                return v + rng.choice([0, 0, 0, 1, -1])
            return v | 1
        if keys and rng.random() < .45:
            # a cell (or two cells), with faces moved slightly or not at all
            a, b = self.cell(rng.choice(keys)), self.cell(rng.choice(keys))
            if rng.random() < .6:
                b = a
            d = (lambda: rng.choice([0, 0, 0, 0, 1, -1, 40])) if self.dyadic else (lambda: rng.choice([1, 1, -1]))
            x = [sorted((min(a[i], b[i]) - d(), max(a[i + 3], b[i + 3]) + d())) for i in range(3)]
            if rng.random() < .15:      # only touching
                i = rng.randrange(3)
                x[i] = [x[i][1], x[i][1] + self.span] if rng.random() < .5 else [x[i][0] - self.span, x[i][0]]
        else:
            x = [sorted((coord(i), coord(i))) for i in range(3)]
        if rng.random() < .15:
            i = rng.randrange(3)
            x[i][1] = x[i][0]
        if rng.random() < .2:
            return [x[0][0], x[1][0], x[0][1], x[1][1]]
        if rng.random() < .05:
            return [-L.BIG] * 3 + [L.BIG] * 3
        return [v[0] for v in x] + [v[1] for v in x]

    def resolution(self):
        rng = self.rng
        return rng.choice([0, -1, -L.BIG + 1, 1, self.spacing, self.spacing + 1, self.spacing - 1, self.spacing >> 1, self.spacing >> 2, (self.spacing >> 1) + 1,
                           (self.spacing >> 2) + 1, self.spacing >> 3, self.spacing * 2, 10**8])


def geo_file(c, lay, tidy, **k):
    cfg = gen.Config(c.rng, plain=c.rng.random() < .7)
    g = Geo(c.rng, cfg)
    g.tidy, g.inside = tidy, k.pop("inside", False)
    f = Foreign(c, cfg, lay, geo=g, **k)
    f.build()
    return f


def geo_layouts(c, num, big):
    out = []
    for g in histories(c, num, depth=1):
        emb = gen.Embedding(c.rng, c.rng.choice([1, 1, 2]))
        out.append(emb_layout(g, emb))
    # trees without any node
    out += [{"pages": [ROOT], "nodes": []}, {"pages": [ROOT, (1, 0, 1, 0)], "nodes": []}] * max(1, num // 40)
    return out + [big_layout(c.rng, c.rng.randrange(1, 30), maxdepth=7) for _ in range(big)]


def spatial(c, num, big):
    out = []
    for i, lay in enumerate(geo_layouts(c, num, big)):
        s = Session("spatial %d" % i)
        f = geo_file(c, lay, c.rng.random() < .9)
        g = f.geo
        s.must({"op": "buf.set", "buf": "b", "hex": f.bytes.hex()})
        a = Asker(c, s, f)
        a.new_file(f.event())
        a.open("b")
        pts = [p["p"] for d in f.data for p in d["pts"]]
        res = lambda: c.rng.choice([None, g.resolution()])
        for _ in range(14):
            q = c.rng.choice(["depth", "at", "upto", "within", "within", "touch", "touch", "all", "box", "box"])
            if q == "depth":
                a.depth(res())
            elif q in ("at", "upto"):
                a.nodes(q, res=g.resolution())
            elif q in ("within", "touch"):
                a.nodes(q, g.box(f.keys, pts), res())
            elif q == "all":
                a.points("all", res=res())
            else:
                a.points("box", g.box(f.keys, pts), res())
        a.close()
        out.append(s)
    return out


def C13(c):
    c.model("MCGeometry", "MCGeometry.cfg")
    c.play(spatial(c, c.pick(200, 1500), c.pick(60, 500)), "TraceReader", "TraceReader.cfg", label="spatial questions")


def validation(c, num, big):
    out = []
    for i, lay in enumerate(geo_layouts(c, num, big)):
        s = Session("validation %d" % i)
        f = geo_file(c, lay, c.rng.choice([True, True, "one", "one", "one", False]), inside=c.rng.random() < .85, empty=c.rng.choice([0, .1, .5]))
        s.must({"op": "buf.set", "buf": "b", "hex": f.bytes.hex()})
        a = Asker(c, s, f)
        a.new_file(f.event())
        a.open("b")
        for v in c.rng.choice([(True, False), (False, True), (True, True, False)]):
            a.validate(v)
        a.close()
        out.append(s)
    return out


def C14(c):
    c.model("MCGeometry", "MCGeometry.cfg")
    c.play(validation(c, c.pick(400, 3000), c.pick(80, 600)), "TraceReader", "TraceReader.cfg", label="spatial validation")


# ------------------------------------------------------------ C19
def placements(c, num, each):
    out = []
    hs = histories(c, num, depth=1)
    for i in range(num * 2):
        copc = i % 2 == 0
        s = Session("placement %d" % i)
        cfg = gen.Config(c.rng, copc=copc)
        emb = gen.Embedding(c.rng, 2)
        f = Foreign(c, cfg, emb_layout(hs[i // 2], emb) if copc else None, free=False, copc=copc)
        for j in range(each):
            if j:
                f.b.extra_vlrs, f.b.extra_evlrs = [], []
                f.shuffle()
            f.build()
            s.must({"op": "buf.set", "buf": "b", "hex": f.bytes.hex()})
            a = Asker(c, s, f, "r%d" % j)
            a.new_file(f.event())
            a.open("b", copc)
            a.config()
            # everything about the configuration but the number and place of the records
            def digest(r, a=a):
                if not a.open_ or not r["ok"]:
                    return []
                x = dict(r["c"])
                x["h"] = {k: v for k, v in x["h"].items() if k not in ("vlrs", "evlrs", "evlroff", "pointoff")}
                if "info" in x:
                    x["info"] = {k: v for k, v in x["info"].items() if not k.startswith("root")}
                return [{"event": "Twin", "digest": short(json.dumps(x, sort_keys=True))}]
            s.op({"op": "r.cfg" if copc else "lr.cfg", "name": a.name}, digest)
            if copc:
                a.all()
                for k in c.rng.sample(f.keys, min(2, len(f.keys))):
                    a.read(list(k), c.rng.choice(["data", "comp", "pts"]))
            else:
                a.sweep()
            a.close()
        out.append(s)
    return out


def C19(c):
    c.play(placements(c, c.pick(150, 1200), c.pick(4, 6)), "TraceReader", "TraceReader.cfg", label="placements")
    c.play(stretched(c, c.pick(20, 200)) + stretched(c, c.pick(20, 200), copc=False), "TraceReader", "TraceReader.cfg", label="beyond 4 GiB")


# ------------------------------------------------------------ C23
def interrogate(a, keys, n=None):
    """every kind of question, in random order"""
    rng = a.rng
    qs = [a.all, a.pages, a.config]
    for k in keys:
        qs += [lambda k=k: a.find(k), lambda k=k: a.kids(k)] + [lambda k=k, x=x: a.read(k, x) for x in ("data", "comp", "pts")]
    rng.shuffle(qs)
    for q in qs[:n]:
        q()
    # what failed must not have changed anything
    for q in rng.sample(qs, min(3, len(qs))):
        q()


def small_file(c, i, copc=True, **k):
    cfg = gen.Config(c.rng, copc=copc, plain=k.pop("plain", c.rng.random() < .5))
    if cfg.wkt:
        cfg.wkt = cfg.wkt[:60]
    if copc:
        emb = gen.Embedding(c.rng, 2)
        lay = k.pop("lay", None) or emb_layout(i, emb)
    else:
        lay = None
    f = Foreign(c, cfg, lay, copc=copc, npts=k.pop("npts", 2), **k)
    f.build()
    return f


def strange(f):
    return [[9, 0, 0, 1], [-1, -1, -1, -1]]


def cuts(c, num, step, lib=False):
    """files cut off at every point"""
    out = []
    hs = histories(c, num, depth=1, bias=60)
    for i in range(num):
        copc = i % 4 != 3
        f = small_file(c, hs[i], copc, empty=0)
        n = len(f.bytes)
        base = record(f.bytes, copc)
        at = list(range(0, n)) if step == 1 else sorted(set(c.rng.sample(range(n), n // step)) | {0, 1, 374, 375, n - 1})
        for lo in range(0, len(at), 12):
            s = Session("cut %d" % i)
            s.must({"op": "buf.set", "buf": "b", "hex": f.bytes.hex()})
            for x in at[lo:lo + 12]:
                s.must({"op": "buf.cut", "buf": "b", "to": "x", "len": x})
                a = Asker(c, s, f)
                a.new_file(f.event(dict(base, len=x)))
                a.open("x", copc)
                if copc:
                    interrogate(a, [list(k) for k in c.rng.sample(f.keys, min(2, len(f.keys)))] + strange(f)[:1], 7)
                else:
                    a.config()
                    a.sweep()
                s.op({"op": "r.close" if copc else "lr.close", "name": "r"})
            out.append(s)
    return out


def devices(c, num, each):
    """a device that stops delivering after some bytes"""
    out = []
    hs = histories(c, num, depth=1, bias=60)
    for i in range(num):
        f = small_file(c, hs[i], empty=0)
        s = Session("device %d" % i)
        s.must({"op": "buf.set", "buf": "b", "hex": f.bytes.hex()})
        rec = record(f.bytes)
        rec["full"] += 1
        for _ in range(each):
            a = Asker(c, s, f)
            a.new_file(f.event(rec))
            a.open("b", rbudget=c.rng.choice([c.rng.randrange(len(f.bytes)), c.rng.randrange(len(f.bytes) * 4)]))
            interrogate(a, [list(k) for k in c.rng.sample(f.keys, min(3, len(f.keys)))], 10)
            s.op({"op": "r.close", "name": "r"})
        out.append(s)
    return out


def poke(b, at, fmt, *v):
    x = bytearray(b)
    struct.pack_into(fmt, x, at, *v)
    return bytes(x)


def corruptions(rng, f):
    """-> list of (what, bytes): single inconsistencies whose meaning is clear"""
    b = f.bytes
    p = L.parse(b)
    out = []
    H = lambda what, at, fmt, *v: out.append((what, poke(b, at, fmt, *v)))
    H("magic", rng.randrange(4), "<B", 0x20)
    H("version", 25, "<B", rng.choice([0, 1, 2, 3, 5]))
    H("header size", 94, "<H", rng.choice([0, 227, 374, 376, 65535]))
    H("format", 104, "<B", rng.choice([0, 1, 3, 5, 9, 10, 11, 63]) | 0x80)
    H("not compressed", 104, "<B", p["hdr"]["fmt"])
    H("record length", 105, "<H", rng.choice([0, 1, 19, L.BASE[p["hdr"]["fmt"]] - 1]))
    H("wkt bit", 6, "<H", p["hdr"]["genc"] & ~16)
    for name, user, rid in (("extents", "copc", 10000), ("stats", "rock_robotic", 10001)):
        for kind, head in (("vlrs", 54), ("evlrs", 60)):
            for v in p[kind]:
                if (v["user"], v["id"]) == (user, rid) and v["len"] >= 32:
                    H(name + " count", v["off"] + 20, "<H" if head == 54 else "<Q", v["len"] - 16)
    for kind, head in (("vlrs", 54), ("evlrs", 60)):
        for v in p[kind]:
            if (v["user"], v["id"]) == ("LASF_Spec", 4):
                H("extra byte type", v["off"] + head + 2 + 192 * rng.randrange(max(1, v["len"] // 192)), "<B", rng.choice([31, 32, 100, 255]))
    # records that describe another number of dimensions than the points have
    if f.copc and f.ext is not None:
        for x in {6, 7, 8} - {p["hdr"]["fmt"]}:
            H("format %d" % x, 104, "<B", x | 0x80)
    for name in ("ext", "extstats"):
        kept = getattr(f.b, name)
        if kept is not None:
            for more in (1, 2, -1, 40):
                setattr(f.b, name, kept[:more] if more < 0 else kept + [(0.0, float(i)) for i in range(more)])
                out.append(("%s %+d" % (name, more), f.b.build()))
            setattr(f.b, name, kept)
    f.build()
    if f.bytes != b:
        f.bytes = b     # (another random layout)
    if f.copc:
        v = p["vlrs"][0]
        H("no info", v["off"] + 2, "<4s", b"copd")
        H("info id", v["off"] + 18, "<H", 2)
        hs = [x for x in p["evlrs"] if (x["user"], x["id"]) == ("copc", 1000)]
        x = b
        for h in hs:
            x = poke(x, h["off"] + 18, "<H", 1001)
        out.append(("no hierarchy", x))
        # the info record not at the beginning
        vs = p["vlrs"]
        if len(vs) > 1:
            raw = b[v["off"]:v["off"] + 54 + v["len"]]
            rest = b[v["off"] + len(raw):p["vlrend"]]
            out.append(("info elsewhere", b[:375] + rest + raw + b[p["vlrend"]:]))
        H("root outside", v["off"] + 54 + 40, "<Q", len(b) + rng.choice([0, 1, 32, 10**6]))
        H("root too long", v["off"] + 54 + 48, "<Q", (len(b) // 32 + 2) * 32)
        # entries
        for h in hs:
            for i, e in enumerate(L.parse_entries(h["data"])):
                o = h["off"] + 60 + 32 * i
                w = "page" if e["n"] == -1 else "node"
                H(w + " entry: count", o + 28, "<i", rng.choice([-2, -3, -2147483648]))
                H(w + " entry: size", o + 24, "<i", rng.choice([-1, -32, -2147483648]))
                H(w + " entry: key", o + 4 * rng.randrange(4), "<i", rng.choice([-1, -7, -2147483648]))
                H(w + " entry: outside", o + 16, "<Q", len(b) + rng.choice([0, 1, 1000, 2**40]))
                if w == "page":
                    H("page too long", o + 24, "<i", 32 * (len(b) // 32 + rng.randrange(1, 5)))
                    H("page is root", o, "<iiii", 0, 0, 0, 0)
        # references to other pages' keys
        refs = [(h["off"] + 60 + 32 * i, e) for h in hs for i, e in enumerate(L.parse_entries(h["data"])) if e["n"] == -1]
        for o, e in refs:
            for o2, e2 in refs:
                if o2 != o:
                    out.append(("page twice", poke(b, o, "<iiii", *e2["key"])))
                    out.append(("cycle", poke(poke(b, o, "<iiii", *e2["key"]), o + 16, "<Qi", e2["off"], e2["size"])))
    return out


def corrupted(c, num, most):
    out = []
    hs = histories(c, num, depth=1, bias=65)
    for i in range(num):
        copc = i % 6 != 5
        f = small_file(c, hs[i], copc, empty=0, ext=True, plain=c.rng.random() < .25)
        cs = corruptions(c.rng, f)
        c.rng.shuffle(cs)
        for lo in range(0, min(most, len(cs)), 10):
            s = Session("corruption %d" % i)
            for what, b in cs[lo:lo + 10]:
                s.must({"op": "buf.set", "buf": "b", "hex": b.hex()})
                a = Asker(c, s, f)
                try:
                    rec = record(b, copc)
                except Exception:
                    rec = record(f.bytes, copc)
                    rec["hdr"]["magic"] = "?"       # can't be walked: must be refused
                a.new_file(dict(f.event(rec), what=what))
                a.open("b", copc)
                if copc:
                    interrogate(a, [list(k) for k in c.rng.sample(f.keys, min(3, len(f.keys)))] + strange(f)[:1], 9)
                else:
                    a.sweep()
                s.op({"op": "r.close" if copc else "lr.close", "name": "r"})
            out.append(s)
    return out


def noise(c, num, each):
    """random damage: whatever happens, nothing crashes or hangs"""
    out = []
    hs = histories(c, num, depth=1, bias=60)
    rng = c.rng
    for i in range(num):
        copc = i % 4 != 3
        f = small_file(c, hs[i], copc, empty=0)
        p = L.parse(f.bytes)
        s = Session("noise %d" % i)
        for _ in range(each):
            b = bytearray(f.bytes)
            for _ in range(rng.choice([1, 1, 2, 5])):
                spot = rng.choice([rng.randrange(375), rng.randrange(375, p["vlrend"]), rng.randrange(len(b)),
                                   rng.randrange(min(p["hdr"]["evlroff"], len(b) - 1), len(b)) if copc else rng.randrange(len(b))])
                spot %= len(b)
                how = rng.random()
                if how < .5:
                    b[spot] = rng.choice([0, 1, 127, 128, 255, rng.randrange(256)])
                elif how < .8:
                    v = struct.pack("<I", rng.choice([0, 1, 0x7fffffff, 0x80000000, 0xffffffff, rng.randrange(2**32)]))
                    b[spot:spot + 4] = v
                    b = b[:len(f.bytes)]
                else:
                    a, z = sorted((rng.randrange(len(b)), rng.randrange(len(b))))
                    b = b[:a] + b[z:] if rng.random() < .5 else b[:z] + b[a:z] + b[z:]
                if len(b) < 10:
                    b = bytearray(f.bytes)
            s.must({"op": "buf.set", "buf": "b", "hex": bytes(b).hex()})
            k = list(rng.choice(f.keys)) if f.keys else [0, 0, 0, 0]
            if copc:
                s.op({"op": "r.open", "name": "r", "buf": "b"})
                for o in rng.sample([{"op": "r.all"}, {"op": "r.pages"}, {"op": "r.find", "k": k}, {"op": "r.kids", "k": k}, {"op": "r.data", "k": k}, {"op": "r.comp", "k": k},
                          {"op": "r.pts", "k": k}, {"op": "r.cfg"}, {"op": "r.validate", "verbose": True}, {"op": "r.depth"}], 6):
                    s.op(dict(o, name="r"))
                s.op({"op": "r.close", "name": "r"})
            else:
                s.op({"op": "lr.open", "name": "r", "buf": "b"})
                s.op({"op": rng.choice(["lr.data", "lr.pts"]), "name": "r"})
                s.op({"op": "lr.close", "name": "r"})
        out.append(s)
    return out


def C23(c):
    c.model("MCReader", "MCReaderQ.cfg", workers=8)
    c.play(cuts(c, c.pick(8, 24), c.pick(6, 1)), "TraceReader", "TraceReader.cfg", label="cut files")
    c.play(devices(c, c.pick(30, 300), 6), "TraceReader", "TraceReader.cfg", label="failing devices")
    c.play(corrupted(c, c.pick(40, 300), c.pick(60, 400)), "TraceReader", "TraceReader.cfg", label="inconsistent files")
    c.play(noise(c, c.pick(60, 1500), 20), "TraceReader", "TraceReader.cfg", timeout=40, label="random damage")
