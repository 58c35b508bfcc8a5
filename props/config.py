"""Configurations, headers, extents and file metadata: spec/ConfigStore.tla and spec/Extents.tla, traces in spec/TraceConfig.tla."""
import os, struct
from lib import gen, lasfile as L
from lib.ctx import Session

TRIPLES = {"zero": (0.0, 0.0, 0.0), "scale0": (0.01, 0.01, 0.01), "v1": (0.001, 0.002, 0.0005), "v2": (-1.5, 1e10, 3.25),
           "v3": (5e-324, 1.7976931348623157e308, -1e-300), "v4": (0.1, 0.25, -7.0),
           "n1": (-1.5, -1e10, -7.25), "n2": (-5e-324, -1.7976931348623157e308, -1e-300), "n3": (-0.1, 0.0, -3.0), "p1": (1.5, 1e10, 1.7976931348623157e308)}
SCALARS = {"z": 0.0, "d1": 1.5, "d2": -2e9, "d3": 5e-324, "d4": 123456.789}
WKTS = {"": "", "w1": b"PROJCS".hex(), "w2": (b'GEOGCS["x",' * 7000).hex(), "w3": bytes(range(1, 256)).hex()}
RETS = {"r0": [0] * 15, "r1": list(range(1, 16)), "r2": [2**40 + i if i % 2 else 2**32 - i for i in range(15)]}
RANKS = {-4: -1e308, -3: -1.0, -2: -0.5, -1: -5e-324, 0: 0.0, 1: 5e-324, 2: 0.999999, 3: 1.0, 4: 1e308}
Z3 = [L.bits(0.0)] * 3
ITEMS = {1: {"n": "a", "d": ""}, 2: {"n": "N" * 32, "d": "D" * 32}, 3: {"n": "b" * 31, "d": "x y"}, 4: {"n": "", "d": "only described"}}
for k, v in ITEMS.items():
    for i, f in enumerate(("nd", "mn", "mx", "sc", "of")):
        v[f] = [L.bits(float(k * 10 + i) + j / 4) for j in range(3)] if k % 2 == 0 else Z3
# the second description again, different in one byte
for k, f, i, b in ((5, "nd", 1, 0), (6, "mn", 2, 7), (7, "mx", 0, 6), (8, "sc", 2, 5), (9, "of", 1, 7)):
    v = ITEMS[k] = {f_: (list(x) if isinstance(x, list) else x) for f_, x in ITEMS[2].items()}
    w = bytearray(struct.pack("<d", L.unbits(v[f][i])))
    w[b] ^= 0x11
    v[f][i] = L.bits(struct.unpack("<d", bytes(w))[0])
REV3 = {tuple(L.bits(x) for x in v): k for k, v in TRIPLES.items()}
REV1 = {L.bits(v): k for k, v in SCALARS.items()}
REVR = {L.bits(v): k for k, v in RANKS.items()}
REVW = {v: k for k, v in WKTS.items()}
REVB = {tuple(v): k for k, v in RETS.items()}
HEADER_FIELDS = ("source", "genc", "day", "year")
INFO_FIELDS = ("cx", "cy", "cz", "half", "spacing")
NOINFO = dict({k: "z" for k in INFO_FIELDS}, root=[0, 0])
NOEXT = {"fmt": 0, "on": False, "items": []}


def tok3(v):
    return REV3.get(tuple(v), "?" + ",".join(v))


def tok1(v):
    return REV1.get(v, "?" + v)


def rank(v):
    if v in REVR:
        return REVR[v]
    return 90000 + (hash(v) % 1000 if False else int(v[2:10], 16) % 10000)


def text(h):
    return list(bytes.fromhex(h))


def item(e):
    e = dict(e)
    key = {k: e[k] for k in ("n", "d", "nd", "mn", "mx", "sc", "of")}
    for k, v in ITEMS.items():
        if v == key:
            return {"t": e["t"], "o": e["o"], "tok": k}
    return {"t": e["t"], "o": e["o"], "tok": 99}


def eb_json(items):
    return [dict(ITEMS[e["tok"]], t=e["t"], o=e["o"]) for e in items]


def header(h):
    return {"fmt": h["fmt"], "reclen": h["reclen"], "scale": tok3(h["scale"]), "offset": tok3(h["offset"]), "min": tok3(h["min"]), "max": tok3(h["max"]),
            "guid": text(h["guid"]), "sys": text(h["sys"]), "gen": text(h["gen"]), "source": h["source"], "genc": h["genc"], "day": h["day"],
            "year": h["year"], "byret": REVB.get(tuple(h["byret"]), "?%s" % h["byret"]), "copc": h["copc"],
            "pos": [h["count"], h["pointoff"], h["vlrs"], h["evlrs"], h["evlroff"]]}


def extents(x):
    return {"fmt": x["fmt"], "on": x["ext"], "items": [[rank(v) for v in q] for q in x["items"]]}


def value(kind, c):
    info, ext = NOINFO, NOEXT
    if "info" in c:
        i = c["info"]
        info = dict({k: tok1(i[k]) for k in INFO_FIELDS}, root=[i["rootoff"], i["rootsize"]])
        ext = extents(c["ext"])
    return {"kind": kind, "h": header(c["h"]), "wkt": REVW.get(c["wkt"], "?" + gen.short(c["wkt"])), "eb": [item(e) for e in c["eb"]],
            "info": info, "ext": ext}


HDR0 = {"fmt": 6, "reclen": 0, "scale": "zero", "offset": "zero", "min": "zero", "max": "zero", "guid": [], "sys": [], "gen": [], "source": 0, "genc": 0,
        "day": 0, "year": 0, "byret": "r0", "copc": False, "pos": [0, 0, 0, 0, 0]}


def meta(b):
    """what the independent parser finds in a finished file"""
    f = L.parse(b)
    h = f["hdr"]
    def t3(v):
        return tok3([L.bits(x) for x in v])
    m = {"h": {"fmt": h["fmt"], "reclen": h["reclen"], "scale": t3(h["scale"]), "offset": t3(h["offset"]), "min": t3(h["min"]), "max": t3(h["max"]),
               "guid": list(h["guid"]), "sys": list(h["sys"]), "gen": list(h["gen"]), "source": h["source"], "genc": h["genc"], "day": h["day"],
               "year": h["year"], "byret": REVB.get(tuple(h["byret"]), "?%s" % h["byret"]),
               "pos": [h["count"], h["pointoff"], h["nvlr"], h["nevlr"], h["evlroff"]]}}
    w = [v["data"] for v in f["evlrs"] + f["vlrs"] if v["user"] == "LASF_Projection" and v["id"] == 2112]
    m["wkt"] = "" if not w else REVW.get(w[0].hex(), "?") if len(w) == 1 else "?several"
    e = [v["data"] for v in f["vlrs"] if v["user"] == "LASF_Spec" and v["id"] == 4]
    m["eb"] = [item(x) for x in L.parse_eb(e[0])] if len(e) == 1 else ([] if not e else [{"t": -1, "o": 0, "tok": 99}])
    i = f["info"]
    m["info"] = dict({k: tok1(L.bits(i[k])) for k in INFO_FIELDS}, root=[i["rootoff"], i["rootsize"]]) if i else NOINFO
    def pairs(user, rid):
        p = [v["data"] for v in f["vlrs"] if v["user"] == user and v["id"] == rid]
        return [[rank(x) for x in q] for q in L.parse_pairs(p[0])] if len(p) == 1 else ([] if not p else [[-99, -99]])
    m["ext"] = pairs("copc", 10000)
    m["stats"] = pairs("rock_robotic", 10001)
    m["gps"] = [rank(L.bits(i["gpsmin"])), rank(L.bits(i["gpsmax"]))] if i else [0, 0]
    return m


class Store:
    def __init__(self, c, s):
        self.c, self.s, self.rng = c, s, c.rng
        self.kind, self.pens, self.files, self.nodes, self.sinks = {}, {}, {}, {}, {}
        self.pos = {}
        self.fmts, self.reclens = {}, {}

    # ---- forms of values
    def v3(self, t):
        return list(TRIPLES[t])

    def quad(self, q):
        return [L.bits(RANKS[x]) for x in q]

    def extv(self, d, val):
        return [self.quad(q) for q in val] if d == "ExtraBytes" else self.quad(val)

    def src(self, n):
        return {{"cw": "cfg", "wr": "cfg", "lw": "lcfg", "lwr": "lcfg", "cr": "rcfg", "lr": "rlcfg"}[self.kind[n]]: n}

    def emit(self, o, e, after=None):
        """one operation; the event says whether it was accepted"""
        def f(r):
            ev = dict(e, event=e["op"], ok=r["ok"])
            ev.pop("op")
            if after:
                ev.update(after(r))
            return [ev]
        self.s.op(o, f)

    def getop(self, n):
        k = self.kind[n]
        if k == "hdr":
            return {"op": "hdr.get", "name": n}
        if k == "ext":
            return {"op": "ext.dump", "name": n}
        return {"op": {"cw": "cfg.get", "wr": "cfg.get", "lw": "lcfg.get", "lwr": "lcfg.get", "cr": "rcfg.get", "lr": "rlcfg.get"}[k], "name": n}

    def val(self, n, r):
        k = self.kind[n]
        if k == "hdr":
            return {"kind": "hdr", "h": header(r["h"]), "wkt": "", "eb": [], "info": NOINFO, "ext": NOEXT}
        if k == "ext":
            return {"kind": "ext", "h": HDR0, "wkt": "", "eb": [], "info": NOINFO, "ext": extents(r["e"])}
        return value(k, r["c"])

    def show(self):
        names = list(self.kind)
        if not names:
            return
        acc = {}
        kinds = dict(self.kind)
        for i, n in enumerate(names):
            def f(r, n=n, last=(i == len(names) - 1)):
                if r["ok"]:
                    save, self.kind = self.kind, kinds
                    acc[n] = self.val(n, r)
                    self.kind = save
                if not last:
                    return []
                out = {"event": "Show", "vals": dict(acc)}
                acc.clear()
                return [out]
            self.s.op(self.getop(n), f)

    # ---- operations
    def do(self, e):
        """e as generated; returns whether it is expected to create its object"""
        getattr(self, "do_" + e["op"])(e)

    def created(self, n, kind):
        self.kind[n] = kind

    def do_New(self, e):
        cop = e["kind"] == "cw"
        o = {"op": "cfg.new" if cop else "lcfg.new", "name": e["n"], "fmt": e["fmt"], "scale": self.v3(e["scale"]), "offset": self.v3(e["offset"]),
             "wkt": WKTS[e["wkt"]], "eb": eb_json(e["eb"])}
        if cop:
            o["ext"] = e["on"]
        self.emit(o, e)
        if e["fmt"] in (6, 7, 8) and all(x["t"] <= 30 for x in e["eb"]):
            self.created(e["n"], e["kind"])

    def do_Copy(self, e):
        k, f = e["kind"], self.kind[e["from"]]
        if k == "cr":
            o = dict({"op": "rcfg.copy", "name": e["n"]}, **self.src(e["from"]))
        elif k == "cw":
            o = {"op": "cfg.copy", "name": e["n"], "from": e["from"], "how": "reader" if f == "cr" else self.rng.choice(["writer", "elements"])}
        else:
            o = {"op": "lcfg.copy", "name": e["n"], "from": e["from"],
                 "how": {"cw": "copcw", "wr": "copcw", "cr": "rcfg", "lw": "writer", "lwr": "writer", "lr": "rlaz"}[f]}
        self.emit(o, e)
        self.created(e["n"], k)

    def do_Assign(self, e):
        k = self.kind[e["n"]]
        self.emit({"op": {"cw": "cfg.assign", "lw": "lcfg.assign", "ext": "ext.assign", "hdr": "hdr.assign"}[k], "name": e["n"], "from": e["from"]}, e)

    def do_SetField(self, e):
        f, v = e["f"], e["val"]
        if f in ("min", "max"):
            v = self.v3(v)
        elif f in ("guid", "sys", "gen"):
            v = bytes(v).hex()
        elif f == "byret":
            v = RETS[v]
        self.emit(self.setop(e["n"], {f: v}), e)

    def setop(self, n, fields):
        k = self.kind[n]
        if k == "hdr":
            return {"op": "hdr.set", "name": n, "set": fields}
        return {"op": "cfg.set" if k in ("cw", "wr") else "lcfg.set", "name": n, "h": fields}

    def do_GpsBit(self, e):
        self.emit(self.setop(e["n"], {"gpsbit": True}), e)

    def do_SetInfo(self, e):
        self.emit({"op": "cfg.set", "name": e["n"], "info": {e["f"]: SCALARS[e["val"]]}}, e)

    def do_SetExtent(self, e):
        n, d, swap = e["n"], e["d"], self.rng.random() < .5
        if d == "ExtraBytes":
            swap = True         # the setter that checks the number
        v = self.extv(d, e["val"])
        if self.kind[n] == "ext":
            o = {"op": "ext.set", "name": n, "dim": d, "v": v, "swap": swap}
        else:
            o = {"op": "cfg.set", "name": n, "x": {d: v}, "swap": swap}
        self.emit(o, e)
        if self.kind[n] == "ext" and self.rng.random() < .6:
            self.look(n, d if self.rng.random() < .6 else self.rng.choice(DIMS))

    def look(self, n, d=None):
        d = d or self.rng.choice(DIMS)
        def f(r):
            v = []
            if r["ok"]:
                v = [[rank(x) for x in q] for q in r["v"]] if d == "ExtraBytes" else [rank(x) for x in r["v"]]
            return [{"event": "Get", "n": n, "d": d, "ok": r["ok"], "val": v}]
        self.s.op({"op": "ext.get", "name": n, "dim": d}, f)

    def pairs(self, n):
        acc = {}
        def f1(r):
            acc["p"] = r
            return []
        def f2(r):
            p = acc["p"]
            if not (p["ok"] and r["ok"]):
                return [{"event": "Unexpected", "op": "ext.vlr", "err": "%s / %s" % (p.get("err"), r.get("err"))}]
            return [{"event": "Pairs", "n": n, "ps": [[rank(x) for x in q] for q in L.parse_pairs(bytes.fromhex(p["bytes"]))],
                     "stats": [[rank(x) for x in q] for q in L.parse_pairs(bytes.fromhex(r["bytes"]))], "hdr": p["hdr"], "size": p["size"]}]
        self.s.op({"op": "ext.vlr", "name": n}, f1)
        self.s.op({"op": "ext.vlr", "name": n, "extended": True}, f2)

    def over(self, o):
        r = {}
        for k, v in o.items():
            if k in ("scale", "offset"):
                v = self.v3(v)
            elif k == "wkt":
                v = WKTS[v]
            elif k == "eb":
                v = eb_json(v)
            r["ext" if k == "on" else k] = v
        return r

    def do_Open(self, e):
        w = e["n"]
        over = e["over"] or {}
        e = dict(e, over=over)
        o = {"op": "w.new", "name": w, "cfg": e["from"], "over": self.over(over), "sink": self.sink(w)}
        if o["sink"] == "file":
            o["path"] = self.sinks[w]
        bad = ("fmt" in over and over["fmt"] not in (6, 7, 8)) or any(x["t"] > 30 for x in over.get("eb", []))
        if bad:
            return self.emit(o, e)
        acc = {}
        def f(r):
            acc["ok"] = r
            return []
        self.s.op(o, f)
        self.s.op({"op": "w.own", "name": w, "to": w})
        def g(r):
            ev = dict(e, event="Open", ok=acc["ok"]["ok"])
            ev.pop("op")
            if r["ok"]:
                ev["v"] = value("wr", r["c"])
            return [ev]
        self.s.op({"op": "cfg.get", "name": w}, g)
        self.created(w, "wr")
        self.pens[w] = True

    def sink(self, w):
        k = self.rng.choice(["mem", "mem", "file"])
        self.sinks[w] = os.path.join(self.c.dir, "%s-%d.out" % (w, self.rng.randrange(1 << 60))) if k == "file" else None
        return k

    def do_OpenLaz(self, e):
        w = e["n"]
        o = {"op": "lw.new", "name": w, "cfg": e["from"], "sink": self.sink(w)}
        if o["sink"] == "file":
            o["path"] = self.sinks[w]
        self.emit(o, e)
        self.s.must({"op": "lw.own", "name": w, "to": w})
        self.created(w, "lwr")
        self.pens[w] = True

    def do_Write(self, e):
        w = e["w"]
        self.nodes[w] = self.nodes.get(w, 0) + 1
        data = bytes(self.rng.randrange(256) for _ in range(5 + e["k"])).hex()
        o = {"op": "w.add" if self.wkind(w) == "wr" else "lw.add", "name": w, "comp": data, "n": e["k"]}
        if self.wkind(w) == "wr":
            i = self.nodes[w]
            o["k"] = [5, i % 32, i // 32, 0]
        self.emit(o, e)

    def wkind(self, w):
        return self.kind.get(w) or self.wk[w]

    def do_Finish(self, e):
        w, k = e["w"], self.kind[e["w"]]
        how = self.rng.choice(["close", "close", "destroy"])
        pre = "w." if k == "wr" else "lw."
        self.s.must({"op": pre + how, "name": w})
        if k == "wr":
            self.s.op({"op": "cfg.get", "name": w}, lambda r: [{"event": "Finish", "w": w, "root": [r["c"]["info"]["rootoff"], r["c"]["info"]["rootsize"]]}])
        else:
            self.s.op({"op": "lcfg.get", "name": w}, lambda r: [{"event": "Finish", "w": w, "root": [0, 0]}])
        pos = self.pos
        def f(r):
            try:
                m = meta(bytes.fromhex(r["hex"]))
            except Exception as x:
                return [{"event": "Unexpected", "op": "parse", "err": "%s: %s" % (type(x).__name__, x)}]
            pos[w] = m["h"]["pos"], m["info"]["root"]
            return [{"event": "File", "w": w, "m": m}]
        self.s.op({"op": "w.bytes", "name": w, "buf": "b" + w}, f)
        self.files[w] = k

    def do_Read(self, e):
        w, n, k = e["w"], e["n"], e["kind"]
        o = {"op": "r.open" if k == "cr" else "lr.open", "name": n}
        if self.sinks.get(w) and self.rng.random() < .6:
            o["path"] = self.sinks[w]
        else:
            o["buf"] = "b" + w
        self.s.must(o)
        pos = self.pos
        def f(r):
            if not r["ok"]:
                return [dict(event="Read", n=n, w=w, kind=k, ok=False, err=r["err"])]
            p = pos.get(w, ([0] * 5, [0, 0]))
            return [dict(event="Read", n=n, w=w, kind=k, ok=True, pos=p[0], copc=r["c"]["h"]["copc"], root=p[1])]
        self.s.op({"op": "r.cfg" if k == "cr" else "lr.cfg", "name": n, "to": n}, f)
        if self.rng.random() < .5:
            self.s.op({"op": "r.close" if k == "cr" else "lr.close", "name": n})
        self.created(n, k)

    def do_NewHeader(self, e):
        self.emit({"op": "hdr.new", "name": e["n"], "fmt": e["fmt"], "reclen": e["reclen"], "scale": self.v3(e["scale"]), "offset": self.v3(e["offset"]),
                   "copc": e["copc"]}, e)
        self.created(e["n"], "hdr")

    def do_TakeHeader(self, e):
        f = e["from"]
        if self.kind[f] == "hdr":
            self.emit({"op": "hdr.copy", "name": e["n"], "from": f, "how": "plain"}, e)
        else:
            self.emit(dict({"op": "hdr.of", "name": e["n"]}, **self.src(f)), e)
        self.created(e["n"], "hdr")

    def do_ModHeader(self, e):
        self.emit({"op": "hdr.copy", "how": "mod", "name": e["n"], "from": e["from"], "fmt": e["fmt"], "reclen": e["reclen"], "scale": self.v3(e["scale"]),
                   "offset": self.v3(e["offset"])}, e)
        self.created(e["n"], "hdr")

    def do_FlagHeader(self, e):
        self.emit({"op": "hdr.copy", "how": "flag", "name": e["n"], "from": e["from"], "copc": e["copc"]}, e)
        self.created(e["n"], "hdr")

    def do_NewExtents(self, e):
        self.emit({"op": "ext.new", "name": e["n"], "fmt": e["fmt"], "neb": e["neb"], "ext": e["on"]}, e)
        if e["fmt"] in (6, 7, 8):
            self.created(e["n"], "ext")

    def do_TakeExtents(self, e):
        f = e["from"]
        if self.kind[f] == "ext":
            self.emit({"op": "ext.copy", "name": e["n"], "from": f}, e)
        else:
            self.emit(dict({"op": "ext.of", "name": e["n"]}, **self.src(f)), e)
        self.created(e["n"], "ext")

    def do_DeriveExtents(self, e):
        self.emit({"op": "ext.copy", "name": e["n"], "from": e["from"], "fmt": e["fmt"], "neb": e["neb"], "ext": e["on"]}, e)
        if e["fmt"] in (6, 7, 8):
            self.created(e["n"], "ext")

    def do_ReadExtents(self, e):
        def enc(ps):
            return b"".join(struct.pack("<dd", *[RANKS[x] for x in p]) for p in ps).hex()
        o = {"op": "ext.fromvlr", "name": e["n"], "bytes": enc(e["ps"]), "fmt": e["fmt"], "neb": e["neb"], "ext": e["on"]}
        if e["stats"]:
            o["stats"] = enc(e["stats"])
        self.emit(o, e)
        n = L.DIMS[e["fmt"]] + e["neb"]
        if len(e["ps"]) == n and all(a <= b for a, b in e["ps"]) and (not e["stats"] or (e["on"] and len(e["stats"]) == n and all(v >= 0 for _, v in e["stats"]))):
            self.created(e["n"], "ext")

    def do_IntoConfig(self, e):
        self.emit({"op": "ext.into", "name": e["n"], "from": e["from"]}, e)

    def do_Parts(self, e):
        if e["kind"] == "cw":
            self.emit({"op": "cfg.parts", "name": e["n"], "hdr": e["hdr"], "ext": e["ext"], "info": {k: SCALARS[e["info"][k]] for k in INFO_FIELDS},
                       "wkt": WKTS[e["wkt"]], "eb": eb_json(e["eb"])}, e)
        else:
            self.emit({"op": "lcfg.parts", "name": e["n"], "hdr": e["hdr"], "wkt": WKTS[e["wkt"]], "eb": eb_json(e["eb"])}, e)
        self.created(e["n"], e["kind"])

    def do_Completed(self, e):
        self.emit({"op": "cfg.parts", "name": e["n"], "laz": e["laz"], "ext": e["ext"], "info": {k: SCALARS[e["info"][k]] for k in INFO_FIELDS}}, e)
        self.created(e["n"], "cw")

    def do_Drop(self, e):
        n = e["n"]
        self.s.op({"op": "drop", "name": n}, lambda r: [{"event": "Drop", "n": n}])
        del self.kind[n]

    def same(self, a=None, b=None):
        a, b = a or self.rng.choice(list(self.kind)), b or self.rng.choice(list(self.kind))
        self.s.op({"op": "same", "a": a, "b": b}, lambda r: [{"event": "Same", "a": a, "b": b, "eb": r["eb"], "ext": r["ext"]}])

    def history(self, h, often=.45):
        for e in h:
            self.do(e)
            if self.kind and self.rng.random() < .2:
                self.same()
            if self.rng.random() < often:
                self.show()
            if self.rng.random() < .1:
                x = [n for n, k in self.kind.items() if k == "ext"]
                if x:
                    self.pairs(self.rng.choice(x))
        self.show()
        for w, p in self.sinks.items():
            if p:
                self.s.op({"op": "w.destroy", "name": w})
                self.s.op({"op": "file.rm", "path": p})


DIMS = ["X", "Y", "Z", "Intensity", "ReturnNumber", "NumberOfReturns", "ScannerChannel", "ScanDirectionFlag", "EdgeOfFlightLine", "Classification",
        "UserData", "ScanAngle", "PointSourceId", "GpsTime", "Red", "Green", "Blue", "Nir", "ExtraBytes"]


def sessions(c, focus, num, depth):
    out = []
    for i, h in enumerate(c.behaviours("GenConfig", "GenConfig.cfg", num, depth + 2, Depth=depth, Focus='"%s"' % focus)):
        s = Session("%s history %d" % (focus, i))
        Store(c, s).history(h, 1 if focus == "derive" else .45)
        out.append(s)
    return out


def play(c, ss, label):
    c.play(ss, "TraceConfig", "TraceConfig.cfg", label=label)


def comparisons(c):
    """descriptions that differ in one byte, or not at all, are told apart or not"""
    s = Session("comparisons")
    st = Store(c, s)
    for k in sorted(ITEMS):
        st.do({"op": "New", "n": "a%d" % k, "kind": c.rng.choice(["cw", "lw"]), "fmt": 6, "scale": "v1", "offset": "zero", "wkt": "",
               "eb": [{"t": 9, "o": 0, "tok": k}], "on": False})
    for t, o in ((8, 0), (9, 1)):
        st.do({"op": "New", "n": "b%d" % t, "kind": "cw", "fmt": 6, "scale": "v1", "offset": "zero", "wkt": "", "eb": [{"t": t, "o": o, "tok": 2}], "on": False})
    for a in list(st.kind):
        for b in list(st.kind):
            st.same(a, b)
    return [s]


def C16(c):
    c.model("MCConfig", "MCConfig.cfg", workers=4)
    play(c, sessions(c, "all", c.pick(300, 3000), c.pick(24, 32)), "configurations")
    play(c, comparisons(c), "comparisons")
    play(c, sessions(c, "derive", c.pick(300, 3000), c.pick(20, 28)), "derivations")


def extent_constructors(c, copies=True):
    """every way to make an extent, over the whole palette"""
    out = []
    lens = [0, 1, 2, 3, 4, 5, 8]
    for k in lens:
        s = Session("extents of %d values" % k)
        for _ in range(60 if k in (2, 4) else 8):
            v = [c.rng.choice(list(RANKS)) for _ in range(k)]
            if k >= 2 and c.rng.random() < .6:
                v[:2] = sorted(v[:2])
            if k >= 4 and c.rng.random() < .5:
                v[3] = abs(v[3])
            for how in ["vec"] + (["args"] if k in (2, 4) else []) + (["copy"] if k == 4 and copies else []):
                s.op({"op": "extent.new", "how": how, "v": [L.bits(RANKS[x]) for x in v]},
                     lambda r, v=v: [{"event": "Extent", "v": v, "ok": r["ok"], "out": [rank(x) for x in r["v"]] if r["ok"] else []}])
        out.append(s)
    s = Session("sizes")
    for fmt in (-1, 0, 5, 6, 7, 8, 9, 127):
        for neb in (0, 1, 2, 300, 65535 - 40):
            s.op({"op": "ext.size", "fmt": fmt, "neb": neb},
                 lambda r, fmt=fmt, neb=neb: [{"event": "Size", "fmt": fmt, "neb": neb, "ok": r["ok"], "count": r.get("n", 0), "bytes": r.get("bytes", 0)}])
    return out + [s]


def every_dimension(c):
    """each dimension of each layout, one at a time: set, looked at through every accessor, stored and read back"""
    out = []
    for fmt in (6, 7, 8):
        for neb in (0, 1, 3):
            for on in (False, True):
                s = Session("dimensions of format %d with %d items" % (fmt, neb))
                st = Store(c, s)
                st.do({"op": "NewExtents", "n": "x", "fmt": fmt, "neb": neb, "on": on})
                for d in DIMS:
                    n = L.DIMS[fmt]
                    q = lambda: sorted(c.rng.sample(list(RANKS), 2)) + [c.rng.choice(list(RANKS)), c.rng.randrange(0, 5)]
                    st.do({"op": "SetExtent", "n": "x", "d": d, "val": [q() for _ in range(neb)] if d == "ExtraBytes" else q()})
                    for d2 in DIMS:
                        st.look("x", d2)
                    st.pairs("x")
                    st.show()
                for f2 in (6, 7, 8):
                    st.do({"op": "DeriveExtents", "n": "y%d" % f2, "from": "x", "fmt": f2, "neb": neb, "on": not on})
                st.do({"op": "TakeExtents", "n": "z", "from": "x"})
                st.show()
                out.append(s)
    return out


def C17(c):
    c.model("MCConfig", "MCConfig.cfg", workers=4)
    play(c, extent_constructors(c) + every_dimension(c), "extents, systematic")
    play(c, sessions(c, "ext", c.pick(350, 3000), c.pick(24, 32)), "extents")


def scaling(c, num):
    out = []
    rng = c.rng
    for i in range(num):
        s = Session("scaling %d" % i)
        if i % 2:
            den = [2 ** rng.randrange(0, 12) for _ in range(3)]
            off = [rng.randrange(-50000, 50001) for _ in range(3)]
            if i % 4 == 1:
                den = [rng.choice([1, 2, 4, 8])] * 3
            scale, offset = [1.0 / d for d in den], [float(o) for o in off]
        else:
            scale, offset = list(rng.choice(gen.SCALES)), list(rng.choice(gen.OFFSETS))
            den = off = None
        s.must({"op": "hdr.new", "name": "h", "fmt": 7, "reclen": 36, "scale": scale, "offset": offset, "copc": True})
        for _ in range(4):
            k = [rng.choice([0, 1, -1, 2**31 - 1, -2**31, rng.randrange(-10**6, 10**6)]) if not den else rng.randrange(-10**6, 10**6) for _ in range(3)]
            acc = {}
            def f1(r, k=k, den=den, off=off, acc=acc):
                acc["v"] = r
                if den:
                    return [{"event": "Scaled", "k": k, "off": off, "den": den, "out": [whole(L.unbits(x) * d) for x, d in zip(r[w], den)]}
                            for w in ("apply", "axyz")]
                return []
            s.op({"op": "hdr.scale", "name": "h", "v": [float(x) for x in k]}, f1)
            v = [x * a + b for x, a, b in zip(k, scale, offset)]
            def f2(r, k=k):
                ev = [{"event": "Scale", "k": k, "back": [near(L.unbits(x), t) for x, t in zip(r["inv"], k)]}]
                if "rxyz" in r:
                    ev.append({"event": "Scale", "k": k, "back": r["rxyz"]})
                return ev
            s.op({"op": "hdr.scale", "name": "h", "v": v, "r": v}, f2)
            if den:
                # coordinates of the same grain the other way round
                u = [rng.randrange(-10**6, 10**6) for _ in range(3)]
                s.op({"op": "hdr.scale", "name": "h", "v": [x / d for x, d in zip(u, den)]},
                     lambda r, u=u, off=off, den=den: [{"event": "Unscaled", "v": u, "off": off, "den": den, "out": [whole(L.unbits(x)) for x in r["inv"]]}])
        out.append(s)
    return out


def whole(x):
    return int(x) if x == int(x) and abs(x) < 2**31 else 2147483000


def near(x, t):
    return t if abs(x - t) < 1e-3 else whole(round(x))


def bounds(c, num):
    """points met one after the other, in units of a quarter"""
    out = []
    rng = c.rng
    for i in range(num):
        s = Session("bounds %d" % i)
        s.must({"op": "hdr.new", "name": "h", "fmt": 6, "reclen": 30, "scale": [1.0, 1.0, 1.0], "offset": [0.0] * 3, "copc": True})
        lo = [rng.randrange(-40, 41) for _ in range(3)]
        hi = [x + rng.randrange(0, 20) for x in lo]
        if i % 3 == 0:
            lo, hi = [2000] * 3, [-2000] * 3      # nothing met yet
        elif i % 3 == 1:
            lo, hi = [0] * 3, [0] * 3
        s.must({"op": "hdr.set", "name": "h", "set": {"min": [x / 4 for x in lo], "max": [x / 4 for x in hi]}})
        s.must({"op": "pt.new", "name": "p", "fmt": 6, "eb": 0})
        st = {"lo": lo, "hi": hi}
        for _ in range(6):
            p = [rng.randrange(-60, 61) for _ in range(3)]
            for a, v in zip("XYZ", p):
                s.must({"op": "pt.set", "name": "p", "attr": a, "v": L.bits(v / 4)})
            s.must({"op": "hdr.bounds", "name": "h", "pt": "p"})
            acc = {}
            def f1(r, acc=acc):
                acc["h"] = r["h"]
                return []
            def f2(r, p=p, st=st, acc=acc):
                q = lambda v: [whole(L.unbits(x) * 4) for x in v]
                mn, mx = q(acc["h"]["min"]), q(acc["h"]["max"])
                b = [L.unbits(x) * 4 for x in r["bounds"]] if r["ok"] else None
                ev = {"event": "Bounds", "min": st["lo"], "max": st["hi"], "pt": p, "min2": mn, "max2": mx,
                      "span": whole(L.unbits(r["span"]) * 4) if r["ok"] else -1,
                      "box": [[whole(x) for x in b[:3]], [whole(x) for x in b[3:]]] if b else []}
                st["lo"], st["hi"] = mn, mx
                return [ev]
            s.op({"op": "hdr.get", "name": "h"}, f1)
            s.op({"op": "hdr.span", "name": "h"}, f2)
        out.append(s)
    return out


def C18(c):
    c.model("MCConfig", "MCConfig.cfg", workers=4)
    for _ in range(c.pick(1, 5)):      # one after the other: their traces are large
        play(c, sessions(c, "file", c.pick(300, 400), c.pick(30, 40)), "file metadata")
    play(c, scaling(c, c.pick(120, 1200)) + bounds(c, c.pick(60, 500)), "scaling and bounds")
