"""Points and collections: spec/PointStore.tla, traces in spec/TracePoints.tla."""
import math, struct
from fractions import Fraction
from lib import gen, lasfile as L
from lib.ctx import Session

I32 = (-2**31, 2**31 - 1)
RAW = gen.RAW
BOOLS = ["Synthetic", "KeyPoint", "Withheld", "Overlap", "ScanDirectionFlag", "EdgeOfFlightLineFlag"]
NAN = float("nan")


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def around(ideal, err, lo, hi):
    """integers that are nearest to a number known up to err -> (those in range, whether one out of range is among them)"""
    a = math.ceil(ideal - Fraction(1, 2) - err)
    b = math.floor(ideal + Fraction(1, 2) + err)
    if b - a > 40:
        return [], True
    s = range(a, b + 1)
    return [n for n in s if lo <= n <= hi], any(n < lo or n > hi for n in s)


def steps(v, scale, offset):
    """the stored integers nearest to a coordinate, as tokens, and whether storing it may fail"""
    if math.isnan(v) or math.isinf(v):
        return [], True
    ideal = (Fraction(v) - Fraction(offset)) / Fraction(scale)
    if abs(ideal) > 2**40:
        return [], True
    err = (abs(Fraction(v)) + abs(Fraction(offset))) / 2**52 / abs(Fraction(scale)) + abs(ideal) / 2**51
    n, out = around(ideal, err, *I32)
    return [str(x) for x in n], out


def degrees(v):
    """-> steps nearest to an angle given in degrees, or None when it is too close to what can be stored at all"""
    v = f32(v)
    if math.isnan(v) or math.isinf(v) or abs(v) > 1e6:
        return []
    n, out = around(Fraction(v) / Fraction(6, 1000), Fraction(1, 100), -32768, 32767)
    return None if n and out else n


def view(p):
    """a dumped point, with the angle in degrees as steps"""
    d = L.unbits(p["ScanAngleDegrees"])
    st = round(d / 0.006) if abs(d) < 1e6 else 10**9
    q = {k: v for k, v in p.items() if k != "ScanAngleDegrees"}
    q["degrees"] = st if abs(d - 0.006 * st) <= 1e-4 else 10**9
    for b in BOOLS:
        q[b] = int(q[b])
    q["ExtraBytes"] = gen.short(q["ExtraBytes"])
    return q


COORDS = [0, 1, 3, -2, 30, 1000, -1000, 5000000, 10000000, -70000000, 990000000]


def coord(rng):
    q = max(-1000000000, min(1000000000, rng.choice(COORDS) + rng.choice([0, 0, 0, 1, 3, -2, 30, 1000])))
    return {"v": L.bits(q / 1e7), "q": q}


def u(rng, b):
    return rng.choice([0, 1, (1 << b) - 1, 1 << (b - 1), rng.randrange(1 << b)])


def value(rng, a, eb):
    """-> (for the driver, for the specification)"""
    if a in "XYZ":
        c = coord(rng)
        return c["v"], c
    if a in ("Intensity", "PointSourceId", "Red", "Green", "Blue", "Nir"):
        v = u(rng, 16)
        return v, v
    if a in ("ReturnNumber", "NumberOfReturns"):
        v = rng.choice([rng.randrange(16), rng.randrange(16), 0, 15, 16, 17, 31, 32, 128, 240, 255])
        return v, v
    if a == "ScannerChannel":
        v = rng.choice([0, 1, 2, 3, 3, 4, 5, 8, 128, 255])
        return v, v
    if a in BOOLS:
        v = rng.randrange(2)
        return v, v
    if a == "ScanAngle":
        v = rng.choice([-32768, 32767, 0, 1, -1, 30000, -30000, rng.randrange(-32768, 32768)])
        return v, v
    if a == "ScanAngleDegrees":
        while True:
            d = rng.choice([rng.randrange(-32767, 32767) * 0.006 + rng.choice([0, 0.002, -0.002]), 45.0, -180.0, 180.0, 90.3, 0.0, 196.9, -197.1, 1000.0, 1e30,
                            NAN, math.inf, -math.inf])
            s = degrees(d)
            if s is not None:
                return L.bits(d), s
    if a == "GPSTime":
        v = L.bits(rng.choice([0.0, 1.5, -1e9, 123456789.123456, 1e300, math.inf, rng.uniform(-1e9, 1e9)]))
        return v, v
    if a == "Rgb":
        v = [u(rng, 16) for _ in range(3)]
        return v, v
    if a == "RgbVec":
        v = [u(rng, 16) for _ in range(rng.choice([3, 3, 3, 0, 1, 2, 4, 6]))]
        return v, v
    if a == "ExtraBytes":
        n = rng.choice([eb, eb, eb, eb, 0, 1, eb + 1, 200])
        h = bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(n)).hex()
        return h, [gen.short(h), n]
    v = u(rng, 8)
    return v, v


class Store:
    """plays a generated history and remembers what the calls were about"""

    def __init__(self, c, s):
        self.c, self.rng, self.s = c, c.rng, s
        self.eb = {}      # name -> number of extra bytes, as far as the harness needs it to choose values
        self.live, self.cols, self.size, self.seen = set(), {}, {}, []

    def on(self, event, **kw):
        # a None in kw is taken from the result
        def f(r):
            e = dict(kw, event=event, ok=r["ok"])
            return [e]
        return f

    def sure(self, event, **kw):
        """a call that can't be refused"""
        def f(r):
            return [dict(kw, event=event)] if r["ok"] else [{"event": "Unexpected", "what": event, "err": r["err"]}]
        return f

    def header(self, fmt, eb):
        self.s.must({"op": "hdr.new", "name": "h", "fmt": fmt, "reclen": L.BASE[fmt] + eb, "scale": [0.01, 0.01, 0.01], "offset": [0, 0, 0], "copc": True})

    def zeros(self, eb):
        return gen.short("00" * eb)

    def get(self, n):
        self.s.op({"op": "pt.get", "name": n}, lambda r: [{"event": "Get", "n": n, "g": view(r["p"])} if r["ok"] else {"event": "Unexpected", "err": r["err"]}])

    def getcol(self, c):
        self.s.op({"op": "pts.get", "name": c}, lambda r: [
            {"event": "Col", "c": c, "fmt": r["p"]["fmt"], "reclen": r["p"]["reclen"], "eb": r["p"]["eb"], "n": r["p"]["n"], "pts": [view(p) for p in r["p"]["pts"]]} if r["ok"] else
            {"event": "Unexpected", "err": r["err"]}])

    def look(self, pts=True):
        for n in sorted(self.live):
            self.get(n)
        for c in sorted(self.cols):
            self.getcol(c)

    def box(self):
        b = [[], []]
        for _ in range(3):
            x = sorted([coord(self.rng)["q"], coord(self.rng)["q"]])
            if self.rng.random() < .6:
                x = [-1000000001, 1000000001] if self.rng.random() < .5 else [x[0], 1000000001]
            b[0].append(x[0])
            b[1].append(x[1])
        q = b[0] + b[1]
        return [L.bits(v / 1e7) for v in q], q

    def step(self, e):
        s, rng, op = self.s, self.rng, e["op"]
        n, c, ns = e.get("n"), e.get("c"), e.get("ns")
        z = self.zeros
        if op in ("new", "newbad"):
            hdr = op == "new" and rng.random() < .3
            if hdr:
                self.header(e["fmt"], e["eb"])
            s.op({"op": "pt.newh", "name": n, "hdr": "h"} if hdr else {"op": "pt.new", "name": n, "fmt": e["fmt"], "eb": e["eb"]},
                 self.on("New", n=n, fmt=e["fmt"], eb=e["eb"], zeros=z(e["eb"])))
            if op == "new":
                self.live.add(n)
                self.eb[n] = e["eb"]
        elif op in ("copy", "alias"):
            s.op({"op": "pt." + op, "name": n, "from": e["m"]}, self.sure(op.capitalize(), n=n, m=e["m"]))
            self.live.add(n)
            self.eb[n] = self.eb[e["m"]]
        elif op == "set":
            d, v = value(rng, e["a"], self.eb[n])
            a = {"RgbVec": "Rgb"}.get(e["a"], e["a"])
            s.op({"op": "pt.set", "name": n, "attr": e["a"], "v": d}, self.on("Set", n=n, a=a, v=v))
        elif op in ("convert", "convbad"):
            s.op({"op": "pt.convert", "name": n, "fmt": e["fmt"]}, self.on("Convert", n=n, fmt=e["fmt"]))
        elif op == "eq":
            m = e["m"]
            if rng.random() < .4:  # a near copy
                m = "s"
                s.op({"op": "pt.copy", "name": m, "from": n}, self.sure("Copy", n=m, m=n))
                if rng.random() < .8:
                    a = rng.choice(["X", "Y", "Z", "Intensity", "ReturnsBitField", "FlagsBitField", "Classification", "UserData", "ScanAngle", "PointSourceId", "GPSTime",
                                    "Red", "Green", "Blue", "Nir", "ExtraBytes"] + ["X", "Y", "Z"])
                    d, v = value(rng, a, self.eb[n])
                    s.op({"op": "pt.set", "name": m, "attr": a, "v": d}, self.on("Set", n=m, a=a, v=v))
                self.live.add(m)
                self.eb[m] = self.eb[n]
                self.get(m)
            a, b = rng.choice([(n, m), (m, n)])
            s.op({"op": "pt.eq", "a": a, "b": b}, lambda r: [{"event": "Eq", "a": a, "b": b, "v": r["v"], "ne": r["n"]}])
            bx, q = self.box()
            s.op({"op": "pt.within", "name": n, "box": bx}, lambda r: [{"event": "Inside", "n": n, "box": q, "v": r["v"]}])
        elif op in ("cnew", "cnewbad"):
            hdr = op == "cnew" and rng.random() < .3
            if hdr:
                self.header(e["fmt"], e["eb"])
            s.op({"op": "pts.newh", "name": c, "hdr": "h"} if hdr else {"op": "pts.new", "name": c, "fmt": e["fmt"], "eb": e["eb"]},
                 self.on("ColNew", c=c, fmt=e["fmt"], eb=e["eb"]))
            if op == "cnew":
                self.cols[c] = e["eb"]
        elif op == "cof":
            s.op({"op": "pts.newv", "name": c, "pts": ns}, self.on("ColOf", c=c, ns=ns))
            self.maybe_new = c
            if ns and e.get("fit"):
                self.cols[c] = self.eb[ns[0]]
        elif op == "add":
            s.op({"op": "pts.add", "name": c, "pt": ns[0]}, self.on("Add", c=c, ns=ns))
        elif op == "addv":
            s.op({"op": "pts.addv", "name": c, "pts": ns}, self.on("Add", c=c, ns=ns))
        elif op == "addc":
            s.op({"op": "pts.addpts", "name": c, "from": e["d"]}, self.on("AddCol", c=c, d=e["d"]))
        elif op == "create":
            s.op({"op": "pts.create", "name": c, "pt": n}, self.sure("Create", c=c, n=n, zeros=z(self.cols[c])))
            self.live.add(n)
            self.eb[n] = self.cols[c]
        elif op == "take":
            s.op({"op": "pts.at", "name": c, "i": e["i"] - 1, "pt": n},
                 lambda r: [{"event": "Take", "c": c, "i": e["i"], "n": n, "same": r["same"]}] if r["ok"] else [{"event": "Unexpected", "err": r["err"]}])
            self.live.add(n)
            self.eb[n] = self.cols[c]
        elif op == "put":
            s.op({"op": "pts.put", "name": c, "i": e["i"] - 1, "pt": n}, self.sure("Put", c=c, i=e["i"], n=n))
        elif op == "item":
            s.op({"op": "pts.item", "name": c, "i": e["i"], "pt": n}, lambda r: [{"event": "Item", "c": c, "i": e["i"], "n": n, "ok": r["ok"], "same": r.get("same", False)}])
            if e["in"]:
                self.live.add(n)
                self.eb[n] = self.cols[c]
        elif op == "putitem":
            s.op({"op": "pts.put", "name": c, "i": e["i"], "pt": n}, self.on("PutItem", c=c, i=e["i"], n=n))
        elif op == "slice":
            s.op({"op": "pts.slice", "name": c, "from": e["d"], "i": e["sl"]}, self.on("Slice", c=c, d=e["d"], sl=e["sl"]))
            if e["sl"][2] != [0]:
                self.cols[c] = self.cols[e["d"]]
        elif op == "putslice":
            s.op({"op": "pts.putslice", "name": c, "from": e["d"], "i": e["sl"]}, self.on("PutSlice", c=c, d=e["d"], sl=e["sl"]))
        elif op == "has":
            s.op({"op": "pts.has", "name": c, "pt": n}, lambda r: [{"event": "Has", "c": c, "p": n, "v": r["v"], "n": r["n"]}] if r["ok"] else [{"event": "Unexpected", "err": r["err"]}])
        elif op in ("cconv", "cconvbad"):
            s.op({"op": "pts.convert", "name": c, "fmt": e["fmt"]}, self.on("ConvertAll", c=c, fmt=e["fmt"]))
        elif op == "bulk":
            vs = [value(rng, e["a"], 0) for _ in range(e["n"])]
            s.op({"op": "pts.setbulk", "name": c, "attr": e["a"], "v": [d for d, _ in vs]}, self.on("Bulk", c=c, a=e["a"], vs=[v for _, v in vs]))
            for a in {e["a"], rng.choice(["X", "Y", "Z", "Classification", "PointSourceId", "Red", "Green", "Blue"])}:
                s.op({"op": "pts.getbulk", "name": c, "attr": a}, lambda r, a=a: [{"event": "BulkGet", "c": c, "a": a, "ok": r["ok"], "vs": r.get("v", [])}])
        elif op == "within":
            bx, q = self.box()
            s.op({"op": "pts.within", "name": c, "box": bx}, lambda r: [{"event": "Within", "c": c, "box": q, "all": r["all"], "idx": r["idx"]}]
                 if r["ok"] else [{"event": "Unexpected", "err": r["err"]}])


def store_sessions(c, num, depth, wcol, wseq=0):
    out = []
    for i, h in enumerate(c.behaviours("GenPoints", "GenPoints.cfg", num, depth + 3, Depth=depth, WCol=wcol, WSeq=wseq)):
        s = Session("points %d" % i)
        st = Store(c, s)
        for e in h:
            st.step(e)
            st.look()
        out.append(s)
    return out


def C09(c):
    c.model("MCPoints", c.pick("MCPointsQ.cfg", "MCPoints.cfg"), workers=8)
    c.assumptions += ["coordinates in equality tests differ by at most 0.9 or at least 1.1 millionths", "not-a-number GPS times are never compared"]
    c.play(store_sessions(c, c.pick(500, 6000), c.pick(16, 30), 0), "TracePoints", "TracePoints.cfg", label="point attributes")


def C10(c):
    c.model("MCPoints", c.pick("MCPointsQ.cfg", "MCPoints.cfg"), workers=8)
    c.assumptions += ["members aren't converted or replaced by misfits behind a collection's back"]
    c.play(store_sessions(c, c.pick(400, 4000), c.pick(18, 30), 75), "TracePoints", "TracePoints.cfg", label="collections")


# ------------------------------------------------------------ C08
SC = [0.01, 0.001, 1.0, 0.25, 1e-7, 0.0025, 3.0, 1 / 3, 1e5, 1e-9, 0.1, 7e-4]
OF = [0.0, 0.0, 1000.0, -2000.0, 350000.5, 4000000.25, -1e6 / 3, 0.1, 1e7]
DBL = ["0000000000000000", "8000000000000000", "7ff0000000000000", "fff0000000000000", "7ff8000000000000", "7ff0000000000001", "fff4dead00beef01", "0000000000000001",
       "3ff0000000000000", "41d2a05f20000000"]


def random_record(rng, fmt, eb):
    n = L.BASE[fmt] + eb
    how = rng.randrange(4)
    b = bytearray(rng.randrange(256) for _ in range(n)) if how < 2 else bytearray(rng.choice([0, 255, 128, 127, 1]) for _ in range(n))
    if how == 2:
        b = bytearray([rng.choice([0, 255])] * n)
        b[rng.randrange(n)] ^= 1 << rng.randrange(8)
    for i in range(3):
        if rng.random() < .4:
            b[4 * i:4 * i + 4] = struct.pack("<i", rng.choice([0, 1, -1, I32[0], I32[1], rng.randrange(-10**6, 10**6)]))
    if rng.random() < .5:
        b[22:30] = bytes.fromhex(rng.choice(DBL))[::-1]
    return bytes(b)


def raw_of(r):
    o = {k: r[k] for k in RAW}
    o["GPSTime"] = "b:" + r["GPSTime"]
    for k in ("Red", "Green", "Blue", "Nir"):
        o[k] = r.get(k, -1)
    o["ExtraBytes"] = gen.short(r["ExtraBytes"].hex())
    return o


def in_ulps(x, want, size):
    if math.isnan(x) or math.isinf(x):
        return 10**9
    d = (Fraction(x) - want) / Fraction(math.ulp(size))
    return max(-10**9, min(10**9, math.ceil(d) if d > 0 else math.floor(d)))


def unpack_session(c, s, fmt, eb, scale, offset, data, pick):
    rng = c.rng
    n = L.BASE[fmt] + eb
    whole = len(data) % n == 0
    rows = L.unpack_rows(data, fmt, eb) if whole else []

    def seen(ps):
        out = []
        for p, r in zip(ps, rows):
            v = view(p)
            v["off"] = []
            for i, a in enumerate("XYZ"):
                want = r[a] * Fraction(scale[i]) + Fraction(offset[i])
                v["off"].append(in_ulps(L.unbits(p[a]), want, max(abs(float(r[a] * Fraction(scale[i]))), abs(offset[i]), 1e-300)))
            out.append(v)
        return out

    def event(ok, ps):
        return [{"event": "Unpack", "fmt": fmt, "eb": eb, "whole": whole, "ok": ok, "tol": 4, "raw": [raw_of(r) for r in rows],
                 "pts": (seen(ps) if len(ps) == len(rows) else [0] * len(ps))}]
    hd = {"op": "hdr.new", "name": "h", "fmt": fmt, "reclen": n, "scale": scale, "offset": offset, "copc": True}
    lay = {"fmt": fmt, "eb": eb, "scale": scale, "offset": offset}

    def packed(r):
        return [{"event": "Repack", "ok": r["ok"], "same": r.get("same", True), "bytes": gen.short(data.hex()), "out": gen.short(r.get("bytes", "none"))}]
    if pick == "one":
        state = {}
        s.op(dict({"op": "pt.unpack", "name": "p", "bytes": data.hex()}, **lay), lambda r: [] if r["ok"] else [{"event": "Unexpected", "err": r["err"]}])
        s.op({"op": "pt.get", "name": "p"}, lambda r: event(True, [r["p"]]))
        s.op({"op": "pt.pack", "name": "p", "scale": scale, "offset": offset}, packed)
        return
    s.must(hd)
    if pick == "hdr":
        s.op({"op": "pts.unpack", "name": "c", "bytes": data.hex(), "hdr": "h"}, lambda r: [] if r["ok"] else event(False, []))
    else:
        s.op(dict({"op": "pts.unpack", "name": "c", "bytes": data.hex()}, **lay), lambda r: [] if r["ok"] else event(False, []))
    if whole:
        s.op({"op": "pts.get", "name": "c"}, lambda r: event(True, r["p"]["pts"]))
        s.op({"op": "pts.pack", "name": "c", "scale": scale, "offset": offset} if rng.random() < .5 else {"op": "pts.pack", "name": "c", "hdr": "h"}, packed)
    else:
        # accepted although it isn't whole records: the specification will not have it
        s.op({"op": "pts.get", "name": "c"}, lambda r: [])


def layout(rng):
    """scale and offset whose coordinates determine the step they came from"""
    sc = [rng.choice(SC) for _ in range(3)]
    return sc, [rng.choice([o for o in OF if abs(o) / x < 1e14]) for x in sc]


def hard_coord(rng, scale, offset):
    k = rng.choice([0, 1, -1, I32[0], I32[1], I32[1] + 1, I32[0] - 1, rng.randrange(*I32), rng.randrange(*I32), rng.randrange(-1000, 1000), 2**32, -2**40, 2**31 + 5, 2**63])
    f = rng.choice([0, 0, 0.25, 0.4, 0.49, 0.5, 0.51, 0.6, 0.75, -0.3, -0.5, -0.7])
    v = (k + f) * scale + offset
    return rng.choice([v] * 12 + [NAN, math.inf, -math.inf, 1e300, -1e300, 5e-324, -0.0, math.nextafter(v, 1e9), math.nextafter(v, -1e9)])


def pack_session(c, s, fmt, eb, scale, offset, n):
    rng = c.rng
    cfg = gen.Config(rng, fmt=fmt, eb=[])
    rows, near, may, drv = [], [], [], []
    for _ in range(n):
        r = gen.row(rng, fmt, eb)
        xyz = [hard_coord(rng, scale[i], offset[i]) if rng.random() < .5 else rng.randrange(-10**6, 10**6) * scale[i] + offset[i] for i in range(3)]
        st = [steps(xyz[i], scale[i], offset[i]) for i in range(3)]
        near.append([a for a, _ in st])
        may.append([b for _, b in st])
        a = [[k, L.bits(xyz[i])] for i, k in enumerate("XYZ")]
        a += [[k, r[k]] for k in RAW]
        a.append(["GPSTime", L.bits(r["GPSTime"])])
        a += [[k, r[k]] for k in ("Red", "Green", "Blue", "Nir") if k in r]
        if eb:
            a.append(["ExtraBytes", r["ExtraBytes"].hex()])
        drv.append(a)
        rows.append(raw_of(dict(r, GPSTime=L.bits(r["GPSTime"])[2:])))
    s.must({"op": "pts.make", "name": "c", "fmt": fmt, "eb": eb, "rows": drv})
    s.must({"op": "hdr.new", "name": "h", "fmt": fmt, "reclen": L.BASE[fmt] + eb, "scale": scale, "offset": offset, "copc": False})

    def packed(r):
        e = {"event": "Pack", "ok": r["ok"], "same": r.get("same", True), "near": near, "may": may, "rows": rows, "raw": []}
        if r["ok"]:
            b = bytes.fromhex(r["bytes"])
            if len(b) % (L.BASE[fmt] + eb):
                return [{"event": "Unexpected", "what": "partial record"}]
            e["raw"] = [dict(raw_of(x), steps=[str(x[a]) for a in "XYZ"]) for x in L.unpack_rows(b, fmt, eb)]
        return [e]
    s.op({"op": "pts.pack", "name": "c", "scale": scale, "offset": offset} if rng.random() < .6 else {"op": "pts.pack", "name": "c", "hdr": "h"}, packed)


def scale_ops(c, s, num):
    rng = c.rng
    for _ in range(num):
        sc, of = rng.choice(SC), rng.choice(OF)
        x = hard_coord(rng, sc, of)
        near, may = steps(x, sc, of)

        def f(r, near=near, may=may, i=None):
            return [{"event": "RemoveScale", "ok": r["ok"], "v": (str(r["v"]) if i is None else str(r["rxyz"][i])) if r["ok"] else "", "near": near, "may": may}]
        if rng.random() < .5:
            s.op({"op": "las.scale", "s": L.bits(sc), "o": L.bits(of), "x": L.bits(x)}, f)
        else:
            i = rng.randrange(3)
            v = [of] * 3
            v[i] = x
            s.must({"op": "hdr.new", "name": "h", "fmt": 6, "reclen": 30, "scale": [sc] * 3, "offset": [of] * 3, "copc": False})
            s.op({"op": "hdr.scale", "name": "h", "r": [L.bits(q) for q in v]}, lambda r, f=f, i=i: f(r, i=i))
        k = rng.choice([0, 1, -1, I32[0], I32[1], rng.randrange(*I32)])
        want = k * Fraction(sc) + Fraction(of)
        s.op({"op": "las.scale", "s": L.bits(sc), "o": L.bits(of), "i": k}, lambda r, want=want, m=max(abs(k * sc), abs(of), 1e-300): [
            {"event": "ApplyScale", "tol": 4, "off": in_ulps(L.unbits(r["v"]), want, m)}])


def C08(c):
    c.model("MCPoints", "MCPointsQ.cfg", workers=8)
    rng = c.rng
    out = []
    s = Session("formats")
    for f in list(range(-3, 14)) + [127, -128, 70, 134 - 256]:
        for ebs in (0, 1, 255, 256, 3000):
            ln = {6: 30, 7: 36, 8: 38}.get(f, 30) + ebs

            def g(r, f=f, ebs=ebs, ln=ln):
                keys = ("base", "dims", "rgb", "nir", "eb", "size")
                e = {"event": "FormatInfo", "fmt": f, "ebs": ebs, "len": ln, "failed": sum(r[k] == "error" for k in keys)}
                e.update({k: r[k] for k in keys})
                return [e]
            s.op({"op": "fmt.info", "fmt": f, "len": ln, "ebs": ebs}, g)
    out.append(s)
    for i in range(c.pick(300, 4000)):
        s = Session("records %d" % i)
        for _ in range(3):
            fmt, eb = rng.choice([6, 7, 8]), rng.choice([0, 0, 1, 2, 7, 30, 230, 300])
            sc, of = layout(rng)
            k = rng.choice([0, 1, 1, 2, 3, 5])
            pick = rng.choice(["one", "hdr", "lay"])
            data = b"".join(random_record(rng, fmt, eb) for _ in range(1 if pick == "one" else k))
            if pick != "one" and rng.random() < .2:
                data = data[:-1] if data and rng.random() < .5 else data + bytes(rng.randrange(1, L.BASE[fmt]))
            unpack_session(c, s, fmt, eb, sc, of, data, pick)
            pack_session(c, s, fmt, eb, [rng.choice(SC) for _ in range(3)], of, rng.choice([0, 1, 1, 2, 4]))
        scale_ops(c, s, 4)
        out.append(s)
    c.assumptions += ["scales are positive, offsets at most 1e14 steps away where records have to come back unchanged", "where the exact quotient is a tie or within rounding error of one, either neighbour is accepted"]
    c.play(out, "TracePoints", "TracePoints.cfg", label="records")
