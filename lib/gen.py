"""Generators of configurations, keys, point rows and blocks, and their driver forms."""
import hashlib, random
from . import lasfile as L

I32 = [-2**31, -2**31 + 1, -1, 0, 1, 2**31 - 2, 2**31 - 1]
SCALES = [[0.01, 0.01, 0.01], [0.001, 0.01, 0.1], [1.0, 1.0, 1.0], [0.25, 0.5, 0.125], [0.0025, 0.001, 0.5]]
OFFSETS = [[0.0, 0.0, 0.0], [1000.0, -2000.0, 50.5], [350000.5, 4000000.25, -100.0]]


def short(h):
    """strings in traces are compared only: long ones are replaced by a digest"""
    return h if len(h) <= 64 else "h:" + hashlib.sha1(h.encode()).hexdigest()


def eb_items(rng, kind=None):
    kind = kind or rng.choice(["none", "none", "one", "few", "few", "opaque", "wide", "zero"])
    def item(t, o=0):
        e = {"t": t, "o": o, "n": "".join(rng.choice("abcxyz_ 09") for _ in range(rng.choice([1, 5, 31, 32]))).strip() or "n",
             "d": "".join(rng.choice("defg hij") for _ in range(rng.choice([0, 7, 31, 32]))).strip()}
        if rng.random() < .5:
            for k in ("nd", "mn", "mx", "sc", "of"):
                e[k] = [L.bits(rng.choice([0.0, 1.0, -2.5, 1e300, 0.01])) for _ in range(3)]
        else:
            for k in ("nd", "mn", "mx", "sc", "of"):
                e[k] = [L.bits(0.0)] * 3
        return e
    if kind == "none":
        return []
    if kind == "one":
        return [item(rng.randrange(1, 31))]
    if kind == "few":
        return [item(rng.randrange(1, 31)) for _ in range(rng.randrange(2, 5))]
    if kind == "opaque":
        return [item(0, rng.choice([1, 2, 5, 17])), item(rng.randrange(1, 11))]
    if kind == "wide":
        return [item(0, 200), item(0, rng.choice([30, 100, 255])), item(10)]
    return [item(0, 0)]


WKT = 'PROJCS["x",GEOGCS["y"],UNIT["metre",1]]'


class Config:
    def __init__(self, rng, copc=True, fmt=None, eb=None, plain=False):
        self.copc = copc
        self.fmt = fmt or rng.choice([6, 7, 8])
        self.eb = eb if eb is not None else ([] if plain else eb_items(rng))
        self.scale = rng.choice(SCALES)
        self.offset = rng.choice(OFFSETS)
        self.wkt = "" if plain else rng.choice(["", "", WKT, WKT * 20])
        self.ext = copc and not plain and rng.random() < .4
        self.ebb = L.eb_bytes(self.eb)
        self.reclen = L.BASE[self.fmt] + self.ebb

    def spec(self):
        return {"copc": self.copc, "fmt": self.fmt, "ebitems": len(self.eb), "ebbytes": self.ebb, "ext": bool(self.ext), "wkt": len(self.wkt)}

    def new(self, name="c"):
        o = {"op": "cfg.new" if self.copc else "lcfg.new", "name": name, "fmt": self.fmt, "scale": self.scale, "offset": self.offset,
             "wkt": self.wkt.encode("latin1").hex(), "eb": self.eb}
        if self.copc:
            o["ext"] = bool(self.ext)
        return o


def row(rng, fmt, eb, wild=True):
    def u(b):
        return rng.choice([0, 1, (1 << b) - 1, rng.randrange(1 << b)])
    r = {k: (rng.choice(I32) if wild and rng.random() < .2 else rng.randrange(-100000, 100000)) for k in "XYZ"}
    r.update(Intensity=u(16), ReturnsBitField=u(8), FlagsBitField=u(8), Classification=u(8), UserData=u(8),
             ScanAngle=rng.choice([-32768, 32767, 0, -1, rng.randrange(-30000, 30001)]), PointSourceId=u(16),
             GPSTime=rng.choice([0.0, 1.5, -1e9, 123456789.123456, 1e300]))
    if fmt >= 7:
        r.update(Red=u(16), Green=u(16), Blue=u(16))
    if fmt == 8:
        r["Nir"] = u(16)
    r["ExtraBytes"] = bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(eb))
    return r


def rows(rng, c, n, wild=True):
    return [row(rng, c.fmt, c.ebb, wild) for _ in range(n)]


def block(rs, c):
    return b"".join(L.pack_row(r, c.fmt, c.ebb) for r in rs)


def coord(step, scale, offset):
    return step * scale + offset


def pts_rows(rs, c):
    """rows as attribute lists for the driver's pts.make"""
    out = []
    for r in rs:
        a = [[k, L.bits(coord(r[k], c.scale[i], c.offset[i]))] for i, k in enumerate("XYZ")]
        for k in ("Intensity", "ReturnsBitField", "FlagsBitField", "Classification", "UserData", "ScanAngle", "PointSourceId"):
            a.append([k, r[k]])
        a.append(["GPSTime", L.bits(r["GPSTime"])])
        if c.fmt >= 7:
            a += [["Red", r["Red"]], ["Green", r["Green"]], ["Blue", r["Blue"]]]
        if c.fmt == 8:
            a.append(["Nir", r["Nir"]])
        if c.ebb:
            a.append(["ExtraBytes", r["ExtraBytes"].hex()])
        out.append(a)
    return out


def make_pts(name, rs, c):
    return {"op": "pts.make", "name": name, "fmt": c.fmt, "eb": c.ebb, "rows": pts_rows(rs, c)}


# ---- one token per point: every attribute of it
def token(steps, v, gps, red, green, blue, nir, eb):
    return short(",".join(str(x) for x in list(steps) + list(v) + [gps, red, green, blue, nir, eb]))


RAW = ["Intensity", "ReturnsBitField", "FlagsBitField", "Classification", "UserData", "ScanAngle", "PointSourceId"]


def tokens_of_block(data, fmt, ebb):
    return [token([r["X"], r["Y"], r["Z"]], [r[k] for k in RAW], r["GPSTime"], r.get("Red", -1), r.get("Green", -1), r.get("Blue", -1),
                  r.get("Nir", -1), r["ExtraBytes"].hex()) for r in L.unpack_rows(data, fmt, ebb)]


def step(x, scale, offset):
    v = L.unbits(x) if isinstance(x, str) else x
    try:
        return round((v - offset) / scale)
    except (ValueError, OverflowError):
        return "none"


def consistent(p):
    """the packed bit fields and the single flags of a dumped point agree"""
    r, f = p["ReturnsBitField"], p["FlagsBitField"]
    return (p["ReturnNumber"] == r & 15 and p["NumberOfReturns"] == r >> 4 and p["Synthetic"] == f & 1 and p["KeyPoint"] == f >> 1 & 1
            and p["Withheld"] == f >> 2 & 1 and p["Overlap"] == f >> 3 & 1 and p["ScannerChannel"] == f >> 4 & 3
            and p["ScanDirectionFlag"] == f >> 6 & 1 and p["EdgeOfFlightLineFlag"] == f >> 7)


def tokens_of_dump(d, scale, offset):
    out = []
    for p in d["pts"]:
        t = token([step(p[k], scale[i], offset[i]) for i, k in enumerate("XYZ")], [p[k] for k in RAW], p["GPSTime"][2:], p["Red"], p["Green"],
                  p["Blue"], p["Nir"], p["ExtraBytes"])
        out.append(t if consistent(p) and p["fmt"] == d["fmt"] and p["reclen"] == d["reclen"] else "inconsistent:" + t)
    return out


# ---- octrees: an embedding that keeps the ancestor relation
class Embedding:
    """Maps keys of a small octree into a deep one, keeping who is above whom.

    Every level of a key is replaced by one or more levels with permuted octants."""

    def __init__(self, rng, stretch=1):
        self.rng, self.cache, self.stretch = rng, {(0, 0, 0, 0): (0, 0, 0, 0)}, stretch

    def __call__(self, k):
        k = tuple(k)
        if min(k) < 0 or any(v >> k[0] for v in k[1:]):
            return None
        if k in self.cache:
            return self.cache[k]
        up = self((k[0] - 1, k[1] >> 1, k[2] >> 1, k[3] >> 1))
        sibs = [x for x in self.cache if x[0] == k[0] and tuple(v >> 1 for v in x[1:]) == tuple(v >> 1 for v in k[1:])]
        used = {tuple((v >> (self.cache[x][0] - up[0] - 1)) & 1 for v in self.cache[x][1:]) for x in sibs}
        octs = [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1) if (a, b, c) not in used]
        o = self.rng.choice(octs)
        key = (up[0] + 1,) + tuple(2 * u + b for u, b in zip(up[1:], o))
        for _ in range(self.rng.randrange(self.stretch)):
            if key[0] < 28:
                key = (key[0] + 1,) + tuple(2 * v + self.rng.randrange(2) for v in key[1:])
        self.cache[k] = key
        return key


INVALID = [[-1, -1, -1, -1], [-1, 0, 0, 0], [0, -1, 0, 0], [1, 0, -1, 0], [2, 0, 0, -5], [-2147483648, 1, 1, 1], [3, -2147483648, 0, 0]]
OUTSIDE = [[1, 2, 0, 0], [0, 1, 0, 0], [0, 0, 0, 7], [2, 0, 4, 0], [1, 0, 0, 2], [5, 31, 32, 0], [3, 2147483647, 0, 0]]


def bad_key(rng, k):
    return list(rng.choice(INVALID if min(k) < 0 else OUTSIDE))
