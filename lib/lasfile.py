"""Independent reader and builder of LAS 1.4 / LAZ / COPC files in the stand-in's chunk encoding.

Everything here is written from the LAS 1.4 and COPC 1.0 documents, not from the code under test."""
import struct

BASE = {6: 30, 7: 36, 8: 38}
DIMS = {6: 14, 7: 17, 8: 18}
NDIM = {6: 14, 7: 17, 8: 18}
EBSIZE = [0, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 2, 2, 4, 4, 8, 8, 16, 16, 8, 16, 3, 3, 6, 6, 12, 12, 24, 24, 12, 24]
BIG = 2147483647


def sat(n):
    """TLC has 32 bit integers: larger ones become the sentinel BIG, which no correct file contains."""
    return n if -BIG <= n < BIG else BIG


# Files beyond 4 GiB hold long runs of zeros (holes). What is recorded about such a file is folded: every hole counts as
# a few bytes only, so that offsets behind it stay within TLC's integers. Offsets into a hole have no counterpart (BIG).
HOLES = []          # (start, length, folded length)


def holes(list_):
    HOLES[:] = [(a, n, 4001 + n % 1009) for a, n in list_]


def fo(v):
    """a folded offset"""
    r = v
    for a, n, m in HOLES:
        if v >= a + n:
            r -= n - m
        elif v > a:
            return BIG
    return sat(r)


def fs(v):
    """a folded length"""
    for a, n, m in HOLES:
        if v == n:
            return m
    return sat(v) if v >= 0 else max(v, -BIG)


class Sparse:
    """the bytes of a file with holes"""

    def __init__(self, parts, n):
        self.parts, self.n = sorted((a, bytes.fromhex(h) if isinstance(h, str) else bytes(h)) for a, h in parts), n

    def __len__(self):
        return self.n

    def __getitem__(self, s):
        a, e, _ = s.indices(self.n)
        near = [(o, b) for o, b in self.parts if o < e and o + len(b) > a]
        if e - a >= 1 << 24:
            return b"mixed" if any(b[max(0, a - o):max(0, e - o)].strip(b"\0") for o, b in near) else b"zeros:%d" % (e - a)
        r = bytearray(max(0, e - a))
        for o, b in near:
            lo, hi = max(a, o), min(e, o + len(b))
            r[lo - a:hi - a] = b[lo - o:hi - o]
        return bytes(r)


def unp(fmt, b, at):
    return struct.unpack(fmt, b[at:at + struct.calcsize(fmt)]) if isinstance(b, Sparse) else struct.unpack_from(fmt, b, at)


def wide(n):
    """a number beyond 32 bits, as LasFile.tla writes it"""
    return [n // 65536 % 2147483647, n % 65536]


def bits(d):
    return "b:" + struct.pack(">d", d).hex()


def unbits(s):
    return struct.unpack(">d", bytes.fromhex(s[2:]))[0]


def eb_bytes(items):
    return sum(e.get("o", 0) if e["t"] == 0 else EBSIZE[e["t"]] for e in items)


# ---------------------------------------------------------------- point records
def pack_row(r, fmt, eb):
    """r: dict with integer steps X,Y,Z and the raw attributes"""
    b = struct.pack("<iiiHBBBBhH", r["X"], r["Y"], r["Z"], r.get("Intensity", 0), r.get("ReturnsBitField", 0), r.get("FlagsBitField", 0),
                    r.get("Classification", 0), r.get("UserData", 0), r.get("ScanAngle", 0), r.get("PointSourceId", 0))
    b += bytes.fromhex(r["GPSTime"])[::-1] if isinstance(r.get("GPSTime"), str) else struct.pack("<d", r.get("GPSTime", 0.0))
    if fmt >= 7:
        b += struct.pack("<HHH", r.get("Red", 0), r.get("Green", 0), r.get("Blue", 0))
    if fmt == 8:
        b += struct.pack("<H", r.get("Nir", 0))
    x = r.get("ExtraBytes", b"")
    assert len(x) == eb, (len(x), eb)
    return b + x


def unpack_rows(data, fmt, eb):
    n = BASE[fmt] + eb
    assert len(data) % n == 0
    out = []
    for i in range(0, len(data), n):
        b = data[i:i + n]
        v = struct.unpack_from("<iiiHBBBBhH", b, 0)
        r = dict(zip(["X", "Y", "Z", "Intensity", "ReturnsBitField", "FlagsBitField", "Classification", "UserData", "ScanAngle", "PointSourceId"], v))
        r["GPSTime"] = b[22:30][::-1].hex()
        o = 30
        if fmt >= 7:
            r["Red"], r["Green"], r["Blue"] = struct.unpack_from("<HHH", b, 30)
            o = 36
        if fmt == 8:
            r["Nir"], = struct.unpack_from("<H", b, 36)
            o = 38
        r["ExtraBytes"] = b[o:]
        out.append(r)
    return out


# ---------------------------------------------------------------- chunk encoding (see standin/lazperf)
def encode(data, fmt, eb):
    n = BASE[fmt] + eb
    prev = bytes(n)
    out = bytearray(struct.pack("<cBHI", b"Z", fmt, eb, len(data) // n))
    for i in range(0, len(data), n):
        p = data[i:i + n]
        d = bytes((a - b) & 255 for a, b in zip(p, prev)).rstrip(b"\0")
        out += struct.pack("<H", len(d)) + d
        prev = p
    return bytes(out)


def decode(chunk, fmt, eb):
    """-> data, or None when this isn't exactly one well-formed chunk"""
    n = BASE[fmt] + eb
    if len(chunk) < 8 or chunk[0:1] != b"Z" or chunk[1] != fmt:
        return None
    e, cnt = struct.unpack_from("<HI", chunk, 2)
    if e != eb:
        return None
    at = 8
    prev = bytearray(n)
    out = bytearray()
    for _ in range(cnt):
        if at + 2 > len(chunk):
            return None
        l, = struct.unpack_from("<H", chunk, at)
        at += 2
        if l > n or at + l > len(chunk):
            return None
        for j in range(l):
            prev[j] = (prev[j] + chunk[at + j]) & 255
        at += l
        out += prev
    return bytes(out) if at == len(chunk) else None


# ---------------------------------------------------------------- parsing
class Malformed(Exception):
    pass


HEAD = "<4sHH16sBB32s32sHHHIIBHI5I3d3d6dQQIQ15Q"


def parse_header(b):
    if len(b) < 375:
        raise Malformed("shorter than a header")
    v = unp(HEAD, b, 0)
    h = {"magic": v[0], "source": v[1], "genc": v[2], "guid": v[3], "major": v[4], "minor": v[5], "sys": v[6], "gen": v[7], "day": v[8],
         "year": v[9], "hsize": v[10], "pointoff": v[11], "nvlr": v[12], "fmtraw": v[13], "reclen": v[14], "legacy": v[15],
         "legacyret": list(v[16:21]), "scale": v[21:24], "offset": v[24:27], "max": (v[27], v[29], v[31]), "min": (v[28], v[30], v[32]),
         "waveoff": v[33], "evlroff": v[34], "nevlr": v[35], "count": v[36], "byret": list(v[37:52])}
    h["fmt"] = h["fmtraw"] & 0x3F
    return h


def cstr(b):
    return b.split(b"\0")[0].decode("latin1")


def parse_entries(data):
    out = []
    for i in range(0, len(data) - 31, 32):
        d, x, y, z, off, size, n = struct.unpack_from("<iiiiQii", data, i)
        out.append({"key": [d, x, y, z], "off": fo(off), "size": fs(size), "n": n})
    return out


def parse(b):
    """Structure of a finished file; raises Malformed when it can't even be walked."""
    h = parse_header(b)
    f = {"hdr": h, "len": len(b), "vlrs": [], "evlrs": [], "chunks": [], "bytes": b}
    at = h["hsize"]
    for _ in range(min(h["nvlr"], 1000)):
        if at + 54 > len(b):
            raise Malformed("VLR outside the file")
        _, user, rid, ln, desc = unp("<H16sHH32s", b, at)
        f["vlrs"].append({"off": at, "user": cstr(user), "id": rid, "len": ln, "desc": cstr(desc), "data": b[at + 54:at + 54 + ln]})
        at += 54 + ln
    f["vlrend"] = at
    at = h["evlroff"]
    for _ in range(min(h["nevlr"], 100000)):
        if at + 60 > len(b):
            raise Malformed("EVLR outside the file")
        _, user, rid, ln, desc = unp("<H16sHQ32s", b, at)
        if at + 60 + ln > len(b):
            raise Malformed("EVLR longer than the file")
        f["evlrs"].append({"off": at, "user": cstr(user), "id": rid, "len": ln, "desc": cstr(desc), "data": b[at + 60:at + 60 + ln]})
        at += 60 + ln
    f["evlrend"] = at
    if h["pointoff"] + 8 > len(b):
        raise Malformed("point offset outside the file")
    t, = unp("<Q", b, h["pointoff"])
    if t + 8 > len(b):
        raise Malformed("chunk table outside the file")
    ver, n = unp("<II", b, t)
    if t + 8 + 8 * n > len(b):
        raise Malformed("chunk table longer than the file")
    f["table"] = {"at": t, "version": ver, "n": n, "end": t + 8 + 8 * n}
    pos = h["pointoff"] + 8
    for i in range(n):
        c, s = unp("<II", b, t + 8 + 8 * i)
        f["chunks"].append({"off": pos, "size": s, "n": c, "raw": b[pos:pos + s]})
        pos += s
    f["chunkend"] = pos
    f["info"] = None
    for v in f["vlrs"]:
        if v["user"] == "copc" and v["id"] == 1 and len(v["data"]) == 160:
            w = struct.unpack_from("<5dQQdd", v["data"], 0)
            f["info"] = {"cx": w[0], "cy": w[1], "cz": w[2], "half": w[3], "spacing": w[4], "rootoff": w[5], "rootsize": w[6],
                         "gpsmin": w[7], "gpsmax": w[8], "reserved": v["data"][72:]}
    return f


def parse_eb(data):
    out = []
    for i in range(0, len(data) - 191, 192):
        b = data[i:i + 192]
        d = struct.unpack_from("<15d", b, 40)
        out.append({"t": b[2], "o": b[3], "n": cstr(b[4:36]), "d": cstr(b[160:192]), "nd": [bits(x) for x in d[0:3]], "mn": [bits(x) for x in d[3:6]],
                    "mx": [bits(x) for x in d[6:9]], "sc": [bits(x) for x in d[9:12]], "of": [bits(x) for x in d[12:15]]})
    return out


def parse_pairs(data):
    return [[bits(x) for x in struct.unpack_from("<dd", data, i)] for i in range(0, len(data) - 15, 16)]


# ---------------------------------------------------------------- building (foreign producers)
def pad(s, n):
    b = s if isinstance(s, bytes) else s.encode("latin1")
    return b[:n] + bytes(n - len(b[:n]))


def vlr_head(user, rid, ln, desc=""):
    return struct.pack("<H16sHH32s", 0, pad(user, 16), rid, ln, pad(desc, 32))


def evlr_head(user, rid, ln, desc=""):
    return struct.pack("<H16sHQ32s", 0, pad(user, 16), rid, ln, pad(desc, 32))


def entry(key, off, size, n):
    return struct.pack("<iiiiQii", *key, off & (2**64 - 1), size, n)


def laz_vlr_data(fmt, eb):
    items = [(10, 30, 3)]
    if fmt == 7:
        items.append((11, 6, 3))
    if fmt == 8:
        items.append((12, 8, 3))
    if eb:
        items.append((14, eb, 3))
    return struct.pack("<HHBBHIIqqH", 3, 0, 3, 4, 3, 0, 0xFFFFFFFF, -1, -1, len(items)) + b"".join(struct.pack("<HHH", *i) for i in items)


def eb_vlr_data(items):
    out = b""
    for e in items:
        def d3(k):
            return struct.pack("<3d", *[unbits(x) if isinstance(x, str) else x for x in e.get(k, [0, 0, 0])])
        out += struct.pack("<2sBB32s4s", b"\0\0", e["t"], e.get("o", 0), pad(e.get("n", ""), 32), b"\0" * 4)
        out += d3("nd") + d3("mn") + d3("mx") + d3("sc") + d3("of") + pad(e.get("d", ""), 32)
    return out


def make_header(fmt=6, reclen=30, pointoff=0, nvlr=0, evlroff=0, nevlr=0, count=0, **k):
    return struct.pack(HEAD, k.get("magic", b"LASF"), k.get("source", 0), k.get("genc", 0x10), pad(k.get("guid", b""), 16), k.get("major", 1),
                       k.get("minor", 4), pad(k.get("sys", b""), 32), pad(k.get("gen", b""), 32), k.get("day", 0), k.get("year", 0), k.get("hsize", 375),
                       pointoff, nvlr, k.get("fmtraw", fmt | 0x80), reclen, k.get("legacy", count & 0xFFFFFFFF), *k.get("legacyret", [0] * 5),
                       *k.get("scale", (0.01, 0.01, 0.01)), *k.get("offset", (0, 0, 0)),
                       *[x for a in zip(k.get("max", (0, 0, 0)), k.get("min", (0, 0, 0))) for x in a], k.get("waveoff", 0), evlroff, nevlr, count,
                       *k.get("byret", [0] * 15))


class Builder:
    """A COPC or LAZ file as another producer might write it.

    nodes: {key: (data bytes, count) or (compressed bytes, count, 'comp')}; pages: {page key: {'nodes': [keys], 'subs': [page keys]}}.
    Layout options change the order of everything the formats leave free."""

    def __init__(self, fmt=6, eb_items=(), copc=True, wkt=None, ext=None, extstats=None, **head):
        self.fmt, self.eb_items, self.copc, self.wkt, self.ext, self.extstats, self.head = fmt, list(eb_items), copc, wkt, ext, extstats, head
        self.eb = eb_bytes(self.eb_items)
        self.reclen = head.pop("reclen", BASE[fmt] + self.eb)
        self.chunks = []   # (bytes, count, key or None)
        self.pages = {}
        self.info = (0.0, 0.0, 0.0, 0.0, 0.0)
        self.order = []
        self.evlr_records = set()     # names of records placed as EVLR instead of VLR: 'wkt','eb','ext','stats'
        self.extra_vlrs = []          # (user, id, data) unrelated VLRs
        self.extra_evlrs = []
        self.patch_entries = None     # function(page key, list of entries) -> list of entries
        self.vlr_order = None
        self.page_order = None
        self.one_evlr = False         # all pages inside a single EVLR
        self.evlr_seq = None          # shuffle function for EVLR groups
        self.info_over = {}
        self.holes = {}               # bytes left out before a chunk (by its number), or before the records at the end ("end")
        self.gap = 0                  # unused bytes between VLRs and point data
        self.with_info = True
        self.with_hier = True

    def add(self, key, data, comp=None, n=None):
        n = len(data) // self.reclen if n is None else n
        self.chunks.append((encode(data, self.fmt, self.reclen - BASE[self.fmt]) if comp is None else comp, n, tuple(key) if key is not None else None))

    def build(self):
        vl, ev = [], []   # (name, user, id, data)

        def put(name, user, rid, data):
            (ev if name in self.evlr_records else vl).append((name, user, rid, data))
        put("laz", "laszip encoded", 22204, laz_vlr_data(self.fmt, self.reclen - BASE[self.fmt]))
        if self.eb_items:
            put("eb", "LASF_Spec", 4, eb_vlr_data(self.eb_items))
        if self.ext is not None:
            put("ext", "copc", 10000, b"".join(struct.pack("<dd", *p) for p in self.ext))
        if self.extstats is not None:
            put("stats", "rock_robotic", 10001, b"".join(struct.pack("<dd", *p) for p in self.extstats))
        if self.wkt is not None:
            put("wkt", "LASF_Projection", 2112, self.wkt)
        for i, x in enumerate(self.extra_vlrs):
            vl.append(("x%d" % i,) + tuple(x))
        for i, x in enumerate(self.extra_evlrs):
            ev.append(("y%d" % i,) + tuple(x))
        if self.vlr_order:
            self.vlr_order(vl)
        if self.copc and self.with_info:
            vl.insert(0, ("info", "copc", 1, bytes(160)))
        pos = 375
        where = {}
        for v in vl:
            where[v[0]] = pos
            pos += 54 + len(v[3])
        pointoff = pos + self.gap
        out = bytearray(pointoff + 8)
        at = {}
        sizes = []
        shift, cuts = 0, []           # holes so far; where in out, and how long
        for i, (c, n, key) in enumerate(self.chunks):
            if i in self.holes:
                cuts.append((len(out), self.holes[i]))
                shift += self.holes[i]
                sizes.append((0, self.holes[i]))
            if key is not None:
                at[key] = (len(out) + shift, len(c), n)
            sizes.append((n, len(c)))
            out += c
        table = len(out) + shift
        out += struct.pack("<II", 0, len(sizes)) + b"".join(struct.pack("<II", *s) for s in sizes)
        struct.pack_into("<Q", out, pointoff, table)
        # pages, with offsets known once their order is fixed
        if "end" in self.holes:
            cuts.append((len(out), self.holes["end"]))
            shift += self.holes["end"]
        evlroff = len(out) + shift
        order = [k for k in self.pages]
        if self.page_order:
            self.page_order(order)
        groups = []   # list of ('pages',[keys]) or ('rec', record)
        if self.copc and self.with_hier:
            if self.one_evlr:
                groups.append(("pages", order))
            else:
                groups += [("pages", [k]) for k in order]
        groups += [("rec", r) for r in ev]
        if self.evlr_seq:
            self.evlr_seq(groups)
        size = {k: 32 * (len(p["nodes"]) + len(p["subs"])) for k, p in self.pages.items()}
        p = evlroff
        off = {}
        for kind, g in groups:
            p += 60
            if kind == "pages":
                for k in g:
                    off[k] = p
                    p += size[k]
            else:
                p += len(g[3])
        self.page_at = {k: (off[k], size[k]) for k in off}
        self.chunk_at = at
        for kind, g in groups:
            if kind == "pages":
                ln = sum(size[k] for k in g)
                out += evlr_head("copc", 1000, ln, "EPT hierarchy")
                for k in g:
                    es = []
                    for n in self.pages[k]["nodes"]:
                        es.append((tuple(n),) + at.get(tuple(n), (0, 0, 0)))
                    for s in self.pages[k]["subs"]:
                        es.append((tuple(s), off.get(tuple(s), 0), size.get(tuple(s), 0), -1))
                    mix = self.pages[k].get("mix")
                    if mix:
                        mix(es)
                    if self.patch_entries:
                        es = self.patch_entries(k, es)
                    for e in es:
                        out += entry(*e)
            else:
                out += evlr_head(g[1], g[2], len(g[3])) + g[3]
        # headers
        body = b""
        for v in vl:
            d = v[3]
            if v[0] == "info":
                r = off.get((0, 0, 0, 0), 0), size.get((0, 0, 0, 0), 0)
                i = self.info
                d = struct.pack("<5dQQdd", *i, self.info_over.get("rootoff", r[0]), self.info_over.get("rootsize", r[1]), 0.0, 0.0) + bytes(88)
            body += vlr_head(v[1], v[2], len(d)) + d
        h = dict(self.head)
        count = h.pop("count", sum(s[0] for s in sizes))
        head = make_header(self.fmt, self.reclen, h.pop("pointoff", pointoff), h.pop("nvlr", len(vl)), h.pop("evlroff", evlroff if groups else 0),
                           h.pop("nevlr", len(groups)), count, **h)
        out[0:375] = head
        out[375:375 + len(body)] = body
        self.evlr_start = evlroff
        self.table_at = table
        self.vlr_where = where
        self.cuts = []
        if not cuts:
            return bytes(out)
        parts, lo, shift = [], 0, 0
        for p, n in cuts + [(len(out), 0)]:
            parts.append((lo + shift, out[lo:p]))
            self.cuts.append((p + shift, n))
            lo, shift = p, shift + n
        self.cuts.pop()
        return Sparse(parts, len(out) + shift)
