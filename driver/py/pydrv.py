"""The conformance driver once more, over the Python interface: the same calls and answers as driver/*.cpp."""
import base64, copy, ctypes, json, os, pickle, shutil, struct, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
copc = core.install(os.environ["VERIF_REPO"], os.environ["VERIF_CORE"])
X = core.extra()
OPS = {}
LIBC = ctypes.CDLL(None)


class Broken(Exception):
    """the script can't be played"""


class Store:
    def __init__(self):
        self.pt, self.pts, self.hdr, self.ext, self.val, self.tok = {}, {}, {}, {}, {}, {}
        self.cfg, self.rcfg, self.lcfg, self.rlcfg = {}, {}, {}, {}
        self.w, self.r, self.buf, self.paths = {}, {}, {}, {}
        self.dir = None

    def file(self, name=None):
        if not self.dir:
            self.dir = tempfile.mkdtemp(prefix="vf-py-", dir=os.environ.get("VERIF_SCRATCH"))
        return os.path.join(self.dir, name or "f%d" % len(os.listdir(self.dir)))

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)


S = Store()


def op(*names):
    def f(g):
        for n in names:
            OPS[n] = g
        return g
    return f


# ---- values
def D(j):
    if isinstance(j, (int, float)):
        return float(j)
    return struct.unpack("<d", struct.pack("<Q", int(j[2:], 16)))[0] if j[:2] == "b:" else float(j)


def bits(v):
    return "b:%016x" % struct.unpack("<Q", struct.pack("<d", v))[0]


def V3(j):
    return copc.Vector3(D(j[0]), D(j[1]), D(j[2]))


def vec(v):
    return [bits(v.x), bits(v.y), bits(v.z)]


def K(j):
    return copc.VoxelKey(j[0], j[1], j[2], j[3])


def key(k):
    return [k.d, k.x, k.y, k.z]


def BX(j):
    return copc.Box(*[D(e) for e in j])


def box(b):
    return [bits(v) for v in (b.x_min, b.y_min, b.z_min, b.x_max, b.y_max, b.z_max)]


def chars(b):
    return copc.VectorChar(memoryview(b).cast('b')) if b else copc.VectorChar()


def B(h):
    return chars(bytes.fromhex(h))


def raw(v):
    return bytes(memoryview(v).cast("B")) if len(v) else b""


def node(n):
    if not n.key.IsValid():
        return {"valid": False, "eval": n.IsValid()}
    return {"valid": True, "key": key(n.key), "off": n.offset, "size": n.byte_size, "count": n.point_count, "page": key(n.page_key), "eval": n.IsValid()}


def N(j):
    n = copc.Node()
    n.key, n.offset, n.byte_size, n.point_count = K(j["key"]), j["off"], j["size"], j["count"]
    n.page_key = K(j["page"]) if "page" in j else copc.VoxelKey.InvalidKey()
    return n


def send(x):
    return pickle.loads(pickle.dumps(x))


# ---- keys
@op("key.info")
def _(a):
    k = K(a["k"])
    r = {"valid": k.IsValid(), "str": str(k), "parent": key(k.GetParent()), "parents": [key(p) for p in k.GetParents(False)],
         "selfparents": [key(p) for p in k.GetParents(include_current=True)], "children": [], "bisect": []}
    if a.get("down", True):
        r["children"] = [key(p) for p in k.GetChildren()]
        r["bisect"] = [key(k.Bisect(i)) for i in range(8)]
    r["after"] = key(k)
    return r


@op("key.at")
def _(a):
    return {"v": key(K(a["k"]).GetParentAtDepth(a["d"]))}


@op("key.rel")
def _(a):
    x, y = K(a["a"]), K(a["b"])
    return {"childof": x.ChildOf(y), "eq": x == y, "ne": x != y, "heq": hash(x) == hash(y)}


@op("key.vec")
def _(a):
    return {"v": key(copc.VoxelKey(list(a["v"])))}


@op("key.res")
def _(a):
    h, i = copc.LasHeader(), copc.CopcInfo()
    i.spacing = D(a["spacing"])
    k = K(a["k"])
    return {"res": bits(k.Resolution(h, i)), "at": bits(copc.VoxelKey.GetResolutionAtDepth(k.d, h, i))}


@op("key.consts")
def _(a):
    return {"root": key(copc.VoxelKey.RootKey()), "inv": key(copc.VoxelKey.InvalidKey()), "def": key(copc.VoxelKey())}


# ---- boxes
def mm_header(a):
    h = X.header(6, 30, copc.Vector3.DefaultScale(), copc.Vector3.DefaultOffset(), True)
    h.min, h.max = V3(a["min"]), V3(a["max"])
    return h


@op("box.new")
def _(a):
    v, how = [D(e) for e in a["v"]], a["how"]
    if how == "vec":
        return {"v": box(copc.Box(v))}
    if how == "args":
        return {"v": box(copc.Box(*v))}
    if how == "v3":
        return {"v": box(copc.Box(copc.Vector3(*v[:3]), copc.Vector3(*v[3:])))}
    return {"v": box(copc.Box.MaxBox() if how == "max" else copc.Box.EmptyBox())}


@op("box.rel")
def _(a):
    x, y = BX(a["a"]), BX(a["b"])
    return {"inter": x.Intersects(y), "cont": x.Contains(y), "within": x.Within(y)}


@op("box.has")
def _(a):
    return {"v": BX(a["a"]).Contains(V3(a["p"]))}


@op("key.box")
def _(a):
    h = mm_header(a)
    return {"v": box(copc.Box(K(a["k"]), h)), "span": bits(h.Span()), "bounds": box(h.Bounds())}


@op("key.spat")
def _(a):
    h, k, b = mm_header(a), K(a["k"]), BX(a["b"])
    return {"inter": k.Intersects(h, b), "cont": k.Contains(h, b), "within": k.Within(h, b), "crosses": k.Crosses(h, b), "has": k.Contains(h, V3(a["p"]))}


# ---- vectors
@op("vec.ops")
def _(a):
    x, y, d = V3(a["a"]), V3(a["b"]), D(a["d"])
    return {"muld": vec(x * d), "divd": vec(x / d), "addd": vec(x + d), "subd": vec(x - d), "mul": vec(x * y), "div": vec(x / y), "add": vec(x + y),
            "sub": vec(x - y), "eq": x == y, "ne": x != y, "fdiv": vec(x // y), "fdivd": vec(x // d)}


@op("vec.vec")
def _(a):
    return {"v": vec(copc.Vector3([D(e) for e in a["v"]]))}


@op("text")
def _(a):
    v = {"key": K, "vec": V3, "box": BX}[a["kind"]](a["v"])
    if str(v) != repr(v):
        raise RuntimeError("str and repr differ")
    return {"text": str(v)}


# ---- headers
def EB(j):
    v = copc.EbVlr(0)
    for e in j:
        nums = [[D(x) for x in e[k]] for k in ("nd", "mn", "mx", "sc", "of")] if "sc" in e else []
        X.eb_add(v, e["t"], e.get("o", 0), e.get("n", "").encode("latin1"), e.get("d", "").encode("latin1"), nums)
    return v


def ebs(v):
    out = []
    for i in range(X.eb_count(v)):
        t, o, n, d, x = X.eb_at(v, i)
        e = {"t": t, "o": o, "n": n.decode("utf8", "replace"), "d": d.decode("utf8", "replace")}
        e.update(zip(("nd", "mn", "mx", "sc", "of"), [[bits(y) for y in z] for z in x]))
        out.append(e)
    return out


def texts(h):
    """the header's texts, through the interface where they are text"""
    out = []
    for i, n in enumerate(("guid", "system_identifier", "generating_software")):
        b = X.texts(h)[i]
        try:
            b.decode("utf8")
        except UnicodeDecodeError:
            out.append(b)
            continue
        out.append(getattr(h, n).encode("utf8"))
    return out


def header(h):
    t = texts(h)
    r = {"fmt": h.point_format_id, "reclen": h.point_record_length, "scale": vec(h.scale), "offset": vec(h.offset), "min": vec(h.min), "max": vec(h.max),
         "count": h.point_count, "pointoff": h.point_offset, "vlrs": h.vlr_count, "evlrs": h.evlr_count, "evlroff": h.evlr_offset, "copc": X.is_copc(h),
         "guid": t[0].hex(), "sys": t[1].hex(), "gen": t[2].hex(), "source": h.file_source_id, "genc": h.global_encoding, "day": h.creation_day,
         "year": h.creation_year, "byret": list(h.points_by_return)}
    try:
        r["ebsize"] = h.EbByteSize()
    except RuntimeError:
        r["ebsize"] = -1
    return r


def set_header(h, j):
    for a, n in (("min", "min"), ("max", "max")):
        if a in j:
            setattr(h, n, V3(j[a]))
    for i, (a, n) in enumerate((("guid", "guid"), ("sys", "system_identifier"), ("gen", "generating_software"))):
        if a in j:
            b = bytes.fromhex(j[a])
            try:
                setattr(h, n, b.decode("utf8"))
            except UnicodeDecodeError:
                setattr(h, n, b)
    for a, n in (("source", "file_source_id"), ("genc", "global_encoding"), ("day", "creation_day"), ("year", "creation_year"), ("byret", "points_by_return")):
        if a in j:
            setattr(h, n, j[a])
    if j.get("gpsbit"):
        h.SetGpsTimeBit()


@op("hdr.new")
def _(a):
    S.hdr[a["name"]] = X.header(a["fmt"], a["reclen"], V3(a["scale"]), V3(a["offset"]), a["copc"])


@op("hdr.copy")
def _(a):
    h = S.hdr[a["from"]]
    if a["how"] == "mod":
        S.hdr[a["name"]] = X.header_mod(h, a["fmt"], a["reclen"], V3(a["scale"]), V3(a["offset"]))
    elif a["how"] == "flag":
        S.hdr[a["name"]] = X.header_flag(h, a["copc"])
    else:
        S.hdr[a["name"]] = send(h)


@op("hdr.assign")
def _(a):
    X.header_assign(S.hdr[a["name"]], S.hdr[a["from"]])


@op("hdr.set")
def _(a):
    set_header(S.hdr[a["name"]], a["set"])


@op("hdr.get")
def _(a):
    return {"h": header(S.hdr[a["name"]])}


@op("hdr.scale")
def _(a):
    h, r = S.hdr[a["name"]], {}
    if "v" in a:
        v = V3(a["v"])
        r = {"apply": vec(h.ApplyScale(v)), "inv": vec(h.ApplyInverseScale(v)),
             "axyz": [bits(h.ApplyScaleX(v.x)), bits(h.ApplyScaleY(v.y)), bits(h.ApplyScaleZ(v.z))]}
    if "r" in a:
        v = V3(a["r"])
        r["rxyz"] = [h.RemoveScaleX(v.x), h.RemoveScaleY(v.y), h.RemoveScaleZ(v.z)]
    return r


@op("hdr.bounds")
def _(a):
    S.hdr[a["name"]].CheckAndUpdateBounds(S.pt[a["pt"]])


@op("hdr.span")
def _(a):
    h = S.hdr[a["name"]]
    return {"span": bits(h.Span()), "bounds": box(h.Bounds())}


# ---- extents and information
EXT = {"X": "x", "Y": "y", "Z": "z", "Intensity": "intensity", "ReturnNumber": "return_number", "NumberOfReturns": "number_of_returns",
       "ScannerChannel": "scanner_channel", "ScanDirectionFlag": "scan_direction_flag", "EdgeOfFlightLine": "edge_of_flight_line",
       "Classification": "classification", "UserData": "user_data", "ScanAngle": "scan_angle", "PointSourceId": "point_source_id", "GpsTime": "gps_time",
       "Red": "red", "Green": "green", "Blue": "blue", "Nir": "nir", "ExtraBytes": "extra_bytes"}


def info(i):
    return {"cx": bits(i.center_x), "cy": bits(i.center_y), "cz": bits(i.center_z), "half": bits(i.halfsize), "spacing": bits(i.spacing),
            "rootoff": i.root_hier_offset, "rootsize": i.root_hier_size}


def set_info(i, j):
    for a, n in (("cx", "center_x"), ("cy", "center_y"), ("cz", "center_z"), ("half", "halfsize"), ("spacing", "spacing")):
        if a in j:
            setattr(i, n, D(j[a]))


def extent(e):
    return [bits(e.minimum), bits(e.maximum), bits(e.mean), bits(e.var)]


def extents(e):
    l = e.extents
    return {"fmt": e.point_format_id, "ext": e.has_extended_stats, "n": len(l), "items": [extent(x) for x in l]}


def new_extent(v):
    e = copc.CopcExtent()
    e.minimum, e.maximum, e.mean, e.var = [D(x) for x in v]
    return e


def set_extent(e, d, v, swap):
    n = EXT[d]
    if d == "ExtraBytes":
        if swap:
            setattr(e, n, [new_extent(x) for x in v])
        else:
            for x, y in zip(getattr(e, n), v):
                x.minimum, x.maximum, x.mean, x.var = [D(z) for z in y]
    elif swap:
        setattr(e, n, new_extent(v))
    else:
        x = getattr(e, n)
        x.minimum, x.maximum, x.mean, x.var = [D(z) for z in v]


@op("ext.new")
def _(a):
    if not a["ext"]:
        S.ext[a["name"]] = copc.CopcExtents(a["fmt"], a["neb"])
    else:
        S.ext[a["name"]] = X.extents(a["fmt"], a["neb"], True)


@op("ext.copy")
def _(a):
    if "fmt" in a:
        S.ext[a["name"]] = X.extents_derive(S.ext[a["from"]], a["fmt"], a["neb"], a["ext"])
        return
    S.ext[a["name"]] = X.extents_copy(S.ext[a["from"]])


@op("ext.assign")
def _(a):
    X.extents_assign(S.ext[a["name"]], S.ext[a["from"]])


@op("ext.set")
def _(a):
    set_extent(S.ext[a["name"]], a["dim"], a["v"], a.get("swap", False))


@op("ext.get")
def _(a):
    x = getattr(S.ext[a["name"]], EXT[a["dim"]])
    return {"v": [extent(y) for y in x] if a["dim"] == "ExtraBytes" else extent(x)}


@op("ext.dump")
def _(a):
    return {"e": extents(S.ext[a["name"]])}


@op("ext.vlr")
def _(a):
    v = X.extents_vlr(S.ext[a["name"]], a.get("extended", False))
    return {"bytes": v[0].hex(), "size": v[1], "hdr": list(v[2:])}


@op("ext.fromvlr")
def _(a):
    S.ext[a["name"]] = X.extents_read(bytes.fromhex(a["bytes"]), bytes.fromhex(a.get("stats", "")), "stats" in a, a["fmt"], a["neb"], a["ext"])


@op("cfg.parts")
def _(a):
    i = copc.CopcInfo()
    set_info(i, a.get("info", {}))
    x = S.ext[a["ext"]]
    S.cfg[a["name"]] = X.config_from_laz(S.lcfg[a["laz"]], i, x) if "laz" in a else X.config_parts(S.hdr[a["hdr"]], i, x, bytes.fromhex(a["wkt"]), EB(a["eb"]))


@op("lcfg.parts")
def _(a):
    S.lcfg[a["name"]] = X.laz_parts(S.hdr[a["hdr"]], bytes.fromhex(a["wkt"]), EB(a["eb"]))


@op("ext.of")
def _(a):
    S.ext[a["name"]] = X.extents_copy(any_cfg(a).copc_extents)


@op("ext.into")
def _(a):
    X.extents_assign(S.cfg[a["name"]].copc_extents, S.ext[a["from"]])


@op("extent.new")
def _(a):
    v = [D(x) for x in a["v"]]
    return {"v": extent(copc.CopcExtent(v) if a["how"] == "vec" else new_extent(v) if a["how"] == "copy" else copc.CopcExtent(*v))}


# ---- configurations
def text(s):
    b = bytes.fromhex(s)
    try:
        return b.decode("utf8")
    except UnicodeDecodeError:
        return b


def wkt(c):
    try:
        return c.wkt.encode("utf8").hex()
    except UnicodeDecodeError:
        return X.wkt(c).hex()


def laz(c):
    return {"h": header(c.las_header), "wkt": wkt(c), "eb": ebs(c.extra_bytes_vlr)}


def cfg(c):
    return dict(laz(c), info=info(c.copc_info), ext=extents(c.copc_extents))


def kw(a, more=()):
    r = {}
    for j, n, f in (("scale", "scale", V3), ("offset", "offset", V3), ("wkt", "wkt", text), ("eb", "extra_bytes_vlr", EB)) + tuple(more):
        if j in a:
            r[n] = f(a[j])
    return r


@op("cfg.new")
def _(a):
    S.cfg[a["name"]] = copc.CopcConfigWriter(a["fmt"], **kw(a, (("ext", "has_extended_stats", bool),)))


@op("cfg.copy")
def _(a):
    if a.get("how", "writer") == "reader":
        S.cfg[a["name"]] = copc.CopcConfigWriter(S.rcfg[a["from"]])
    else:
        S.cfg[a["name"]] = X.config_copy(S.cfg[a["from"]])


@op("cfg.set")
def _(a):
    c = S.cfg[a["name"]]
    set_header(c.las_header, a.get("h", {}))
    set_info(c.copc_info, a.get("info", {}))
    for d, v in a.get("x", {}).items():
        set_extent(c.copc_extents, d, v, a.get("swap", False))


@op("cfg.get")
def _(a):
    return {"c": cfg(S.cfg[a["name"]])}


@op("rcfg.get")
def _(a):
    return {"c": cfg(S.rcfg[a["name"]])}


@op("rcfg.copy")
def _(a):
    S.rcfg[a["name"]] = X.config_reader(S.cfg[a["cfg"]]) if "cfg" in a else X.config_again(S.rcfg[a["rcfg"]])


@op("cfg.assign")
def _(a):
    X.config_assign(S.cfg[a["name"]], S.cfg[a["from"]])


@op("lcfg.assign")
def _(a):
    X.laz_assign(S.lcfg[a["name"]], S.lcfg[a["from"]])


@op("lcfg.new")
def _(a):
    S.lcfg[a["name"]] = copc.LazConfigWriter(a["fmt"], **kw(a))


@op("lcfg.copy")
def _(a):
    how = a.get("how", "writer")
    if how == "writer":
        S.lcfg[a["name"]] = X.laz_copy(S.lcfg[a["from"]])
    elif how == "copcw":
        S.lcfg[a["name"]] = X.config_laz(S.cfg[a["from"]])
    else:
        S.lcfg[a["name"]] = copc.LazConfigWriter(S.rlcfg[a["from"]] if how == "rlaz" else S.rcfg[a["from"]])


@op("lcfg.set")
def _(a):
    set_header(S.lcfg[a["name"]].las_header, a.get("h", {}))


@op("lcfg.get")
def _(a):
    return {"c": laz(S.lcfg[a["name"]])}


@op("rlcfg.get")
def _(a):
    return {"c": laz(S.rlcfg[a["name"]])}


def any_cfg(a):
    for k, m in (("cfg", S.cfg), ("lcfg", S.lcfg), ("rcfg", S.rcfg), ("rlcfg", S.rlcfg)):
        if k in a:
            return m[a[k]]


@op("hdr.of")
def _(a):
    S.hdr[a["name"]] = send(any_cfg(a).las_header)


@op("same")
def _(a):
    def eb(n):
        for m in (S.cfg, S.rcfg, S.lcfg, S.rlcfg):
            if n in m:
                return m[n].extra_bytes_vlr
        return copc.EbVlr(0)

    def ext(n):
        for m in (S.cfg, S.rcfg):
            if n in m:
                return m[n].copc_extents.extents
        return S.ext[n].extents if n in S.ext else []
    return {"eb": X.eb_same(eb(a["a"]), eb(a["b"])), "ext": list(ext(a["a"])) == list(ext(a["b"]))}


@op("drop")
def _(a):
    for m in (S.cfg, S.rcfg, S.lcfg, S.rlcfg, S.hdr, S.ext, S.val):
        m.pop(a["name"], None)


# ---- points
INT = {"Intensity": "intensity", "ReturnNumber": "return_number", "NumberOfReturns": "number_of_returns", "ReturnsBitField": "returns_bit_field",
       "FlagsBitField": "flags_bit_field", "ScannerChannel": "scanner_channel", "Classification": "classification", "UserData": "user_data",
       "ScanAngle": "scan_angle", "PointSourceId": "point_source_id", "Red": "red", "Green": "green", "Blue": "blue", "Nir": "nir"}
BOOL = {"Synthetic": "synthetic", "KeyPoint": "key_point", "Withheld": "withheld", "Overlap": "overlap", "ScanDirectionFlag": "scan_direction_flag",
        "EdgeOfFlightLineFlag": "edge_of_flight_line"}
DBL = {"X": "x", "Y": "y", "Z": "z", "GPSTime": "gps_time"}


def point(p):
    r = {"fmt": p.point_format_id, "reclen": p.point_record_length, "ebsize": p.EbByteSize(), "hasrgb": p.HasRgb(), "hasnir": p.HasNir()}
    for a, n in DBL.items():
        r[a] = bits(getattr(p, n))
    for a, n in INT.items():
        if a in ("Red", "Green", "Blue", "Nir"):
            try:
                r[a] = getattr(p, n)
            except RuntimeError:
                r[a] = -1
        else:
            r[a] = getattr(p, n)
    for a, n in BOOL.items():
        r[a] = int(getattr(p, n))
    r["ScanAngleDegrees"] = bits(p.scan_angle_degrees)
    r["ExtraBytes"] = bytes(p.extra_bytes).hex()
    return r


def set_point(p, a, v):
    if a in DBL:
        setattr(p, DBL[a], D(v))
    elif a in INT:
        setattr(p, INT[a], v)
    elif a in BOOL:
        setattr(p, BOOL[a], bool(v))
    elif a == "ScanAngleDegrees":
        p.scan_angle_degrees = D(v)
    elif a in ("Rgb", "RgbVec"):
        p.rgb = list(v)
    elif a == "ExtraBytes":
        p.extra_bytes = list(bytes.fromhex(v))
    else:
        raise Broken(a)


@op("pt.new")
def _(a):
    S.pt[a["name"]] = copc.Points(a["fmt"], a["eb"]).CreatePoint()


@op("pt.newh")
def _(a):
    S.pt[a["name"]] = copc.Points(S.hdr[a["hdr"]]).CreatePoint()


@op("pt.copy")
def _(a):
    S.pt[a["name"]] = X.point_copy(S.pt[a["from"]])


@op("pt.alias")
def _(a):
    S.pt[a["name"]] = S.pt[a["from"]]


@op("pt.set")
def _(a):
    set_point(S.pt[a["name"]], a["attr"], a["v"])


@op("pt.fill")
def _(a):
    for k, v in a["set"]:
        set_point(S.pt[a["name"]], k, v)


@op("pt.get")
def _(a):
    return {"p": point(S.pt[a["name"]])}


@op("pt.eq")
def _(a):
    x, y = S.pt[a["a"]], S.pt[a["b"]]
    return {"v": x == y, "n": x != y}


@op("pt.convert")
def _(a):
    S.pt[a["name"]].ToPointFormat(a["fmt"])


@op("pt.within")
def _(a):
    return {"v": S.pt[a["name"]].Within(BX(a["box"]))}


# ---- collections
def points(p):
    return {"fmt": p.point_format_id, "reclen": p.point_record_length, "eb": p.eb_byte_size, "n": len(p), "pts": [point(q) for q in p]}


@op("pts.new")
def _(a):
    S.pts[a["name"]] = copc.Points(a["fmt"], a["eb"])


@op("pts.newh")
def _(a):
    S.pts[a["name"]] = copc.Points(S.hdr[a["hdr"]])


@op("pts.newv")
def _(a):
    S.pts[a["name"]] = copc.Points([S.pt[n] for n in a["pts"]])


@op("pts.add")
def _(a):
    S.pts[a["name"]].AddPoint(S.pt[a["pt"]])


@op("pts.addv")
def _(a):
    S.pts[a["name"]].AddPoints([S.pt[n] for n in a["pts"]])


@op("pts.addpts")
def _(a):
    S.pts[a["name"]].AddPoints(S.pts[a["from"]])


@op("pts.create")
def _(a):
    S.pt[a["pt"]] = S.pts[a["name"]].CreatePoint()


def same(x, y):
    """the same point, not an equal one"""
    return y in copc.Points([x])


@op("pts.at")
def _(a):
    c, i = S.pts[a["name"]], a["i"]
    p = c[i]
    S.pt[a["pt"]] = p
    return {"same": same(p, c[i - len(c)]) and same(p, list(c)[i]) and p in c and same(p, c[i:i + 1][0])}


@op("pts.put")
def _(a):
    S.pts[a["name"]][a["i"]] = S.pt[a["pt"]]


def index(j):
    return slice(*[x[0] if x else None for x in j]) if isinstance(j, list) else j


@op("pts.slice")        # a part as a collection of its own
def _(a):
    S.pts[a["name"]] = S.pts[a["from"]][index(a["i"])]


@op("pts.putslice")
def _(a):
    S.pts[a["name"]][index(a["i"])] = S.pts[a["from"]]


@op("pts.item")         # any index, by the collection's own rules
def _(a):
    c, i = S.pts[a["name"]], a["i"]
    S.pt[a["pt"]] = p = c[i]
    return {"same": same(p, list(c)[i]) and p in c}


@op("pts.has")
def _(a):
    return {"v": S.pt[a["pt"]] in S.pts[a["name"]], "n": len(S.pts[a["name"]])}


@op("pts.convert")
def _(a):
    S.pts[a["name"]].ToPointFormat(a["fmt"])


@op("pts.get")
def _(a):
    return {"p": points(S.pts[a["name"]])}


BULK = {"X": "x", "Y": "y", "Z": "z", "Classification": "classification", "PointSourceId": "point_source_id", "Red": "red", "Green": "green", "Blue": "blue"}


@op("pts.setbulk")
def _(a):
    v = [D(x) for x in a["v"]] if a["attr"] in "XYZ" else list(a["v"])
    setattr(S.pts[a["name"]], BULK[a["attr"]], v)


@op("pts.getbulk")
def _(a):
    v = getattr(S.pts[a["name"]], BULK[a["attr"]])
    return {"v": [bits(x) for x in v] if a["attr"] in "XYZ" else [int(x) for x in v]}


@op("pts.within")
def _(a):
    c, b = S.pts[a["name"]], BX(a["box"])
    mine, at, idx = list(c), 0, []
    for q in c.GetWithin(b):
        while at < len(mine) and not same(mine[at], q):
            at += 1
        idx.append(at if at < len(mine) else -1)
        at += 1
    return {"all": c.Within(b), "idx": idx}


@op("pts.pack")
def _(a):
    c = S.pts[a["name"]]
    v = c.Pack(S.hdr[a["hdr"]]) if "hdr" in a else c.Pack(V3(a["scale"]), V3(a["offset"]))
    return {"bytes": raw(v).hex(), "same": True}


@op("pt.pack")
def _(a):
    return {"bytes": raw(copc.Points([S.pt[a["name"]]]).Pack(V3(a["scale"]), V3(a["offset"]))).hex()}


def unpack(a):
    b = B(a["bytes"])
    return copc.Points.Unpack(b, S.hdr[a["hdr"]]) if "hdr" in a else copc.Points.Unpack(b, a["fmt"], a["eb"], V3(a["scale"]), V3(a["offset"]))


@op("pts.unpack")
def _(a):
    S.pts[a["name"]] = unpack(a)


@op("pt.unpack")
def _(a):
    c = unpack(a)
    S.pt[a["name"]] = c[0]
    return {"used": -1}


@op("pts.make")
def _(a):
    c = copc.Points(a["fmt"], a["eb"])
    for row in a["rows"]:
        p = c.CreatePoint()
        for k, v in row:
            set_point(p, k, v)
        c.AddPoint(p)
    S.pts[a["name"]] = c


# ---- compression
@op("codec.c")
def _(a):
    if a["how"] == "vec":
        return {"v": raw(copc.CompressBytes(B(a["bytes"]), a.get("fmt", 6), a.get("eb", 0))).hex()}
    if a["how"] == "vechdr":
        return {"v": raw(copc.CompressBytes(B(a["bytes"]), S.hdr[a["hdr"]])).hex()}
    raise Broken("codec.c")


@op("codec.d")
def _(a):
    if a["how"] == "vec":
        return {"v": raw(copc.DecompressBytes(B(a["bytes"]), a.get("fmt", 6), a.get("eb", 0), a["n"])).hex()}
    if a["how"] == "vechdr":
        return {"v": raw(copc.DecompressBytes(B(a["bytes"]), S.hdr[a["hdr"]], a["n"])).hex()}
    raise Broken("codec.d")


# ---- writers; every writer of this interface writes to a file
@op("w.new")
def _(a):
    path = a["path"] if a.get("sink") == "file" else S.file()
    o = a.get("over", {})
    opt = kw(o, (("fmt", "point_format_id", int), ("ext", "has_extended_stats", bool)))
    w = copc.FileWriter(path, S.cfg[a["cfg"]], **opt)
    if w.path != path:
        raise Broken("path differs")
    S.w[a["name"]], S.paths[a["name"]] = w, path


@op("w.add")
def _(a):
    w, k = S.w[a["name"]], K(a["k"])
    more = {"page_key": K(a["p"])} if "p" in a else {}
    if "pts" in a:
        n = w.AddNode(k, S.pts[a["pts"]], **more)
    elif "comp" in a:
        n = w.AddNodeCompressed(k, B(a["comp"]), a["n"], **more)
    else:
        n = w.AddNode(k, B(a["data"]), **more)
    return {"node": node(n)}


@op("w.move")
def _(a):
    S.w[a["name"]].ChangeNodePage(K(a["k"]), K(a["p"]))


@op("w.find")
def _(a):
    return {"node": node(S.w[a["name"]].FindNode(K(a["k"])))}


@op("w.close", "lw.close")
def _(a):
    S.w[a["name"]].Close()


@op("w.destroy", "lw.destroy")
def _(a):
    S.w.pop(a["name"], None)


@op("w.bytes")
def _(a):
    with open(S.paths[a["name"]], "rb") as f:
        b = f.read()
    if "buf" in a:
        S.buf[a["buf"]] = b
    return {"len": len(b), "hex": b.hex()}


@op("w.own")
def _(a):
    S.cfg[a["to"]] = S.w[a["name"]].copc_config


@op("lw.new")
def _(a):
    path = a["path"] if a.get("sink") == "file" else S.file()
    w = copc.LazWriter(path, S.lcfg[a["cfg"]])
    S.w[a["name"]], S.paths[a["name"]] = w, path


@op("lw.add")
def _(a):
    w, err = S.w[a["name"]], ""
    try:
        if "pts" in a:
            w.WritePoints(S.pts[a["pts"]])
        else:
            w.WritePointsCompressed(B(a["comp"]), a["n"])
    except RuntimeError as e:
        err = str(e) or "?"
    return {"done": not err, "err": err, "points": w.point_count, "chunks": w.chunk_count}


@op("lw.counts")
def _(a):
    w = S.w[a["name"]]
    return {"points": w.point_count, "chunks": w.chunk_count}


@op("lw.own")
def _(a):
    S.lcfg[a["to"]] = S.w[a["name"]].laz_config


# ---- files
@op("buf.set")
def _(a):
    S.buf[a["buf"]] = bytes.fromhex(a["hex"])


@op("buf.get")
def _(a):
    return {"hex": S.buf[a["buf"]].hex()}


@op("buf.cut")
def _(a):
    S.buf[a["to"]] = S.buf[a["buf"]][:a["len"]]


@op("buf.save")
def _(a):
    with open(a["path"], "wb") as f:
        f.write(S.buf[a["buf"]])


@op("file.get")
def _(a):
    with open(a["path"], "rb") as f:
        return {"hex": f.read().hex()}


@op("file.rm")
def _(a):
    if os.path.exists(a["path"]):
        os.unlink(a["path"])


# ---- readers
def source(a):
    if "path" in a:
        return a["path"]
    if "rbudget" in a:
        raise Broken("rbudget")
    p = S.file()
    with open(p, "wb") as f:
        f.write(S.buf[a["buf"]])
    return p


@op("r.open")
def _(a):
    S.r.pop(a["name"], None)
    S.r[a["name"]] = copc.FileReader(source(a))


@op("r.close")
def _(a):
    r = S.r.pop(a["name"])
    r.Close()
    if a.get("twice"):
        r.Close()


@op("r.cfg")
def _(a):
    c = S.r[a["name"]].copc_config
    if "to" in a:
        S.rcfg[a["to"]] = c
    return {"c": cfg(c)}


def nodes(l):
    return {"nodes": [node(send(n)) for n in l]}


@op("r.find")
def _(a):
    return {"node": node(S.r[a["name"]].FindNode(K(a["k"])))}


@op("r.all")
def _(a):
    return nodes(S.r[a["name"]].GetAllNodes())


@op("r.kids")
def _(a):
    return nodes(S.r[a["name"]].GetAllChildrenOfPage(K(a["k"])))


@op("r.pages")
def _(a):
    return {"pages": [key(k) for k in S.r[a["name"]].GetPageList()]}


def which(a):
    return N(a["node"]) if "node" in a else K(a["k"])


def stored(a, p):
    if "to" in a:
        S.pts[a["to"]] = p
    return {"p": points(p)} if a.get("dump", True) else {"n": len(p)}


@op("r.data")
def _(a):
    return {"v": raw(S.r[a["name"]].GetPointData(which(a))).hex()}


@op("r.comp")
def _(a):
    return {"v": raw(S.r[a["name"]].GetPointDataCompressed(which(a))).hex()}


@op("r.pts")
def _(a):
    return stored(a, S.r[a["name"]].GetPoints(which(a)))


def res(a):
    return {"resolution": D(a["res"])} if "res" in a else {}


@op("r.allpts")
def _(a):
    return stored(a, S.r[a["name"]].GetAllPoints(**res(a)))


@op("r.depth")
def _(a):
    r = S.r[a["name"]]
    return {"v": r.GetDepthAtResolution(D(a["res"])) if "res" in a else r.GetMaxDepth()}


@op("r.atres")
def _(a):
    return nodes(S.r[a["name"]].GetNodesAtResolution(D(a["res"])))


@op("r.inres")
def _(a):
    return nodes(S.r[a["name"]].GetNodesWithinResolution(D(a["res"])))


@op("r.inbox")
def _(a):
    return nodes(S.r[a["name"]].GetNodesWithinBox(BX(a["box"]), **res(a)))


@op("r.xbox")
def _(a):
    return nodes(S.r[a["name"]].GetNodesIntersectBox(BX(a["box"]), **res(a)))


@op("r.ptsbox")
def _(a):
    return stored(a, S.r[a["name"]].GetPointsWithinBox(BX(a["box"]), **res(a)))


@op("r.validate")
def _(a):
    verbose = a.get("verbose", False)
    LIBC.fflush(None)
    old = os.dup(1)
    with tempfile.TemporaryFile() as f:
        os.dup2(f.fileno(), 1)
        try:
            v = S.r[a["name"]].ValidateSpatialBounds(verbose=verbose)
        finally:
            LIBC.fflush(None)
            os.dup2(old, 1)
            os.close(old)
        f.seek(0)
        s = f.read().decode("latin1")
    r = {"v": v, "quiet": not s}

    def num(tag):
        if tag not in s:
            return -1
        d = s.split(tag, 1)[1].split()[0]
        return int(d) if d.isdigit() else 0
    if verbose:
        r.update(outhdr=num("Number of points outside header bounds: "), outnode=num("Number of points outside node bounds: "),
                 says="Spatial bounds are valid!" in s, saysnot="Spatial bounds are invalid!" in s)
    return r


@op("lr.open")
def _(a):
    S.r.pop(a["name"], None)
    S.r[a["name"]] = copc.LazReader(source(a))


@op("lr.cfg")
def _(a):
    c = S.r[a["name"]].laz_config
    if "to" in a:
        S.rlcfg[a["to"]] = c
    return {"c": laz(c)}


@op("lr.pts")
def _(a):
    return stored(a, S.r[a["name"]].GetPoints())


@op("lr.data")
def _(a):
    r = S.r[a["name"]]
    return {"v": raw(r.GetPoints().Pack(r.laz_config.las_header)).hex()}


@op("lr.close")
def _(a):
    S.r.pop(a["name"])


# ---- values that can be sent to other processes
HF = (("source", "file_source_id"), ("genc", "global_encoding"), ("day", "creation_day"), ("year", "creation_year"))
TF = {"guid": "guid", "sys": "system_identifier", "gen": "generating_software"}
NF = {"off": "offset", "size": "byte_size", "n": "point_count"}
PF = {"key": "key", "page": "page_key", "min": "min", "max": "max"}


def kind(o):
    for k, t in (("key", copc.VoxelKey), ("node", copc.Node), ("vec", copc.Vector3), ("chars", copc.VectorChar), ("header", copc.LasHeader)):
        if isinstance(o, t):
            return k
    raise Broken("kind")


def vkey(k):
    return {"d": str(k.d), "x": str(k.x), "y": str(k.y), "z": str(k.z)}


def vvec(v):
    return {"x": bits(v.x), "y": bits(v.y), "z": bits(v.z)}


def val(o):
    """a value and all its attributes"""
    k = kind(o)
    if k == "key":
        v = vkey(o)
    elif k == "vec":
        v = vvec(o)
    elif k == "node":
        v = {"key": vkey(o.key), "page": vkey(o.page_key), "off": str(o.offset), "size": str(o.byte_size), "n": str(o.point_count)}
    elif k == "chars":
        v = list(raw(o))
        if v != [ord(b) for b in o] or len(o) != len(v):
            v = [-1]
    else:
        h, t = header(o), X.texts(o)
        v = {"min": vvec(o.min), "max": vvec(o.max), "byret": h["byret"], "guid": list(t[0]), "sys": list(t[1]), "gen": list(t[2])}
        for f, _ in HF:
            v[f] = str(h[f])
        v["rest"] = json.dumps([h[f] for f in ("fmt", "reclen", "scale", "offset", "count", "pointoff", "vlrs", "evlrs", "evlroff", "copc", "ebsize")])
        for f, n in TF.items():
            try:
                same = list(getattr(o, n).encode("utf8")) == v[f]
            except UnicodeDecodeError:
                same = True
            if not same:
                v[f] = [-1]
    return {"kind": k, "v": v}


@op("val.make")
def _(a):
    k, v = a["kind"], a["v"]
    if k == "key":
        o = copc.VoxelKey(*[int(v[f]) for f in "dxyz"])
    elif k == "vec":
        o = V3([v[f] for f in "xyz"])
    elif k == "chars":
        o = chars(bytes(v))
    elif k == "node":
        o = copc.Node()
        o.key = copc.VoxelKey(*[int(v["key"][f]) for f in "dxyz"])
        o.page_key = copc.VoxelKey(*[int(v["page"][f]) for f in "dxyz"])
        for f, n in NF.items():
            setattr(o, n, int(v[f]))
    elif "from" in v:
        o = S.r[v["from"]].copc_config.las_header
    elif "counts" in v:     # as one read from a file with these
        o = X.header_read(v["fmt"], v["reclen"], V3(v["scale"]), V3(v["offset"]), *v["counts"])
    else:
        o = X.header(v["fmt"], v["reclen"], V3(v["scale"]), V3(v["offset"]), v["copc"])
    S.val[a["name"]] = o
    return val(o)


@op("val.node")     # one a reader found
def _(a):
    n = [n for n in S.r[a["r"]].GetAllNodes()]
    S.val[a["name"]] = n[a["i"] % len(n)]
    return val(S.val[a["name"]])


@op("val.part")
def _(a):
    S.val[a["name"]] = getattr(S.val[a["from"]], PF[a["a"]])


@op("val.put")
def _(a):
    o, f, v = S.val[a["name"]], a["a"], a["v"]
    k = kind(o)
    if k == "key":
        setattr(o, f, int(v))
    elif k == "vec":
        setattr(o, f, D(v))
    elif k == "node":
        setattr(o, NF[f], int(v))
    elif f in TF:
        b = bytes(v)
        try:
            b = b.decode("utf8")
        except UnicodeDecodeError:
            pass
        setattr(o, TF[f], b)
    elif f == "byret":
        o.points_by_return = v
    else:
        setattr(o, dict(HF)[f], int(v))


@op("val.putpart")
def _(a):
    setattr(S.val[a["name"]], PF[a["a"]], S.val[a["from"]])


@op("val.poke")
def _(a):
    S.val[a["name"]][a["i"]] = chr(a["b"])


@op("val.extend")
def _(a):
    c = S.val[a["name"]]
    for b in a["bs"]:
        c.append(chr(b))


@op("val.save")
def _(a):
    S.tok[a["to"]] = pickle.dumps([S.val[n] for n in a["names"]], protocol=a["proto"])


FAR = None


def far(b):
    """another process takes the values in, says what they are, and sends them back"""
    global FAR
    if not FAR:
        FAR = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--far"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    FAR.stdin.write(base64.b64encode(b).decode() + "\n")
    FAR.stdin.flush()
    r = json.loads(FAR.stdout.readline())
    if "err" in r:
        raise RuntimeError(r["err"])
    return base64.b64decode(r["again"]), r["seen"]


def be_far():
    for line in sys.stdin:
        try:
            o = pickle.loads(base64.b64decode(line))
            r = {"seen": [val(x) for x in o], "again": base64.b64encode(pickle.dumps(o)).decode()}
        except Exception as e:
            r = {"err": "%s: %s" % (type(e).__name__, e)}
        print(json.dumps(r), flush=True)


@op("val.load")
def _(a):
    b, seen = S.tok[a["from"]], []
    if a["far"]:
        b, seen = far(b)
    o = pickle.loads(b)
    if len(o) != len(a["names"]):
        raise RuntimeError("%d values for %d" % (len(o), len(a["names"])))
    for n, x in zip(a["names"], o):
        S.val[n] = x
    return {"seen": seen}


@op("val.copy")
def _(a):
    S.val[a["name"]] = getattr(copy, a["how"])(S.val[a["from"]])


@op("val.get")
def _(a):
    return val(S.val[a["name"]])


@op("val.eq")
def _(a):
    x, y = S.val[a["a"]], S.val[a["b"]]
    v = x == y
    if (x != y) == v or (y == x) != v:
        raise RuntimeError("== and != disagree")
    return {"v": v, "heq": hash(x) == hash(y) if kind(x) == "key" else True}


@op("val.send")     # values of the other types: whether they can be sent, and what they say before and after
def _(a):
    c6 = copc.CopcConfigWriter(7, V3([.1, .1, .1]), V3([1, 2, 3]), "text", EB([{"t": 3, "n": "x"}]), True)
    l6 = copc.LazConfigWriter(8, V3([.5, .1, .1]), V3([1, 2, 3]), "words", EB([{"t": 4, "n": "y"}]))
    ps = copc.Points(8, 2)
    for i in range(3):
        p = ps.CreatePoint()
        p.x, p.red, p.extra_bytes = i + .5, i + 7, [1, i]
        ps.AddPoint(p)
    b = copc.Box(1, 2, 3, 4, 5, 6)
    c6.copc_info.spacing = 4.5
    c6.copc_extents.intensity = copc.CopcExtent(1, 2, 3, 4)
    o, see = {"point": (ps[1], point), "points": (ps, points), "box": (b, box), "info": (c6.copc_info, info), "extents": (c6.copc_extents, extents),
              "extent": (c6.copc_extents.intensity, extent), "cfg": (c6, cfg), "laz": (l6, laz), "eb": (c6.extra_bytes_vlr, ebs)}[a["kind"]]
    before = see(o)
    r = pickle.dumps(o, protocol=a["proto"])
    return {"same": see(pickle.loads(r)) == before}


def main():
    global S
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        if not line.strip():
            continue
        script = json.loads(line)
        answers = []
        for a in script["ops"]:
            f = OPS.get(a["op"])
            if not f:
                sys.stderr.write("driver: unknown op %s\n" % a["op"])
                os._exit(99)
            try:
                r = f(a)
                r = dict(r or {}, ok=True)
            except Broken as e:
                sys.stderr.write("driver: bad script op %s: %s\n" % (json.dumps(a), e))
                os._exit(98)
            except Exception as e:
                r = {"ok": False, "err": "%s: %s" % (type(e).__name__, e)}
            answers.append(r)
        S.w.clear()
        S.r.clear()
        S.close()
        S = Store()
        out.write(json.dumps({"id": script["id"], "res": answers}) + "\n")
        out.flush()
    if FAR:
        FAR.stdin.close()
        FAR.wait()
    os._exit(0)


if __name__ == "__main__":
    if sys.argv[1:] == ["--ops"]:
        print(" ".join(OPS))
    elif sys.argv[1:] == ["--far"]:
        be_far()
    else:
        main()
