// keys, boxes, headers, extra bytes, configuration objects, extents
#include "common.hpp"

using namespace copc;

// ------------------------------------------------------------ keys
OP("key.info") {
    VoxelKey k = K(a["k"]);
    json r;
    r["valid"] = k.IsValid();
    r["str"] = k.ToString();
    r["parent"] = J(k.GetParent());
    r["parents"] = json::array();
    for (auto &p : k.GetParents())
        r["parents"].push_back(J(p));
    r["selfparents"] = json::array();
    for (auto &p : k.GetParents(true))
        r["selfparents"].push_back(J(p));
    r["children"] = json::array();
    r["bisect"] = json::array();
    if (a.value("down", true))
    {
        for (auto &p : k.GetChildren())
            r["children"].push_back(J(p));
        for (uint64_t i = 0; i < 8; i++)
            r["bisect"].push_back(J(k.Bisect(i)));
    }
    r["after"] = J(k);
    return r;
} END;
OP("key.at") { return json{{"v", J(K(a["k"]).GetParentAtDepth(a["d"].get<int>()))}}; } END;
OP("key.rel") {
    VoxelKey x = K(a["a"]), y = K(a["b"]);
    std::hash<VoxelKey> h;
    return json{{"childof", x.ChildOf(y)}, {"eq", x == y}, {"ne", x != y}, {"heq", h(x) == h(y)}};
} END;
OP("key.vec") {
    std::vector<int32_t> v = a["v"].get<std::vector<int32_t>>();
    return json{{"v", J(VoxelKey(v))}};
} END;
OP("key.res") {
    las::LasHeader h;
    CopcInfo i;
    i.spacing = D(a["spacing"]);
    VoxelKey k = K(a["k"]);
    return json{{"res", J(k.Resolution(h, i))}, {"at", J(VoxelKey::GetResolutionAtDepth(k.d, h, i))}};
} END;
OP("key.consts") {
    return json{{"root", J(VoxelKey::RootKey())}, {"inv", J(VoxelKey::InvalidKey())}, {"def", J(VoxelKey())}};
} END;

// ------------------------------------------------------------ boxes
static las::LasHeader mmHeader(const json &a)
{
    las::LasHeader h(6, 30, Vector3::DefaultScale(), Vector3::DefaultOffset(), true);
    h.min = V3(a["min"]);
    h.max = V3(a["max"]);
    return h;
}
OP("box.new") {
    std::string how = a["how"];
    std::vector<double> v;
    for (auto &e : a["v"])
        v.push_back(D(e));
    if (how == "vec")
        return json{{"v", J(Box(v))}};
    if (how == "args" && v.size() == 4)
        return json{{"v", J(Box(v[0], v[1], v[2], v[3]))}};
    if (how == "args")
        return json{{"v", J(Box(v[0], v[1], v[2], v[3], v[4], v[5]))}};
    if (how == "v3")
        return json{{"v", J(Box(Vector3(v[0], v[1], v[2]), Vector3(v[3], v[4], v[5])))}};
    if (how == "max")
        return json{{"v", J(Box::MaxBox())}};
    return json{{"v", J(Box::EmptyBox())}};
} END;
OP("box.rel") {
    Box x = BX(a["a"]), y = BX(a["b"]);
    return json{{"inter", x.Intersects(y)}, {"cont", x.Contains(y)}, {"within", x.Within(y)}};
} END;
OP("box.has") {
    Box x = BX(a["a"]);
    return json{{"v", x.Contains(V3(a["p"]))}};
} END;
OP("key.box") {
    auto h = mmHeader(a);
    Box b(K(a["k"]), h);
    return json{{"v", J(b)}, {"span", J(h.Span())}, {"bounds", J(h.Bounds())}};
} END;
OP("key.spat") {
    auto h = mmHeader(a);
    VoxelKey k = K(a["k"]);
    Box b = BX(a["b"]);
    return json{{"inter", k.Intersects(h, b)},
                {"cont", k.Contains(h, b)},
                {"within", k.Within(h, b)},
                {"crosses", k.Crosses(h, b)},
                {"has", k.Contains(h, V3(a["p"]))}};
} END;

// ------------------------------------------------------------ vectors and scaling
OP("vec.ops") {
    Vector3 x = V3(a["a"]), y = V3(a["b"]);
    double d = D(a["d"]);
    return json{{"muld", J(x * d)}, {"divd", J(x / d)}, {"addd", J(x + d)}, {"subd", J(x - d)}, {"mul", J(x * y)},
                {"div", J(x / y)},  {"add", J(x + y)},  {"sub", J(x - y)},  {"eq", x == y},     {"ne", x != y}};
} END;
OP("vec.vec") {
    std::vector<double> v;
    for (auto &e : a["v"])
        v.push_back(D(e));
    return json{{"v", J(Vector3(v))}};
} END;
OP("text") {
    std::string kind = a["kind"];
    if (kind == "key")
        return json{{"text", K(a["v"]).ToString()}};
    if (kind == "vec")
        return json{{"text", V3(a["v"]).ToString()}};
    if (kind == "box")
        return json{{"text", BX(a["v"]).ToString()}};
    return json{{"text", N(a["v"]).ToString()}};
} END;
OP("entry") {
    Entry e(N(a["v"]));
    std::stringstream ss, tt;
    e.Pack(ss);
    Entry f = Entry::Unpack(ss);
    f.Pack(tt);
    Page p(e.key, e.offset, e.byte_size), q(p);
    q.loaded = true;
    return json{{"bytes", hexOf(ss.str())}, {"again", hexOf(tt.str())}, {"valid", e.IsValid()}, {"page", e.IsPage()}, {"pvalid", p.IsValid()}, {"lvalid", q.IsValid()}};
} END;
OP("entry.eq") {
    Entry e(N(a["a"])), f(N(a["b"]));
    Page p(e.key, e.offset, e.byte_size), q(f.key, f.offset, f.byte_size);
    p.loaded = a["la"];
    q.loaded = a["lb"];
    return json{{"node", Node(e) == Node(f)}, {"pages", p == q}};
} END;
OP("fmt.info") {
    int8_t f = (int8_t)a["fmt"].get<int>();
    json r;
    auto tr = [&](const char *n, std::function<json()> g)
    {
        try
        {
            r[n] = g();
        }
        catch (const std::exception &)
        {
            r[n] = "error";
        }
    };
    tr("base", [&] { return json((int)las::PointBaseByteSize(f)); });
    tr("dims", [&] { return json((int)las::PointBaseNumberDimensions(f)); });
    tr("rgb", [&] { return json(las::FormatHasRgb(f)); });
    tr("nir", [&] { return json(las::FormatHasNir(f)); });
    tr("eb", [&] { return json((int)las::EbByteSize(f, a["len"].get<uint32_t>())); });
    tr("size", [&] { return json((int)las::PointByteSize(f, a["ebs"].get<uint16_t>())); });
    return r;
} END;
OP("las.scale") {
    double s = D(a["s"]), o = D(a["o"]);
    if (a.contains("i"))
        return json{{"v", J(las::ApplyScale<int32_t>(a["i"].get<int32_t>(), s, o))}};
    return json{{"v", las::RemoveScale<int32_t>(D(a["x"]), s, o)}};
} END;

// ------------------------------------------------------------ extra bytes
static void dcopy(double (&d)[3], const json &j)
{
    for (int i = 0; i < 3; i++)
        d[i] = D(j[i]);
}
las::EbVlr EB(const json &j)
{
    las::EbVlr v(0);
    for (auto &e : j)
    {
        las::EbVlr::ebfield f;
        f.data_type = (uint8_t)e["t"].get<int>();
        f.options = (uint8_t)e.value("o", 0);
        f.name = e.value("n", std::string());
        f.description = e.value("d", std::string());
        if (e.contains("sc"))
        {
            dcopy(f.no_data, e["nd"]);
            dcopy(f.minval, e["mn"]);
            dcopy(f.maxval, e["mx"]);
            dcopy(f.scale, e["sc"]);
            dcopy(f.offset, e["of"]);
        }
        v.items.push_back(f);
    }
    return v;
}
static json d3(const double (&d)[3]) { return json::array({J(d[0]), J(d[1]), J(d[2])}); }
json J(const las::EbVlr &v)
{
    json r = json::array();
    for (auto &f : v.items)
        r.push_back(json{{"t", f.data_type},
                         {"o", f.options},
                         {"n", f.name},
                         {"d", f.description},
                         {"nd", d3(f.no_data)},
                         {"mn", d3(f.minval)},
                         {"mx", d3(f.maxval)},
                         {"sc", d3(f.scale)},
                         {"of", d3(f.offset)}});
    return r;
}
OP("eb.bytes") { return json{{"v", las::NumBytesFromExtraBytes(EB(a["eb"]).items)}}; } END;
OP("eb.eq") {
    auto x = EB(a["a"]), y = EB(a["b"]);
    return json{{"v", x.items == y.items}};
} END;

// ------------------------------------------------------------ header
json J(const las::LasHeader &h)
{
    json r;
    r["fmt"] = (int)h.PointFormatId();
    r["reclen"] = h.PointRecordLength();
    r["scale"] = J(h.Scale());
    r["offset"] = J(h.Offset());
    r["min"] = J(h.min);
    r["max"] = J(h.max);
    r["count"] = h.PointCount();
    r["pointoff"] = h.PointOffset();
    r["vlrs"] = h.VlrCount();
    r["evlrs"] = h.EvlrCount();
    r["evlroff"] = h.EvlrOffset();
    r["copc"] = h.IsCopc();
    r["guid"] = hexOf(h.GUID());
    r["sys"] = hexOf(h.SystemIdentifier());
    r["gen"] = hexOf(h.GeneratingSoftware());
    r["source"] = h.file_source_id;
    r["genc"] = h.global_encoding;
    r["day"] = h.creation_day;
    r["year"] = h.creation_year;
    r["byret"] = std::vector<uint64_t>(h.points_by_return.begin(), h.points_by_return.end());
    try
    {
        r["ebsize"] = h.EbByteSize();
    }
    catch (const std::exception &)
    {
        r["ebsize"] = -1;
    }
    return r;
}
void setHeader(las::LasHeader &h, const json &j)
{
    if (j.contains("min"))
        h.min = V3(j["min"]);
    if (j.contains("max"))
        h.max = V3(j["max"]);
    if (j.contains("guid"))
        h.GUID(S(j["guid"]));
    if (j.contains("sys"))
        h.SystemIdentifier(S(j["sys"]));
    if (j.contains("gen"))
        h.GeneratingSoftware(S(j["gen"]));
    if (j.contains("source"))
        h.file_source_id = j["source"].get<uint16_t>();
    if (j.contains("genc"))
        h.global_encoding = j["genc"].get<uint16_t>();
    if (j.contains("day"))
        h.creation_day = j["day"].get<uint16_t>();
    if (j.contains("year"))
        h.creation_year = j["year"].get<uint16_t>();
    if (j.contains("byret"))
        for (int i = 0; i < 15; i++)
            h.points_by_return[i] = j["byret"][i].get<uint64_t>();
    if (j.value("gpsbit", false))
        h.SetGpsTimeBit();
}
OP("hdr.new") {
    obj().hdr[a["name"]] = std::make_shared<las::LasHeader>(
        (int8_t)a["fmt"].get<int>(), a["reclen"].get<uint16_t>(), V3(a["scale"]), V3(a["offset"]), a["copc"].get<bool>());
    return {};
} END;
OP("hdr.copy") {
    auto src = obj().hdr.at(a["from"]);
    std::string how = a["how"];
    if (how == "mod")
        obj().hdr[a["name"]] = std::make_shared<las::LasHeader>(
            *src, (int8_t)a["fmt"].get<int>(), a["reclen"].get<uint16_t>(), V3(a["scale"]), V3(a["offset"]));
    else if (how == "flag")
        obj().hdr[a["name"]] = std::make_shared<las::LasHeader>(*src, a["copc"].get<bool>());
    else
        obj().hdr[a["name"]] = std::make_shared<las::LasHeader>(*src);
    return {};
} END;
OP("hdr.set") {
    setHeader(*obj().hdr.at(a["name"]), a["set"]);
    return {};
} END;
OP("hdr.get") { return json{{"h", J(*obj().hdr.at(a["name"]))}}; } END;
OP("hdr.scale") {
    auto &h = *obj().hdr.at(a["name"]);
    json r;
    if (a.contains("v"))
    {
        Vector3 v = V3(a["v"]);
        r["apply"] = J(h.ApplyScale(v));
        r["inv"] = J(h.ApplyInverseScale(v));
        r["axyz"] = json::array({J(h.ApplyScaleX(v.x)), J(h.ApplyScaleY(v.y)), J(h.ApplyScaleZ(v.z))});
    }
    if (a.contains("r"))
    {
        Vector3 v = V3(a["r"]);
        r["rxyz"] = json::array({h.RemoveScaleX(v.x), h.RemoveScaleY(v.y), h.RemoveScaleZ(v.z)});
    }
    return r;
} END;
OP("hdr.bounds") {
    auto &h = *obj().hdr.at(a["name"]);
    h.CheckAndUpdateBounds(*obj().pt.at(a["pt"]));
    return {};
} END;
OP("hdr.span") {
    auto &h = *obj().hdr.at(a["name"]);
    return json{{"span", J(h.Span())}, {"bounds", J(h.Bounds())}};
} END;

// ------------------------------------------------------------ info, extents
json J(const CopcInfo &i)
{
    return json{{"cx", J(i.center_x)},  {"cy", J(i.center_y)},      {"cz", J(i.center_z)},     {"half", J(i.halfsize)},
                {"spacing", J(i.spacing)}, {"rootoff", i.root_hier_offset}, {"rootsize", i.root_hier_size}};
}
void setInfo(CopcInfo &i, const json &j)
{
    if (j.contains("cx"))
        i.center_x = D(j["cx"]);
    if (j.contains("cy"))
        i.center_y = D(j["cy"]);
    if (j.contains("cz"))
        i.center_z = D(j["cz"]);
    if (j.contains("half"))
        i.halfsize = D(j["half"]);
    if (j.contains("spacing"))
        i.spacing = D(j["spacing"]);
}
static json J(const CopcExtent &e) { return json::array({J(e.minimum), J(e.maximum), J(e.mean), J(e.var)}); }
json J(const CopcExtents &e)
{
    json r{{"fmt", (int)e.PointFormatId()}, {"ext", e.HasExtendedStats()}, {"n", e.NumberOfExtents()}};
    r["items"] = json::array();
    for (auto &x : e.Extents())
        r["items"].push_back(J(x));
    return r;
}
// set one named extent to [min,max,mean,var]; the value is installed through the dimension's own accessor
static void setExtent(CopcExtents &e, const std::string &n, const json &v, bool swap)
{
    auto mk = [&]
    {
        auto p = std::make_shared<CopcExtent>();
        p->minimum = D(v[0]);
        p->maximum = D(v[1]);
        p->mean = D(v[2]);
        p->var = D(v[3]);
        return p;
    };
#define EXT(NAME)                                                                                                      \
    if (n == #NAME)                                                                                                    \
    {                                                                                                                  \
        if (swap)                                                                                                      \
            e.NAME(mk());                                                                                              \
        else                                                                                                           \
            *e.NAME() = *mk();                                                                                         \
        return;                                                                                                        \
    }
    EXT(X) EXT(Y) EXT(Z) EXT(Intensity) EXT(ReturnNumber) EXT(NumberOfReturns) EXT(ScannerChannel)
    EXT(ScanDirectionFlag) EXT(EdgeOfFlightLine) EXT(Classification) EXT(UserData) EXT(ScanAngle)
    EXT(PointSourceId) EXT(GpsTime) EXT(Red) EXT(Green) EXT(Blue) EXT(Nir)
#undef EXT
    if (n == "ExtraBytes") // v is a list of extents
    {
        if (swap)
        {
            std::vector<std::shared_ptr<CopcExtent>> l;
            for (auto &x : v)
            {
                auto p = std::make_shared<CopcExtent>();
                p->minimum = D(x[0]);
                p->maximum = D(x[1]);
                p->mean = D(x[2]);
                p->var = D(x[3]);
                l.push_back(p);
            }
            e.ExtraBytes(l);
        }
        else
        {
            auto l = e.ExtraBytes();
            if (l.size() != v.size())
                throw std::runtime_error("driver: wrong number of extra byte extents");
            for (size_t i = 0; i < v.size(); i++)
            {
                l[i]->minimum = D(v[i][0]);
                l[i]->maximum = D(v[i][1]);
                l[i]->mean = D(v[i][2]);
                l[i]->var = D(v[i][3]);
            }
        }
        return;
    }
    throw std::runtime_error("driver: no such extent " + n);
}
static json getExtent(CopcExtents &e, const std::string &n)
{
#define EXT(NAME)                                                                                                      \
    if (n == #NAME)                                                                                                    \
        return J(*e.NAME());
    EXT(X) EXT(Y) EXT(Z) EXT(Intensity) EXT(ReturnNumber) EXT(NumberOfReturns) EXT(ScannerChannel)
    EXT(ScanDirectionFlag) EXT(EdgeOfFlightLine) EXT(Classification) EXT(UserData) EXT(ScanAngle)
    EXT(PointSourceId) EXT(GpsTime) EXT(Red) EXT(Green) EXT(Blue) EXT(Nir)
#undef EXT
    json r = json::array();
    for (auto &p : e.ExtraBytes())
        r.push_back(J(*p));
    return r;
}
void setExtents(CopcExtents &e, const json &j, bool swap)
{
    for (auto &it : j.items())
        setExtent(e, it.key(), it.value(), swap);
}
OP("ext.new") {
    obj().ext[a["name"]] = std::make_shared<CopcExtents>((int8_t)a["fmt"].get<int>(), a["neb"].get<uint16_t>(),
                                                         a["ext"].get<bool>());
    return {};
} END;
OP("ext.copy") {
    auto &s = *obj().ext.at(a["from"]);
    if (a.contains("fmt"))
        obj().ext[a["name"]] = std::make_shared<CopcExtents>(s, (int8_t)a["fmt"].get<int>(), a["neb"].get<uint16_t>(),
                                                             a["ext"].get<bool>());
    else
        obj().ext[a["name"]] = std::make_shared<CopcExtents>(s);
    return {};
} END;
OP("ext.set") {
    setExtent(*obj().ext.at(a["name"]), a["dim"], a["v"], a.value("swap", false));
    return {};
} END;
OP("ext.get") {
    auto e = obj().ext.at(a["name"]);
    return json{{"v", getExtent(*e, a["dim"])}};
} END;
OP("ext.dump") { return json{{"e", J(*obj().ext.at(a["name"]))}}; } END;
OP("ext.vlr") {
    auto &e = *obj().ext.at(a["name"]);
    auto v = a.value("extended", false) ? e.ToLazPerfExtended() : e.ToLazPerf({}, {}, {});
    std::ostringstream o;
    v.write(o);
    return json{{"bytes", hexOf(o.str())},
                {"size", v.size()},
                {"hdr", json::array({v.header().user_id, v.header().record_id, v.header().data_length})}};
} END;
OP("ext.fromvlr") {
    auto b = S(a["bytes"]);
    std::istringstream in(b);
    auto v = las::CopcExtentsVlr::create(in, (int)b.size());
    auto e = std::make_shared<CopcExtents>(v, (int8_t)a["fmt"].get<int>(), a["neb"].get<uint16_t>(),
                                           a["ext"].get<bool>());
    if (a.contains("stats"))
    {
        auto b2 = S(a["stats"]);
        std::istringstream in2(b2);
        e->SetExtendedStats(las::CopcExtentsVlr::create(in2, (int)b2.size()));
    }
    obj().ext[a["name"]] = e;
    return {};
} END;
OP("ext.size") {
    return json{{"n", CopcExtents::NumberOfExtents((int8_t)a["fmt"].get<int>(), a["neb"].get<uint16_t>())},
                {"bytes", CopcExtents::ByteSize((int8_t)a["fmt"].get<int>(), a["neb"].get<uint16_t>())}};
} END;
OP("extent.new") {
    std::vector<double> v;
    for (auto &e : a["v"])
        v.push_back(D(e));
    CopcExtent e;
    std::string how = a["how"];
    if (how == "vec")
        return json{{"v", J(CopcExtent(v))}};
    if (how == "copy")
    {
        e.minimum = v[0];
        e.maximum = v[1];
        e.mean = v[2];
        e.var = v[3];
        return json{{"v", J(CopcExtent(e))}};
    }
    if (v.size() == 2)
        return json{{"v", J(CopcExtent(v[0], v[1]))}};
    return json{{"v", J(CopcExtent(v[0], v[1], v[2], v[3]))}};
} END;

// ------------------------------------------------------------ configurations
json Jlaz(const las::LazConfig &c)
{
    return json{{"h", J(c.LasHeader())}, {"wkt", hexOf(c.Wkt())}, {"eb", J(c.ExtraBytesVlr())}};
}
json J(const CopcConfig &c)
{
    json r = Jlaz(c);
    r["info"] = J(c.CopcInfo());
    r["ext"] = J(c.CopcExtents());
    return r;
}
OP("cfg.new") {
    obj().cfg[a["name"]] = std::make_shared<CopcConfigWriter>(
        (int8_t)a["fmt"].get<int>(), a.contains("scale") ? V3(a["scale"]) : Vector3::DefaultScale(),
        a.contains("offset") ? V3(a["offset"]) : Vector3::DefaultOffset(), a.contains("wkt") ? S(a["wkt"]) : "",
        a.contains("eb") ? EB(a["eb"]) : las::EbVlr(0), a.value("ext", false));
    return {};
} END;
static std::shared_ptr<CopcConfigWriter> cfgOf(const json &n) { return obj().cfg.at(n.get<std::string>()); }
OP("cfg.copy") {
    std::string how = a.value("how", "writer");
    if (how == "writer")
        obj().cfg[a["name"]] = std::make_shared<CopcConfigWriter>(*cfgOf(a["from"]));
    else if (how == "reader") // from a configuration obtained from a reader
        obj().cfg[a["name"]] = std::make_shared<CopcConfigWriter>(*obj().rcfg.at(a["from"]));
    else // from its elements
    {
        const CopcConfigWriter &s = *cfgOf(a["from"]);
        obj().cfg[a["name"]] = std::make_shared<CopcConfigWriter>(s.LasHeader(), s.CopcInfo(), s.CopcExtents(), s.Wkt(),
                                                                  s.ExtraBytesVlr());
    }
    return {};
} END;
OP("cfg.set") {
    auto c = cfgOf(a["name"]);
    if (a.contains("h"))
        setHeader(*c->LasHeader(), a["h"]);
    if (a.contains("info"))
        setInfo(*c->CopcInfo(), a["info"]);
    if (a.contains("x"))
        setExtents(*c->CopcExtents(), a["x"], a.value("swap", false));
    return {};
} END;
OP("cfg.get") {
    const CopcConfigWriter &c = *cfgOf(a["name"]);
    return json{{"c", J(c)}};
} END;
OP("rcfg.get") { return json{{"c", J(*obj().rcfg.at(a["name"]))}}; } END;
OP("lcfg.new") {
    obj().lcfg[a["name"]] = std::make_shared<las::LazConfigWriter>(
        (int8_t)a["fmt"].get<int>(), a.contains("scale") ? V3(a["scale"]) : Vector3::DefaultScale(),
        a.contains("offset") ? V3(a["offset"]) : Vector3::DefaultOffset(), a.contains("wkt") ? S(a["wkt"]) : "",
        a.contains("eb") ? EB(a["eb"]) : las::EbVlr(0));
    return {};
} END;
OP("lcfg.copy") {
    std::string how = a.value("how", "writer");
    if (how == "writer")
        obj().lcfg[a["name"]] = std::make_shared<las::LazConfigWriter>(*obj().lcfg.at(a["from"]));
    else if (how == "rlaz")
        obj().lcfg[a["name"]] = std::make_shared<las::LazConfigWriter>(*obj().rlcfg.at(a["from"]));
    else if (how == "copcw")
    {
        const CopcConfigWriter &s = *cfgOf(a["from"]);
        obj().lcfg[a["name"]] = std::make_shared<las::LazConfigWriter>(las::LazConfig(s));
    }
    else
        obj().lcfg[a["name"]] = std::make_shared<las::LazConfigWriter>(las::LazConfig(*obj().rcfg.at(a["from"])));
    return {};
} END;
OP("lcfg.set") {
    if (a.contains("h"))
        setHeader(*obj().lcfg.at(a["name"])->LasHeader(), a["h"]);
    return {};
} END;
OP("lcfg.get") {
    const las::LazConfigWriter &c = *obj().lcfg.at(a["name"]);
    return json{{"c", Jlaz(c)}};
} END;

// ------------------------------------------------------------ parts of configurations
static const las::LazConfig &anyCfg(const json &a)
{
    if (a.contains("cfg"))
        return *cfgOf(a["cfg"]);
    if (a.contains("lcfg"))
        return *obj().lcfg.at(a["lcfg"]);
    if (a.contains("rcfg"))
        return *obj().rcfg.at(a["rcfg"]);
    return *obj().rlcfg.at(a["rlcfg"]);
}
OP("hdr.of") {
    obj().hdr[a["name"]] = std::make_shared<las::LasHeader>(anyCfg(a).LasHeader());
    return {};
} END;
OP("hdr.assign") {
    *obj().hdr.at(a["name"]) = *obj().hdr.at(a["from"]);
    return {};
} END;
OP("ext.of") {
    obj().ext[a["name"]] =
        std::make_shared<CopcExtents>(dynamic_cast<const CopcConfig &>(anyCfg(a)).CopcExtents());
    return {};
} END;
OP("ext.assign") {
    *obj().ext.at(a["name"]) = *obj().ext.at(a["from"]);
    return {};
} END;
OP("ext.into") { // into a configuration
    *cfgOf(a["name"])->CopcExtents() = *obj().ext.at(a["from"]);
    return {};
} END;
OP("cfg.parts") { // a configuration from parts; "laz" names a LAZ configuration to take header and texts from
    copc::CopcInfo info;
    setInfo(info, a.value("info", json::object()));
    auto &x = *obj().ext.at(a["ext"]);
    if (a.contains("laz"))
    {
        const las::LazConfig &l = *obj().lcfg.at(a["laz"]);
        copc::CopcConfig c(l, info, x);
        obj().cfg[a["name"]] = std::make_shared<CopcConfigWriter>(c);
    }
    else
        obj().cfg[a["name"]] =
            std::make_shared<CopcConfigWriter>(*obj().hdr.at(a["hdr"]), info, x, S(a["wkt"]), EB(a["eb"]));
    return {};
} END;
OP("lcfg.parts") {
    las::LazConfig l(*obj().hdr.at(a["hdr"]), S(a["wkt"]), EB(a["eb"]));
    obj().lcfg[a["name"]] = std::make_shared<las::LazConfigWriter>(l);
    return {};
} END;
OP("same") { // the library's own comparisons of descriptions and extents
    auto ebs = [](const std::string &n) {
        auto &o = obj();
        if (o.cfg.count(n) || o.rcfg.count(n))
            return o.cfg.count(n) ? cfgOf(n)->ExtraBytesVlr().items : o.rcfg.at(n)->ExtraBytesVlr().items;
        if (o.lcfg.count(n))
            return o.lcfg.at(n)->ExtraBytesVlr().items;
        if (o.rlcfg.count(n))
            return o.rlcfg.at(n)->ExtraBytesVlr().items;
        return std::vector<lazperf::eb_vlr::ebfield>();
    };
    auto exts = [](const std::string &n) {
        auto &o = obj();
        std::shared_ptr<CopcExtents> x;
        if (o.cfg.count(n))
            x = cfgOf(n)->CopcExtents();
        else if (o.rcfg.count(n))
            x = std::make_shared<CopcExtents>(o.rcfg.at(n)->CopcExtents());
        else if (o.ext.count(n))
            x = o.ext.at(n);
        return x ? std::as_const(*x).Extents() : std::vector<CopcExtent>();
    };
    std::string m = a["a"], n = a["b"];
    return json{{"eb", ebs(m) == ebs(n)}, {"ext", exts(m) == exts(n)}};
} END;
OP("cfg.assign") {
    *cfgOf(a["name"]) = *cfgOf(a["from"]);
    return {};
} END;
OP("lcfg.assign") {
    *obj().lcfg.at(a["name"]) = *obj().lcfg.at(a["from"]);
    return {};
} END;
OP("rcfg.copy") { // read-only copies
    if (a.contains("cfg"))
        obj().rcfg[a["name"]] = std::make_shared<CopcConfig>(*cfgOf(a["cfg"]));
    else
        obj().rcfg[a["name"]] = std::make_shared<CopcConfig>(*obj().rcfg.at(a["rcfg"]));
    return {};
} END;
OP("rlcfg.get") { return json{{"c", Jlaz(*obj().rlcfg.at(a["name"]))}}; } END;
OP("drop") {
    std::string n = a["name"];
    obj().cfg.erase(n);
    obj().rcfg.erase(n);
    obj().lcfg.erase(n);
    obj().rlcfg.erase(n);
    obj().hdr.erase(n);
    obj().ext.erase(n);
    return {};
} END;
