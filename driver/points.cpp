// points and point containers
#include "common.hpp"
#include <copc-lib/laz/compressor.hpp>
#include <copc-lib/laz/decompressor.hpp>

using namespace copc;
using las::Point;
using las::Points;

json ptDump(const Point &p)
{
    json r;
    r["fmt"] = (int)p.PointFormatId();
    r["reclen"] = p.PointRecordLength();
    r["ebsize"] = p.EbByteSize();
    r["hasrgb"] = p.HasRgb();
    r["hasnir"] = p.HasNir();
    r["X"] = J(p.X());
    r["Y"] = J(p.Y());
    r["Z"] = J(p.Z());
    r["Intensity"] = p.Intensity();
    r["ReturnNumber"] = p.ReturnNumber();
    r["NumberOfReturns"] = p.NumberOfReturns();
    r["ReturnsBitField"] = p.ReturnsBitField();
    r["Synthetic"] = (int)p.Synthetic();
    r["KeyPoint"] = (int)p.KeyPoint();
    r["Withheld"] = (int)p.Withheld();
    r["Overlap"] = (int)p.Overlap();
    r["ScannerChannel"] = p.ScannerChannel();
    r["ScanDirectionFlag"] = (int)p.ScanDirectionFlag();
    r["EdgeOfFlightLineFlag"] = (int)p.EdgeOfFlightLineFlag();
    r["FlagsBitField"] = p.FlagsBitField();
    r["Classification"] = p.Classification();
    r["UserData"] = p.UserData();
    r["ScanAngle"] = p.ScanAngle();
    r["ScanAngleDegrees"] = J((double)p.ScanAngleDegrees());
    r["PointSourceId"] = p.PointSourceId();
    r["GPSTime"] = J(p.GPSTime());
    auto tr = [&](const char *n, std::function<int()> g)
    {
        try
        {
            r[n] = g();
        }
        catch (const std::exception &)
        {
            r[n] = -1;
        }
    };
    tr("Red", [&] { return (int)p.Red(); });
    tr("Green", [&] { return (int)p.Green(); });
    tr("Blue", [&] { return (int)p.Blue(); });
    tr("Nir", [&] { return (int)p.Nir(); });
    r["ExtraBytes"] = hexOf(p.ExtraBytes());
    return r;
}
void ptSet(Point &p, const std::string &n, const json &v)
{
#define SETI(NAME, T)                                                                                                  \
    if (n == #NAME)                                                                                                    \
    {                                                                                                                  \
        p.NAME((T)v.get<int>());                                                                                       \
        return;                                                                                                        \
    }
#define SETD(NAME)                                                                                                     \
    if (n == #NAME)                                                                                                    \
    {                                                                                                                  \
        p.NAME(D(v));                                                                                                  \
        return;                                                                                                        \
    }
    SETD(X) SETD(Y) SETD(Z) SETD(GPSTime)
    SETI(Intensity, uint16_t) SETI(ReturnNumber, uint8_t) SETI(NumberOfReturns, uint8_t) SETI(ReturnsBitField, uint8_t)
    SETI(Synthetic, bool) SETI(KeyPoint, bool) SETI(Withheld, bool) SETI(Overlap, bool) SETI(ScannerChannel, uint8_t)
    SETI(ScanDirectionFlag, bool) SETI(EdgeOfFlightLineFlag, bool) SETI(FlagsBitField, uint8_t)
    SETI(Classification, uint8_t) SETI(UserData, uint8_t) SETI(ScanAngle, int16_t) SETI(PointSourceId, uint16_t)
    SETI(Red, uint16_t) SETI(Green, uint16_t) SETI(Blue, uint16_t) SETI(Nir, uint16_t)
#undef SETI
#undef SETD
    if (n == "ScanAngleDegrees")
        return p.ScanAngleDegrees((float)D(v));
    if (n == "Rgb")
        return p.Rgb((uint16_t)v[0].get<int>(), (uint16_t)v[1].get<int>(), (uint16_t)v[2].get<int>());
    if (n == "RgbVec")
    {
        std::vector<uint16_t> w;
        for (auto &e : v)
            w.push_back((uint16_t)e.get<int>());
        return p.Rgb(w);
    }
    if (n == "ExtraBytes")
    {
        auto s = S(v);
        return p.ExtraBytes(std::vector<uint8_t>(s.begin(), s.end()));
    }
    throw std::runtime_error("driver: no such attribute " + n);
}
static std::shared_ptr<Point> ptOf(const json &n) { return obj().pt.at(n.get<std::string>()); }
static std::shared_ptr<Points> ptsOf(const json &n) { return obj().pts.at(n.get<std::string>()); }

OP("pt.new") {
    obj().pt[a["name"]] = std::make_shared<Point>((int8_t)a["fmt"].get<int>(), a["eb"].get<uint16_t>());
    return {};
} END;
OP("pt.newh") {
    obj().pt[a["name"]] = std::make_shared<Point>(*obj().hdr.at(a["hdr"]));
    return {};
} END;
OP("pt.copy") {
    obj().pt[a["name"]] = std::make_shared<Point>(*ptOf(a["from"]));
    return {};
} END;
OP("pt.alias") {
    obj().pt[a["name"]] = ptOf(a["from"]);
    return {};
} END;
OP("pt.set") {
    ptSet(*ptOf(a["name"]), a["attr"], a["v"]);
    return {};
} END;
// several attributes at once, in the given order
OP("pt.fill") {
    for (auto &kv : a["set"])
        ptSet(*ptOf(a["name"]), kv[0], kv[1]);
    return {};
} END;
OP("pt.get") { return json{{"p", ptDump(*ptOf(a["name"]))}}; } END;
OP("pt.eq") {
    return json{{"v", *ptOf(a["a"]) == *ptOf(a["b"])}, {"n", *ptOf(a["a"]) != *ptOf(a["b"])}};
} END;
OP("pt.convert") {
    ptOf(a["name"])->ToPointFormat((int8_t)a["fmt"].get<int>());
    return {};
} END;
OP("pt.within") { return json{{"v", ptOf(a["name"])->Within(BX(a["box"]))}}; } END;
OP("pt.pack") {
    std::ostringstream o;
    ptOf(a["name"])->Pack(o, V3(a["scale"]), V3(a["offset"]));
    return json{{"bytes", hexOf(o.str())}};
} END;
OP("pt.unpack") {
    std::istringstream in(S(a["bytes"]));
    obj().pt[a["name"]] =
        Point::Unpack(in, (int8_t)a["fmt"].get<int>(), V3(a["scale"]), V3(a["offset"]), a["eb"].get<uint16_t>());
    return json{{"used", (int)in.tellg()}};
} END;

// ------------------------------------------------------------ containers
json ptsDump(const Points &p)
{
    json r{{"fmt", (int)p.PointFormatId()}, {"reclen", p.PointRecordLength()}, {"eb", p.EbByteSize()}, {"n", p.Size()}};
    r["pts"] = json::array();
    for (auto &q : p)
        r["pts"].push_back(ptDump(*q));
    return r;
}
OP("pts.new") {
    obj().pts[a["name"]] = std::make_shared<Points>((int8_t)a["fmt"].get<int>(), a["eb"].get<uint16_t>());
    return {};
} END;
OP("pts.newh") {
    obj().pts[a["name"]] = std::make_shared<Points>(*obj().hdr.at(a["hdr"]));
    return {};
} END;
OP("pts.newv") {
    std::vector<std::shared_ptr<Point>> v;
    for (auto &n : a["pts"])
        v.push_back(ptOf(n));
    obj().pts[a["name"]] = std::make_shared<Points>(v);
    return {};
} END;
OP("pts.add") {
    ptsOf(a["name"])->AddPoint(ptOf(a["pt"]));
    return {};
} END;
OP("pts.addv") {
    std::vector<std::shared_ptr<Point>> v;
    for (auto &n : a["pts"])
        v.push_back(ptOf(n));
    ptsOf(a["name"])->AddPoints(v);
    return {};
} END;
OP("pts.addpts") {
    ptsOf(a["name"])->AddPoints(*ptsOf(a["from"]));
    return {};
} END;
OP("pts.create") {
    obj().pt[a["pt"]] = ptsOf(a["name"])->CreatePoint();
    return {};
} END;
OP("pts.at") {
    auto p = ptsOf(a["name"]);
    size_t i = a["i"].get<size_t>();
    const Points &cp = *p;
    bool same = p->Get(i) == (*p)[i] && cp[i] == p->Get()[i] && *(p->begin() + i) == cp[i];
    obj().pt[a["pt"]] = p->Get(i);
    return json{{"same", same}};
} END;
OP("pts.put") {
    (*ptsOf(a["name"]))[a["i"].get<size_t>()] = ptOf(a["pt"]);
    return {};
} END;
OP("pts.convert") {
    ptsOf(a["name"])->ToPointFormat((int8_t)a["fmt"].get<int>());
    return {};
} END;
OP("pts.get") { return json{{"p", ptsDump(*ptsOf(a["name"]))}}; } END;
OP("pts.copy") {
    obj().pts[a["name"]] = std::make_shared<Points>(*ptsOf(a["from"]));
    return {};
} END;
template <typename T> static std::vector<T> ints(const json &v)
{
    std::vector<T> w;
    for (auto &e : v)
        w.push_back((T)e.get<long long>());
    return w;
}
// uses 16 bit values where the bulk setter takes them
template <typename P> static auto bulkPsid(P &p, const json &v, int) -> decltype(p.PointSourceId(ints<uint16_t>(v)))
{
    p.PointSourceId(ints<uint16_t>(v));
}
template <typename P> static void bulkPsid(P &p, const json &v, long) { p.PointSourceId(ints<uint8_t>(v)); }
OP("pts.setbulk") {
    auto &p = *ptsOf(a["name"]);
    std::string n = a["attr"];
    auto dv = [&]
    {
        std::vector<double> w;
        for (auto &e : a["v"])
            w.push_back(D(e));
        return w;
    };
    if (n == "X")
        p.X(dv());
    else if (n == "Y")
        p.Y(dv());
    else if (n == "Z")
        p.Z(dv());
    else if (n == "Classification")
        p.Classification(ints<uint8_t>(a["v"]));
    else if (n == "PointSourceId")
        bulkPsid(p, a["v"], 0);
    else if (n == "Red")
        p.Red(ints<uint16_t>(a["v"]));
    else if (n == "Green")
        p.Green(ints<uint16_t>(a["v"]));
    else if (n == "Blue")
        p.Blue(ints<uint16_t>(a["v"]));
    else
        throw std::runtime_error("driver: no bulk " + n);
    return {};
} END;
OP("pts.getbulk") {
    const Points &p = *ptsOf(a["name"]);
    std::string n = a["attr"];
    json r = json::array();
    auto d = [&](const std::vector<double> &v)
    {
        for (auto e : v)
            r.push_back(J(e));
    };
    if (n == "X")
        d(p.X());
    else if (n == "Y")
        d(p.Y());
    else if (n == "Z")
        d(p.Z());
    else if (n == "Classification")
        for (auto e : p.Classification())
            r.push_back((int)e);
    else if (n == "PointSourceId")
        for (auto e : p.PointSourceId())
            r.push_back((int)e);
    else if (n == "Red")
        for (auto e : p.Red())
            r.push_back((int)e);
    else if (n == "Green")
        for (auto e : p.Green())
            r.push_back((int)e);
    else if (n == "Blue")
        for (auto e : p.Blue())
            r.push_back((int)e);
    return json{{"v", r}};
} END;
OP("pts.within") {
    auto p = ptsOf(a["name"]);
    Box b = BX(a["box"]);
    json idx = json::array();
    auto all = p->Get();
    size_t at = 0;
    for (auto &q : p->GetWithin(b)) // subsequence of the container, by identity
    {
        while (at < all.size() && all[at] != q)
            at++;
        idx.push_back(at < all.size() ? (int)at : -1);
        at++;
    }
    return json{{"all", p->Within(b)}, {"idx", idx}};
} END;
OP("pts.pack") {
    auto p = ptsOf(a["name"]);
    std::ostringstream o;
    std::vector<char> v;
    if (a.contains("hdr"))
    {
        p->Pack(o, *obj().hdr.at(a["hdr"]));
        v = p->Pack(*obj().hdr.at(a["hdr"]));
    }
    else
    {
        p->Pack(o, V3(a["scale"]), V3(a["offset"]));
        v = p->Pack(V3(a["scale"]), V3(a["offset"]));
    }
    auto s = o.str();
    return json{{"bytes", hexOf(v)}, {"same", std::string(v.begin(), v.end()) == s}};
} END;
OP("pts.unpack") {
    if (a.contains("hdr"))
        obj().pts[a["name"]] = std::make_shared<Points>(Points::Unpack(B(a["bytes"]), *obj().hdr.at(a["hdr"])));
    else
        obj().pts[a["name"]] = std::make_shared<Points>(Points::Unpack(
            B(a["bytes"]), (int8_t)a["fmt"].get<int>(), a["eb"].get<uint16_t>(), V3(a["scale"]), V3(a["offset"])));
    return {};
} END;
// create a filled container in one go: rows are lists of [attr,value]
OP("pts.make") {
    auto p = std::make_shared<Points>((int8_t)a["fmt"].get<int>(), a["eb"].get<uint16_t>());
    for (auto &row : a["rows"])
    {
        auto q = p->CreatePoint();
        for (auto &kv : row)
            ptSet(*q, kv[0], kv[1]);
        p->AddPoint(q);
    }
    obj().pts[a["name"]] = p;
    return {};
} END;

// ------------------------------------------------------------ chunk codec helpers
OP("codec.c") {
    std::string how = a["how"];
    auto in = B(a["bytes"]);
    int8_t f = (int8_t)a.value("fmt", 6);
    uint16_t eb = a.value("eb", 0);
    if (how == "vec")
        return json{{"v", hexOf(laz::Compressor::CompressBytes(in, f, eb))}};
    if (how == "vechdr")
        return json{{"v", hexOf(laz::Compressor::CompressBytes(in, *obj().hdr.at(a["hdr"])))}};
    std::ostringstream o;
    o << S(a["pre"]);
    int n = how == "stream" ? laz::Compressor::CompressBytes(o, f, eb, in)
                            : laz::Compressor::CompressBytes(o, *obj().hdr.at(a["hdr"]), in);
    return json{{"v", hexOf(o.str())}, {"n", n}};
} END;
OP("codec.d") {
    std::string how = a["how"];
    int8_t f = (int8_t)a.value("fmt", 6);
    uint16_t eb = a.value("eb", 0);
    int n = a["n"];
    if (how == "vec")
        return json{{"v", hexOf(laz::Decompressor::DecompressBytes(B(a["bytes"]), f, eb, n))}};
    if (how == "vechdr")
        return json{{"v", hexOf(laz::Decompressor::DecompressBytes(B(a["bytes"]), *obj().hdr.at(a["hdr"]), n))}};
    std::istringstream in(S(a["bytes"]));
    in.seekg(a["at"].get<int>());
    auto v = how == "stream" ? laz::Decompressor::DecompressBytes(in, f, eb, n)
                             : laz::Decompressor::DecompressBytes(in, *obj().hdr.at(a["hdr"]), n);
    bool usable = in.good();
    in.seekg(0);
    usable = usable && in.good() && in.tellg() == std::streampos(0);
    return json{{"v", hexOf(v)}, {"usable", usable}};
} END;
