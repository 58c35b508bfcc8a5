// COPC and LAZ writers and readers
#include <csignal>
#include "common.hpp"
#include <copc-lib/io/copc_reader.hpp>
#include <copc-lib/io/copc_writer.hpp>
#include <copc-lib/io/laz_reader.hpp>
#include <copc-lib/io/laz_writer.hpp>
#include <copc-lib/laz/compressor.hpp>
#include <copc-lib/laz/decompressor.hpp>
#include <sys/resource.h>

using namespace copc;

// ------------------------------------------------------------ streams
// An in-memory seekable stream buffer whose device accepts or serves only some of the bytes.
struct FaultBuf : public std::streambuf
{
    std::string data;
    size_t pos{0};
    long budget{-1};   // writes: bytes accepted before the device fails (-1: never)
    bool failed{false};
    long rbudget{-1};  // reads
    // hard: nothing is stored any more; once: one byte is refused, later ones are not; lazy: like a device behind a
    // cache, which tells at the next flush; seek: the budget counts seeks, and those fail from then on
    std::string mode{"hard"};
    long used{0}, seeks{0};
    bool write1(char c)
    {
        used++;
        if (mode != "seek" && (budget == 0 || (failed && mode != "once")))
        {
            failed = true;
            if (mode == "lazy")
            {
                pos++;
                return true;
            }
            if (mode == "once")
                budget = -1;
            return false;
        }
        if (mode != "seek" && budget > 0)
            budget--;
        if (pos >= data.size())
            data.resize(pos + 1);
        data[pos++] = c;
        return true;
    }
    int overflow(int c) override { return write1((char)c) ? (unsigned char)c : EOF; }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        std::streamsize i = 0;
        if (mode != "seek" && !failed && (budget < 0 || budget >= n))
        {
            // all of it
            if (pos + n > data.size())
                data.resize(pos + n);
            std::memcpy(&data[pos], s, n);
            pos += n;
            used += n;
            if (budget > 0)
                budget -= n;
            return n;
        }
        while (i < n && write1(s[i]))
            i++;
        return i;
    }
    int sync() override { return mode == "lazy" && failed ? -1 : 0; }
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
    {
        seeks++;
        if (mode == "seek" && budget >= 0 && seeks > budget)
        {
            failed = true;
            return pos_type(off_type(-1));
        }
        off_type base = dir == std::ios::beg ? 0 : dir == std::ios::cur ? (off_type)pos : (off_type)data.size();
        if (base + off < 0)
            return pos_type(off_type(-1));
        pos = base + off;
        return pos_type(pos);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios::beg, m); }
    int underflow() override
    {
        if (pos >= data.size() || rbudget == 0)
            return EOF;
        return (unsigned char)data[pos];
    }
    int uflow() override
    {
        int c = underflow();
        if (c != EOF)
        {
            pos++;
            if (rbudget > 0)
                rbudget--;
        }
        return c;
    }
    std::streamsize xsgetn(char *s, std::streamsize n) override
    {
        std::streamsize i = 0;
        for (; i < n; i++)
        {
            int c = uflow();
            if (c == EOF)
                break;
            s[i] = (char)c;
        }
        return i;
    }
};

// A device that stores only what isn't zero, so that files may be larger than the memory.
struct SparseStore
{
    std::map<uint64_t, std::string> pages;
    uint64_t size{0};
    std::vector<std::pair<uint64_t, uint64_t>> holes; // long runs of zeros written at once
    static constexpr uint64_t PAGE = 1 << 16;
    void put(uint64_t at, const char *s, uint64_t n)
    {
        if (n >= (1 << 24) && s[0] == 0 && std::memcmp(s, s + 1, n - 1) == 0)
            holes.push_back({at, n});
        while (n)
        {
            uint64_t p = at / PAGE, o = at % PAGE, m = std::min(n, PAGE - o);
            auto it = pages.find(p);
            bool zero = s[0] == 0 && (m == 1 || std::memcmp(s, s + 1, m - 1) == 0);
            if (it == pages.end() && !zero)
                it = pages.emplace(p, std::string(PAGE, 0)).first;
            if (it != pages.end())
                std::memcpy(&it->second[o], s, m);
            at += m, s += m, n -= m;
            size = std::max(size, at);
        }
    }
    void get(uint64_t at, char *s, uint64_t n)
    {
        while (n)
        {
            uint64_t p = at / PAGE, o = at % PAGE, m = std::min(n, PAGE - o);
            auto it = pages.find(p);
            if (it == pages.end())
                std::memset(s, 0, m);
            else
                std::memcpy(s, &it->second[o], m);
            at += m, s += m, n -= m;
        }
    }
};
struct SparseBuf : public std::streambuf
{
    std::shared_ptr<SparseStore> st;
    uint64_t pos{0};
    SparseBuf(std::shared_ptr<SparseStore> s) : st(std::move(s)) {}
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        st->put(pos, s, n);
        pos += n;
        return n;
    }
    int overflow(int c) override
    {
        char b = (char)c;
        return xsputn(&b, 1), (unsigned char)c;
    }
    int underflow() override
    {
        char b;
        if (pos >= st->size)
            return EOF;
        st->get(pos, &b, 1);
        return (unsigned char)b;
    }
    int uflow() override
    {
        int c = underflow();
        if (c != EOF)
            pos++;
        return c;
    }
    std::streamsize xsgetn(char *s, std::streamsize n) override
    {
        uint64_t m = pos >= st->size ? 0 : std::min<uint64_t>(n, st->size - pos);
        st->get(pos, s, m);
        pos += m;
        return m;
    }
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
    {
        off_type base = dir == std::ios::beg ? 0 : dir == std::ios::cur ? (off_type)pos : (off_type)st->size;
        if (base + off < 0)
            return pos_type(off_type(-1));
        pos = base + off;
        return pos_type(off_type(pos));
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios::beg, m); }
};
static std::map<std::string, std::shared_ptr<SparseStore>> SP;

struct WriterBox
{
    std::string sink;
    std::shared_ptr<SparseStore> sp;
    std::shared_ptr<SparseBuf> spb;
    std::string path;
    std::shared_ptr<std::stringstream> ss;
    std::shared_ptr<FaultBuf> fb;
    std::shared_ptr<std::ostream> fos;
    std::shared_ptr<Writer> w;
    std::shared_ptr<FileWriter> fw;
    std::shared_ptr<laz::LazWriter> lw;
    std::shared_ptr<laz::LazFileWriter> lfw;
    Writer &get()
    {
        if (fw)
            return *fw;
        if (!w)
            throw std::runtime_error("driver: writer is gone");
        return *w;
    }
};
struct ReaderBox
{
    std::shared_ptr<SparseBuf> spb;
    std::shared_ptr<std::istringstream> ss;
    std::shared_ptr<FaultBuf> fb;
    std::shared_ptr<std::istream> fis;
    std::shared_ptr<Reader> r;
    std::shared_ptr<laz::LazReader> lr;
    std::shared_ptr<laz::LazFileReader> lfr;
};
static std::map<std::string, std::shared_ptr<WriterBox>> W;
static std::map<std::string, std::shared_ptr<ReaderBox>> R;
static std::map<std::string, std::shared_ptr<std::stringstream>> CS; // streams for the compression helpers
void ioReset()
{
    SP.clear();
    CS.clear();
    R.clear();
    W.clear();
}
static std::string slurp(const std::string &p)
{
    std::ifstream f(p, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
static std::string bytesOf(WriterBox &b)
{
    if (b.sink == "file")
        return slurp(b.path);
    if (b.sink == "fault")
        return b.fb->data;
    return b.ss->str();
}
static std::shared_ptr<std::ostream> mkSink(WriterBox &b, const json &a)
{
    b.sink = a.value("sink", "mem");
    if (b.sink == "fault")
    {
        b.fb = std::make_shared<FaultBuf>();
        b.fb->budget = a["budget"].get<long>();
        b.fb->mode = a.value("mode", "hard");
        b.fos = std::make_shared<std::ostream>(b.fb.get());
        if (a.value("exceptions", false))
            b.fos->exceptions(std::ios::badbit | std::ios::failbit);
        return b.fos;
    }
    if (b.sink == "sparse")
    {
        b.sp = SP[a["name"]] = std::make_shared<SparseStore>();
        b.spb = std::make_shared<SparseBuf>(b.sp);
        return b.fos = std::make_shared<std::ostream>(b.spb.get());
    }
    b.ss = std::make_shared<std::stringstream>(std::ios::in | std::ios::out | std::ios::binary);
    return b.ss;
}
static json Jsparse(const SparseStore &s, bool all)
{
    json r{{"len", s.size}, {"holes", s.holes}};
    if (all)
    {
        r["parts"] = json::array();
        for (auto &p : s.pages)
            r["parts"].push_back(json::array({p.first * SparseStore::PAGE, hexOf(p.second)}));
    }
    return r;
}
OP("sparse.set") { // a file from its pieces
    auto s = SP[a["name"]] = std::make_shared<SparseStore>();
    for (auto &p : a["parts"])
    {
        auto b = S(p[1]);
        s->put(p[0].get<uint64_t>(), b.data(), b.size());
    }
    return {};
} END;

template <typename T> static std::optional<T> opt(const json &a, const char *n, std::function<T(const json &)> f)
{
    if (a.contains(n))
        return f(a[n]);
    return {};
}

// ------------------------------------------------------------ COPC writer
OP("w.new") {
    auto b = std::make_shared<WriterBox>();
    auto c = obj().cfg.at(a["cfg"]);
    auto o = a.value("over", json::object());
    auto fmt = opt<int8_t>(o, "fmt", [](const json &j) { return (int8_t)j.get<int>(); });
    auto scale = opt<Vector3>(o, "scale", [](const json &j) { return V3(j); });
    auto offset = opt<Vector3>(o, "offset", [](const json &j) { return V3(j); });
    auto wkt = opt<std::string>(o, "wkt", [](const json &j) { return S(j); });
    auto eb = opt<las::EbVlr>(o, "eb", [](const json &j) { return EB(j); });
    auto ext = opt<bool>(o, "ext", [](const json &j) { return j.get<bool>(); });
    b->sink = a.value("sink", "mem");
    if (b->sink == "file")
    {
        b->path = a["path"];
        b->fw = std::make_shared<FileWriter>(b->path, *c, fmt, scale, offset, wkt, eb, ext);
        if (b->fw->FilePath() != b->path)
            throw std::runtime_error("driver: FilePath differs");
    }
    else
    {
        auto s = mkSink(*b, a);
        b->w = std::make_shared<Writer>(*s, *c, fmt, scale, offset, wkt, eb, ext);
    }
    W[a["name"]] = b;
    return {};
} END;
static WriterBox &wOf(const json &a) { return *W.at(a["name"].get<std::string>()); }
OP("w.add") {
    auto &w = wOf(a).get();
    VoxelKey k = K(a["k"]);
    bool dp = !a.contains("p");
    VoxelKey p = dp ? VoxelKey::RootKey() : K(a["p"]);
    Node n;
    if (a.contains("pts"))
        n = dp ? w.AddNode(k, *obj().pts.at(a["pts"])) : w.AddNode(k, *obj().pts.at(a["pts"]), p);
    else if (a.contains("zeros"))
    {
        std::vector<char> z = zeros(a["zeros"]);
        n = w.AddNodeCompressed(k, z, a["n"].get<int32_t>(), p);
    }
    else if (a.contains("comp"))
        n = dp ? w.AddNodeCompressed(k, B(a["comp"]), a["n"].get<int32_t>())
               : w.AddNodeCompressed(k, B(a["comp"]), a["n"].get<int32_t>(), p);
    else
        n = dp ? w.AddNode(k, B(a["data"])) : w.AddNode(k, B(a["data"]), p);
    return json{{"node", J(n)}};
} END;
OP("w.move") {
    wOf(a).get().ChangeNodePage(K(a["k"]), K(a["p"]));
    return {};
} END;
OP("w.find") { return json{{"node", J(wOf(a).get().FindNode(K(a["k"])))}}; } END;
OP("w.close") {
    wOf(a).get().Close();
    return {};
} END;
OP("w.destroy") {
    auto &b = wOf(a);
    b.w.reset();
    b.fw.reset();
    return {};
} END;
OP("w.bytes") { // current output, also stored as a named buffer
    if (wOf(a).sp)
        return Jsparse(*wOf(a).sp, true);
    auto s = bytesOf(wOf(a));
    if (a.contains("buf"))
        obj().buf[a["buf"]] = s;
    json r{{"len", s.size()}};
    if (a.value("hex", true))
        r["hex"] = hexOf(s);
    auto &b = wOf(a);
    if (b.fb)
        r["failed"] = b.fb->failed;
    return r;
} END;
OP("w.cfg") { // configuration seen through the writer
    auto c = wOf(a).get().CopcConfig();
    if (a.contains("set"))
    {
        if (a["set"].contains("h"))
            setHeader(*c->LasHeader(), a["set"]["h"]);
        if (a["set"].contains("info"))
            setInfo(*c->CopcInfo(), a["set"]["info"]);
        if (a["set"].contains("x"))
            setExtents(*c->CopcExtents(), a["set"]["x"]);
    }
    const CopcConfigWriter &cc = *c;
    return json{{"c", J(cc)}};
} END;

OP("w.own") { // the writer's own configuration, under a name
    obj().cfg[a["to"]] = wOf(a).get().CopcConfig();
    return {};
} END;

// ------------------------------------------------------------ LAZ writer
OP("lw.new") {
    auto b = std::make_shared<WriterBox>();
    auto c = obj().lcfg.at(a["cfg"]);
    b->sink = a.value("sink", "mem");
    if (b->sink == "file")
    {
        b->path = a["path"];
        b->lfw = std::make_shared<laz::LazFileWriter>(b->path, *c);
    }
    else
    {
        auto s = mkSink(*b, a);
        b->lw = std::make_shared<laz::LazWriter>(*s, *c);
    }
    W[a["name"]] = b;
    return {};
} END;
static laz::LazWriter &lwOf(const json &a)
{
    auto &b = wOf(a);
    if (b.lfw)
        return *b.lfw;
    if (!b.lw)
        throw std::runtime_error("driver: writer is gone");
    return *b.lw;
}
OP("lw.add") {
    auto &w = lwOf(a);
    bool done = true;
    std::string err;
    try
    {
        for (int i = a.value("times", 1); i > 1; i--) // the same again and again
            w.WritePointsCompressed(B(a["comp"]), a["n"].get<int32_t>());
        if (a.contains("pts"))
            w.WritePoints(*obj().pts.at(a["pts"]));
        else
            w.WritePointsCompressed(a.contains("zeros") ? zeros(a["zeros"]) : B(a["comp"]),
                                    a["n"].get<int32_t>());
    }
    catch (const json::exception &)
    {
        throw;
    }
    catch (const std::exception &e)
    {
        done = false;
        err = e.what();
    }
    return json{{"done", done}, {"err", err}, {"points", w.PointCount()}, {"chunks", w.ChunkCount()}};
} END;
OP("lw.counts") {
    auto &w = lwOf(a);
    return json{{"points", w.PointCount()}, {"chunks", w.ChunkCount()}};
} END;
OP("lw.close") {
    auto &b = wOf(a);
    if (b.lfw)
        b.lfw->Close();
    else
        b.lw->Close();
    return {};
} END;
OP("lw.destroy") {
    auto &b = wOf(a);
    b.lw.reset();
    b.lfw.reset();
    return {};
} END;
OP("lw.cfg") {
    auto c = lwOf(a).LazConfig();
    if (a.contains("set"))
        setHeader(*c->LasHeader(), a["set"]["h"]);
    const las::LazConfigWriter &cc = *c;
    return json{{"c", Jlaz(cc)}};
} END;

OP("lw.own") {
    obj().lcfg[a["to"]] = lwOf(a).LazConfig();
    return {};
} END;

// ------------------------------------------------------------ buffers
OP("buf.set") {
    obj().buf[a["buf"]] = S(a["hex"]);
    return {};
} END;
OP("buf.get") { return json{{"hex", hexOf(obj().buf.at(a["buf"]))}}; } END;
OP("buf.cut") {
    obj().buf[a["to"]] = obj().buf.at(a["buf"]).substr(0, a["len"].get<size_t>());
    return {};
} END;
OP("buf.save") {
    std::ofstream f(a["path"].get<std::string>(), std::ios::binary);
    auto &s = obj().buf.at(a["buf"]);
    f.write(s.data(), s.size());
    return {};
} END;
OP("file.get") { return json{{"hex", hexOf(slurp(a["path"]))}}; } END;
OP("file.rm") {
    std::remove(a["path"].get<std::string>().c_str());
    return {};
} END;
OP("fsize") { // soft limit on file sizes, so that writing to a real file fails like a full disk
    struct rlimit l;
    getrlimit(RLIMIT_FSIZE, &l);
    l.rlim_cur = a["n"].get<long>() < 0 ? l.rlim_max : (rlim_t)a["n"].get<long>();
    signal(SIGXFSZ, SIG_IGN);
    setrlimit(RLIMIT_FSIZE, &l);
    return {};
} END;

// ------------------------------------------------------------ compression helpers on a living stream
OP("cs.new") {
    auto s = std::make_shared<std::stringstream>(std::ios::in | std::ios::out | std::ios::binary);
    *s << S(a["pre"]);
    CS[a["name"]] = s;
    return {};
} END;
OP("cs.put") {
    auto &s = *CS.at(a["name"]);
    auto in = B(a["bytes"]);
    json r{{"done", true}};
    try
    {
        s.seekp(0, std::ios::end);
        r["n"] = a.contains("hdr") ? laz::Compressor::CompressBytes(s, *obj().hdr.at(a["hdr"]), in)
                                   : laz::Compressor::CompressBytes(s, (int8_t)a["fmt"].get<int>(), a["eb"].get<uint16_t>(), in);
        r["put"] = (long)s.tellp();
    }
    catch (const json::exception &)
    {
        throw;
    }
    catch (const std::exception &e)
    {
        r["done"] = false;
        r["err"] = e.what();
    }
    r["hex"] = hexOf(s.str());
    return r;
} END;
OP("cs.get") {
    auto &s = *CS.at(a["name"]);
    s.seekg(a["at"].get<long>());
    int n = a["n"];
    auto v = a.contains("hdr") ? laz::Decompressor::DecompressBytes(s, *obj().hdr.at(a["hdr"]), n)
                               : laz::Decompressor::DecompressBytes(s, (int8_t)a["fmt"].get<int>(), a["eb"].get<uint16_t>(), n);
    return json{{"v", hexOf(v)}, {"usable", s.good() && !s.eof()}};
} END;

// One writing session again and again, each time on a device that fails differently.
static void limitFiles(long n)
{
    ops().at("fsize")(json{{"n", n}});
}
OP("sweep") {
    auto ref = a.contains("ref") ? obj().buf.at(a["ref"]) : std::string();
    json out = json::array();
    std::string name = a["name"];
    for (auto &run : a["runs"])
    {
        std::string oks, lost;
        bool file = run["mode"] == "file", there = false;
        if (file)
            limitFiles(run["budget"].get<long>());
        for (auto &o0 : a["ops"])
        {
            json fresh;
            const json &o1 = o0;
            if (o1["op"] == "w.new" || o1["op"] == "lw.new")
                fresh = o1;
            json &o = fresh;
            if (!fresh.is_null() && (o["op"] == "w.new" || o["op"] == "lw.new"))
            {
                o["sink"] = file ? "file" : "fault";
                if (file)
                    o["path"] = a["path"];
                o["mode"] = run["mode"];
                o["budget"] = run["budget"];
                o["exceptions"] = run["exc"];
                W.erase(name);
            }
            bool ok = true;
            try
            {
                json r = ops().at(o1["op"].get<std::string>())(fresh.is_null() ? o1 : fresh);
                ok = r.is_null() || r.value("done", true);
            }
            catch (const json::exception &)
            {
                throw;
            }
            catch (const std::exception &)
            {
                ok = false;
            }
            oks += ok ? '1' : '0';
            there = W.count(name);
            lost += file || !there ? '?' : W.at(name)->fb->failed ? '1' : '0';
            if (!there)
                break;
        }
        json r{{"oks", oks}, {"lost", lost}, {"same", false}};
        if (file)
            limitFiles(-1);
        if (there)
        {
            auto b = bytesOf(*W.at(name));
            r["same"] = b == ref;
            // the order of hierarchy pages may differ: let the caller compare
            if (!r["same"] && b.size() == ref.size() && lost.find('1') == std::string::npos)
                r["hex"] = hexOf(b);
            if (!file)
            {
                r["used"] = W.at(name)->fb->used;
                r["seeks"] = W.at(name)->fb->seeks;
            }
            if (a.value("keep", false))
                obj().buf["kept"] = b;
        }
        out.push_back(r);
        W.erase(name);
    }
    json all{{"runs", out}};
    if (a.value("keep", false))
        all["hex"] = hexOf(obj().buf["kept"]);
    return all;
} END;

// ------------------------------------------------------------ COPC reader
OP("r.open") {
    R.erase(a["name"].get<std::string>());
    auto b = std::make_shared<ReaderBox>();
    if (a.contains("path"))
        b->r = std::make_shared<FileReader>(a["path"].get<std::string>());
    else if (a.contains("sparse"))
    {
        b->spb = std::make_shared<SparseBuf>(SP.at(a["sparse"]));
        b->fis = std::make_shared<std::istream>(b->spb.get());
        b->r = std::make_shared<Reader>(b->fis.get());
    }
    else if (a.contains("rbudget"))
    {
        b->fb = std::make_shared<FaultBuf>();
        b->fb->data = obj().buf.at(a["buf"]);
        b->fb->rbudget = a["rbudget"].get<long>();
        b->fis = std::make_shared<std::istream>(b->fb.get());
        b->r = std::make_shared<Reader>(b->fis.get());
    }
    else
    {
        b->ss = std::make_shared<std::istringstream>(obj().buf.at(a["buf"]));
        b->r = std::make_shared<Reader>(b->ss.get());
    }
    R[a["name"]] = b;
    return {};
} END;
static ReaderBox &rbOf(const json &a) { return *R.at(a["name"].get<std::string>()); }
static Reader &rOf(const json &a)
{
    if (!rbOf(a).r)
        throw std::runtime_error("driver: reader is gone");
    return *rbOf(a).r;
}
static laz::LazReader &lrOf(const json &a)
{
    if (!rbOf(a).lr)
        throw std::runtime_error("driver: reader is gone");
    return *rbOf(a).lr;
}
static json nodes(const std::vector<Node> &v)
{
    json r = json::array();
    for (auto &n : v)
        r.push_back(J(n));
    return r;
}
OP("r.close") {
    auto &b = rbOf(a);
    if (auto f = dynamic_cast<FileReader *>(b.r.get()))
    {
        f->Close();
        if (a.value("twice", false))
            f->Close();
    }
    b.r.reset();
    return {};
} END;
OP("r.cfg") {
    auto c = rOf(a).CopcConfig();
    if (a.contains("to"))
        obj().rcfg[a["to"]] = std::make_shared<CopcConfig>(c);
    return json{{"c", J(c)}};
} END;
OP("r.find") { return json{{"node", J(rOf(a).FindNode(K(a["k"])))}}; } END;
OP("r.all") { return json{{"nodes", nodes(rOf(a).GetAllNodes())}}; } END;
OP("r.kids") { return json{{"nodes", nodes(rOf(a).GetAllChildrenOfPage(K(a["k"])))}}; } END;
OP("r.pages") {
    json r = json::array();
    for (auto &k : rOf(a).GetPageList())
        r.push_back(J(k));
    return json{{"pages", r}};
} END;
OP("r.data") {
    if (a.contains("node"))
        return json{{"v", hexOf(rOf(a).GetPointData(N(a["node"])))}};
    return json{{"v", hexOf(rOf(a).GetPointData(K(a["k"])))}};
} END;
static json compOf(const std::vector<char> &v)
{
    if (v.size() >= (1 << 24))
        return json{{"v", ""}, {"zeros", v[0] == 0 && std::memcmp(&v[0], &v[1], v.size() - 1) == 0 ? (int64_t)v.size() : -1}};
    return json{{"v", hexOf(v)}};
}
OP("r.comp") {
    if (a.contains("node"))
        return compOf(rOf(a).GetPointDataCompressed(N(a["node"])));
    return compOf(rOf(a).GetPointDataCompressed(K(a["k"])));
} END;
static json storePts(const json &a, const las::Points &p)
{
    if (a.contains("to"))
        obj().pts[a["to"]] = std::make_shared<las::Points>(p);
    if (a.value("dump", true))
        return json{{"p", ptsDump(p)}};
    return json{{"n", p.Size()}};
}
OP("r.pts") {
    if (a.contains("node"))
        return storePts(a, rOf(a).GetPoints(N(a["node"])));
    return storePts(a, rOf(a).GetPoints(K(a["k"])));
} END;
OP("r.allpts") {
    if (a.contains("res"))
        return storePts(a, rOf(a).GetAllPoints(D(a["res"])));
    return storePts(a, rOf(a).GetAllPoints());
} END;
OP("r.depth") {
    if (a.contains("res"))
        return json{{"v", rOf(a).GetDepthAtResolution(D(a["res"]))}};
    return json{{"v", rOf(a).GetMaxDepth()}};
} END;
OP("r.atres") { return json{{"nodes", nodes(rOf(a).GetNodesAtResolution(D(a["res"])))}}; } END;
OP("r.inres") { return json{{"nodes", nodes(rOf(a).GetNodesWithinResolution(D(a["res"])))}}; } END;
OP("r.inbox") {
    if (a.contains("res"))
        return json{{"nodes", nodes(rOf(a).GetNodesWithinBox(BX(a["box"]), D(a["res"])))}};
    return json{{"nodes", nodes(rOf(a).GetNodesWithinBox(BX(a["box"])))}};
} END;
OP("r.xbox") {
    if (a.contains("res"))
        return json{{"nodes", nodes(rOf(a).GetNodesIntersectBox(BX(a["box"]), D(a["res"])))}};
    return json{{"nodes", nodes(rOf(a).GetNodesIntersectBox(BX(a["box"])))}};
} END;
OP("r.ptsbox") {
    if (a.contains("res"))
        return storePts(a, rOf(a).GetPointsWithinBox(BX(a["box"]), D(a["res"])));
    return storePts(a, rOf(a).GetPointsWithinBox(BX(a["box"])));
} END;
OP("r.validate") {
    bool verbose = a.value("verbose", false);
    std::ostringstream sink;
    auto old = std::cout.rdbuf(sink.rdbuf());
    bool v;
    try
    {
        v = rOf(a).ValidateSpatialBounds(verbose);
    }
    catch (...)
    {
        std::cout.rdbuf(old);
        throw;
    }
    std::cout.rdbuf(old);
    auto s = sink.str();
    json r{{"v", v}, {"quiet", s.empty()}};
    auto num = [&](const std::string &tag) -> long
    {
        auto p = s.find(tag);
        return p == std::string::npos ? -1 : atol(s.c_str() + p + tag.size());
    };
    if (verbose)
    {
        r["outhdr"] = num("Number of points outside header bounds: ");
        r["outnode"] = num("Number of points outside node bounds: ");
        r["says"] = s.find("Spatial bounds are valid!") != std::string::npos;
        r["saysnot"] = s.find("Spatial bounds are invalid!") != std::string::npos;
    }
    return r;
} END;

// ------------------------------------------------------------ LAZ reader
OP("lr.open") {
    R.erase(a["name"].get<std::string>());
    auto b = std::make_shared<ReaderBox>();
    if (a.contains("path"))
        b->lr = b->lfr = std::make_shared<laz::LazFileReader>(a["path"].get<std::string>());
    else
    {
        if (a.contains("sparse"))
        {
            b->spb = std::make_shared<SparseBuf>(SP.at(a["sparse"]));
            b->fis = std::make_shared<std::istream>(b->spb.get());
            b->lr = std::make_shared<laz::LazReader>(b->fis.get());
            R[a["name"]] = b;
            return {};
        }
        b->ss = std::make_shared<std::istringstream>(obj().buf.at(a["buf"]));
        b->lr = std::make_shared<laz::LazReader>(b->ss.get());
    }
    R[a["name"]] = b;
    return {};
} END;
OP("lr.cfg") {
    auto c = lrOf(a).LazConfig();
    if (a.contains("to"))
        obj().rlcfg[a["to"]] = std::make_shared<las::LazConfig>(c);
    return json{{"c", Jlaz(c)}};
} END;
OP("lr.data") { return json{{"v", hexOf(lrOf(a).GetPointData())}}; } END;
OP("lr.pts") { return storePts(a, lrOf(a).GetPoints()); } END;
OP("lr.close") {
    auto &b = rbOf(a);
    if (b.lfr)
        b.lfr->Close();
    b.lfr.reset();
    b.lr.reset();
    return {};
} END;
