#include <unistd.h>
#include "common.hpp"
#include <cstdlib>
#include <new>

std::map<std::string, Op> &ops()
{
    static std::map<std::string, Op> m;
    return m;
}
Objects &obj()
{
    static Objects o;
    return o;
}
void Objects::clear()
{
    pt.clear();
    pts.clear();
    hdr.clear();
    cfg.clear();
    rcfg.clear();
    lcfg.clear();
    rlcfg.clear();
    ext.clear();
    buf.clear();
}

static int nib(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
double D(const json &j)
{
    if (j.is_number())
        return j.get<double>();
    auto s = j.get<std::string>();
    if (s.size() == 18 && s[0] == 'b' && s[1] == ':')
    {
        uint64_t u = std::stoull(s.substr(2), nullptr, 16);
        double d;
        std::memcpy(&d, &u, 8);
        return d;
    }
    return std::strtod(s.c_str(), nullptr);
}
json J(double v)
{
    uint64_t u;
    std::memcpy(&u, &v, 8);
    char b[20];
    snprintf(b, sizeof b, "b:%016llx", (unsigned long long)u);
    return std::string(b);
}
std::string S(const json &j)
{
    auto s = j.get<std::string>();
    std::string o;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        o += (char)(nib(s[i]) << 4 | nib(s[i + 1]));
    return o;
}
std::vector<char> B(const json &j)
{
    auto s = S(j);
    return std::vector<char>(s.begin(), s.end());
}
copc::Vector3 V3(const json &j) { return copc::Vector3(D(j[0]), D(j[1]), D(j[2])); }
json J(const copc::Vector3 &v) { return json::array({J(v.x), J(v.y), J(v.z)}); }
copc::VoxelKey K(const json &j)
{
    return copc::VoxelKey(j[0].get<int32_t>(), j[1].get<int32_t>(), j[2].get<int32_t>(), j[3].get<int32_t>());
}
json J(const copc::VoxelKey &k) { return json::array({k.d, k.x, k.y, k.z}); }
copc::Box BX(const json &j)
{
    std::vector<double> v;
    for (auto &e : j)
        v.push_back(D(e));
    if (v.size() == 4)
        return copc::Box(v[0], v[1], v[2], v[3]);
    return copc::Box(v[0], v[1], v[2], v[3], v[4], v[5]);
}
json J(const copc::Box &b)
{
    return json::array({J(b.x_min), J(b.y_min), J(b.z_min), J(b.x_max), J(b.y_max), J(b.z_max)});
}
json J(const copc::Node &n)
{
    if (!n.key.IsValid())
        return json{{"valid", false}, {"eval", n.IsValid()}};
    return json{{"valid", true},          {"key", J(n.key)},         {"off", n.offset},      {"size", n.byte_size},
                {"count", n.point_count}, {"page", J(n.page_key)}, {"eval", n.IsValid()}};
}
copc::Node N(const json &j)
{
    copc::Entry e(K(j["key"]), j["off"].get<uint64_t>(), j["size"].get<int32_t>(), j["count"].get<int32_t>());
    return copc::Node(e, j.contains("page") ? K(j["page"]) : copc::VoxelKey::InvalidKey());
}

// Memory bombs in damaged files end as std::bad_alloc, not as a sanitizer report.
size_t roomFor = (size_t)1 << 31;
static void *take(size_t n)
{
    void *p = n > roomFor ? nullptr : std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
void operator delete[](void *p, size_t) noexcept { std::free(p); }

std::vector<char> zeros(const json &n)
{
    roomFor = (size_t)1 << 34; // from here on, also for what is done with them
    try
    {
        return std::vector<char>(n.get<size_t>());
    }
    catch (const std::bad_alloc &)
    {
        throw std::runtime_error("no memory for the zeros"); // not the fault of the code under test
    }
}

int main()
{
    std::ios::sync_with_stdio(false);
    std::string line;
    // copc-lib may chat on stdout: keep the protocol on a separate stream
    int fd = dup(1);
    dup2(2, 1);
    FILE *out = fdopen(fd, "w");
    while (std::getline(std::cin, line))
    {
        if (line.empty())
            continue;
        json script = json::parse(line);
        roomFor = (size_t)1 << 31;
        json res = json::array();
        for (auto &o : script["ops"])
        {
            json r;
            auto it = ops().find(o["op"].get<std::string>());
            if (it == ops().end())
            {
                fprintf(stderr, "driver: unknown op %s\n", o["op"].get<std::string>().c_str());
                return 99;
            }
            try
            {
                r = it->second(o);
                if (r.is_null())
                    r = json::object();
                if (!r.is_object())
                    r = json{{"v", r}};
                r["ok"] = true;
            }
            catch (const json::exception &e)
            {
                fprintf(stderr, "driver: bad script op %s: %s\n", o.dump().c_str(), e.what());
                return 98;
            }
            catch (const std::exception &e)
            {
                r = json{{"ok", false}, {"err", std::string(e.what())}};
            }
            res.push_back(r);
        }
        ioReset();
        obj().clear();
        std::string s = json{{"id", script["id"]}, {"res", res}}.dump(-1, ' ', true, json::error_handler_t::replace);
        fputs(s.c_str(), out);
        fputc('\n', out);
        fflush(out);
    }
    return 0;
}
