// Conformance driver: a JSON command interpreter over copc-lib's public API.
// One script per input line: {"id":..., "ops":[{"op":"...", ...}, ...]}; one reply per script.
#pragma once
#include <nlohmann/json.hpp>

#include <copc-lib/copc/copc_config.hpp>
#include <copc-lib/copc/extents.hpp>
#include <copc-lib/copc/info.hpp>
#include <copc-lib/geometry/box.hpp>
#include <copc-lib/geometry/vector3.hpp>
#include <copc-lib/hierarchy/key.hpp>
#include <copc-lib/hierarchy/node.hpp>
#include <copc-lib/hierarchy/page.hpp>
#include <copc-lib/las/header.hpp>
#include <copc-lib/las/laz_config.hpp>
#include <copc-lib/las/point.hpp>
#include <copc-lib/las/points.hpp>
#include <copc-lib/las/vlr.hpp>

using json = nlohmann::json;
typedef std::function<json(const json &)> Op;
std::map<std::string, Op> &ops();
struct Reg
{
    Reg(const char *n, Op f) { ops()[n] = f; }
};
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define OP(name) static Reg CAT(reg_, __COUNTER__)(name, [](const json & a) -> json
#define END )

// ---- values
double D(const json &j);
json J(double v); // 16 hex digits of the bit pattern
std::vector<char> B(const json &j);
std::string S(const json &j); // hex -> bytes as string
template <typename C> std::string hexOf(const C &c)
{
    static const char *d = "0123456789abcdef";
    std::string o;
    o.reserve(c.size() * 2);
    for (auto ch : c)
    {
        unsigned char u = (unsigned char)ch;
        o += d[u >> 4];
        o += d[u & 15];
    }
    return o;
}
std::vector<char> zeros(const json &n);
copc::Vector3 V3(const json &j);
json J(const copc::Vector3 &v);
copc::VoxelKey K(const json &j);
json J(const copc::VoxelKey &k);
copc::Box BX(const json &j);
json J(const copc::Box &b);
json J(const copc::Node &n);
copc::Node N(const json &j);
copc::las::EbVlr EB(const json &j);
json J(const copc::las::EbVlr &v);
json J(const copc::las::LasHeader &h);
void setHeader(copc::las::LasHeader &h, const json &j);
json J(const copc::CopcInfo &i);
void setInfo(copc::CopcInfo &i, const json &j);
json J(const copc::CopcExtents &e);
void setExtents(copc::CopcExtents &e, const json &j, bool swap = false);
json J(const copc::CopcConfig &c);
json Jlaz(const copc::las::LazConfig &c);
json ptDump(const copc::las::Point &p);
void ptSet(copc::las::Point &p, const std::string &attr, const json &v);
json ptsDump(const copc::las::Points &p);

// ---- object registry
struct Objects
{
    std::map<std::string, std::shared_ptr<copc::las::Point>> pt;
    std::map<std::string, std::shared_ptr<copc::las::Points>> pts;
    std::map<std::string, std::shared_ptr<copc::las::LasHeader>> hdr;
    std::map<std::string, std::shared_ptr<copc::CopcConfigWriter>> cfg;
    std::map<std::string, std::shared_ptr<copc::CopcConfig>> rcfg;
    std::map<std::string, std::shared_ptr<copc::las::LazConfigWriter>> lcfg;
    std::map<std::string, std::shared_ptr<copc::las::LazConfig>> rlcfg;
    std::map<std::string, std::shared_ptr<copc::CopcExtents>> ext;
    std::map<std::string, std::string> buf;
    void clear();
};
Objects &obj();
void ioReset();
