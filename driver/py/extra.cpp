// Values the Python interface can't make or show by itself, for the Python driver only.
#include <cstring>
#include <sstream>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <copc-lib/copc/copc_config.hpp>
#include <copc-lib/copc/extents.hpp>
#include <copc-lib/las/header.hpp>
#include <copc-lib/las/laz_config.hpp>
#include <copc-lib/las/point.hpp>
#include <copc-lib/las/vlr.hpp>
#include <lazperf/header.hpp>

namespace py = pybind11;
using namespace copc;

typedef std::vector<std::vector<double>> Nums; // no_data, minval, maxval, scale, offset

PYBIND11_MODULE(_extra, m)
{
    m.def("header", [](int f, uint16_t n, const Vector3 &s, const Vector3 &o, bool copc)
          { return std::make_shared<las::LasHeader>((int8_t)f, n, s, o, copc); });
    m.def("header_read", [](int f, uint16_t n, const Vector3 &s, const Vector3 &o, uint32_t pointoff, uint64_t count, uint32_t vlrs, uint64_t evlroff, uint32_t evlrs)
          {
              lazperf::header14 h;
              h.global_encoding = 0x10;
              h.header_size = lazperf::header14::Size;
              h.point_format_id = (uint8_t)f;
              h.point_record_length = n;
              h.scale.x = s.x, h.scale.y = s.y, h.scale.z = s.z;
              h.offset.x = o.x, h.offset.y = o.y, h.offset.z = o.z;
              h.point_offset = pointoff;
              h.point_count_14 = count;
              h.vlr_count = vlrs;
              h.evlr_offset = evlroff;
              h.evlr_count = evlrs;
              return std::make_shared<las::LasHeader>(las::LasHeader::FromLazPerf(h));
          });
    m.def("header_mod", [](const las::LasHeader &h, int f, uint16_t n, const Vector3 &s, const Vector3 &o)
          { return std::make_shared<las::LasHeader>(h, (int8_t)f, n, s, o); });
    m.def("header_flag", [](const las::LasHeader &h, bool copc) { return std::make_shared<las::LasHeader>(h, copc); });
    m.def("header_assign", [](las::LasHeader &h, const las::LasHeader &g) { h = g; });
    m.def("is_copc", [](const las::LasHeader &h) { return h.IsCopc(); });
    m.def("texts", [](const las::LasHeader &h)
          { return py::make_tuple(py::bytes(h.GUID()), py::bytes(h.SystemIdentifier()), py::bytes(h.GeneratingSoftware())); });
    m.def("set_text",
          [](las::LasHeader &h, int i, const std::string &s)
          {
              if (i == 0)
                  h.GUID(s);
              else if (i == 1)
                  h.SystemIdentifier(s);
              else
                  h.GeneratingSoftware(s);
          });
    m.def("point_copy", [](const las::Point &p) { return std::make_shared<las::Point>(p); });
    m.def("eb_add",
          [](las::EbVlr &v, int t, int o, const std::string &n, const std::string &d, const Nums &x)
          {
              las::EbVlr::ebfield f;
              f.data_type = (uint8_t)t;
              f.options = (uint8_t)o;
              f.name = n;
              f.description = d;
              double *to[5] = {f.no_data, f.minval, f.maxval, f.scale, f.offset};
              for (size_t i = 0; i < x.size(); i++)
                  for (int j = 0; j < 3; j++)
                      to[i][j] = x[i][j];
              v.items.push_back(f);
          });
    m.def("eb_count", [](const las::EbVlr &v) { return v.items.size(); });
    m.def("eb_at",
          [](const las::EbVlr &v, size_t i)
          {
              auto &f = v.items.at(i);
              const double *from[5] = {f.no_data, f.minval, f.maxval, f.scale, f.offset};
              Nums x;
              for (auto p : from)
                  x.push_back(std::vector<double>(p, p + 3));
              return py::make_tuple((int)f.data_type, (int)f.options, py::bytes(f.name), py::bytes(f.description), x);
          });
    m.def("eb_same", [](const las::EbVlr &a, const las::EbVlr &b) { return a.items == b.items; });
    m.def("extents", [](int f, uint16_t n, bool on) { return std::make_shared<CopcExtents>((int8_t)f, n, on); });
    m.def("extents_copy", [](const CopcExtents &e) { return std::make_shared<CopcExtents>(e); });
    m.def("extents_assign", [](CopcExtents &e, const CopcExtents &f) { e = f; });
    m.def("extents_derive", [](const CopcExtents &e, int f, uint16_t n, bool on) { return std::make_shared<CopcExtents>(e, (int8_t)f, n, on); });
    m.def("extents_vlr",
          [](const CopcExtents &e, bool extended)
          {
              auto v = extended ? e.ToLazPerfExtended() : e.ToLazPerf({}, {}, {});
              std::ostringstream o;
              v.write(o);
              return py::make_tuple(py::bytes(o.str()), (int)v.size(), v.header().user_id, (int)v.header().record_id, (int)v.header().data_length);
          });
    m.def("extents_read",
          [](const std::string &a, const std::string &b, bool stats, int f, uint16_t n, bool on)
          {
              std::istringstream in(a), in2(b);
              auto e = std::make_shared<CopcExtents>(las::CopcExtentsVlr::create(in, (int)a.size()), (int8_t)f, n, on);
              if (stats)
                  e->SetExtendedStats(las::CopcExtentsVlr::create(in2, (int)b.size()));
              return e;
          });
    m.def("config_parts", [](const las::LasHeader &h, const CopcInfo &i, const CopcExtents &x, const std::string &w, const las::EbVlr &v)
          { return std::make_shared<CopcConfigWriter>(h, i, x, w, v); });
    m.def("config_from_laz", [](const las::LazConfigWriter &l, const CopcInfo &i, const CopcExtents &x)
          { return std::make_shared<CopcConfigWriter>(CopcConfig(l, i, x)); });
    m.def("laz_parts", [](const las::LasHeader &h, const std::string &w, const las::EbVlr &v)
          { return std::make_shared<las::LazConfigWriter>(las::LazConfig(h, w, v)); });
    m.def("config_copy", [](const CopcConfigWriter &c) { return std::make_shared<CopcConfigWriter>(c); });
    m.def("config_laz", [](const CopcConfigWriter &c)
          { return std::make_shared<las::LazConfigWriter>(las::LazConfig(c)); });
    m.def("wkt", [](const las::LazConfig &c) { return py::bytes(c.Wkt()); });
    m.def("wkt", [](const CopcConfig &c) { return py::bytes(c.Wkt()); });
    m.def("wkt", [](const CopcConfigWriter &c) { return py::bytes(c.Wkt()); });
    m.def("wkt", [](const las::LazConfigWriter &c) { return py::bytes(c.Wkt()); });
    m.def("config_again", [](const CopcConfig &c) { return std::make_shared<CopcConfig>(c); });
    m.def("config_assign", [](CopcConfigWriter &c, const CopcConfigWriter &d) { c = d; });
    m.def("laz_assign", [](las::LazConfigWriter &c, const las::LazConfigWriter &d) { c = d; });
    m.def("config_reader", [](const CopcConfigWriter &c) { return std::make_shared<CopcConfig>(c); });
    m.def("laz_copy", [](const las::LazConfigWriter &c) { return std::make_shared<las::LazConfigWriter>(c); });
}
