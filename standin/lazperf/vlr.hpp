#pragma once
#include <cstdint>
#include <cstring>
#include <iostream>
#include <string>
#include <vector>

namespace lazperf
{
struct vlr_header
{
    uint16_t reserved;
    std::string user_id;
    uint16_t record_id;
    uint16_t data_length;
    std::string description;

    static const int Size = 54;
    static vlr_header create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
};

struct evlr_header
{
    uint16_t reserved;
    std::string user_id;
    uint16_t record_id;
    uint64_t data_length;
    std::string description;

    static const int Size = 60;
    static evlr_header create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
};

struct vlr
{
    virtual uint64_t size() const = 0;
    virtual vlr_header header() const = 0;
    virtual evlr_header eheader() const = 0;
    virtual ~vlr() {}
};

struct laz_vlr : public vlr
{
    struct laz_item
    {
        uint16_t type;
        uint16_t size;
        uint16_t version;
    };
    uint16_t compressor{3};
    uint16_t coder{0};
    uint8_t ver_major{3};
    uint8_t ver_minor{4};
    uint16_t revision{3};
    uint32_t options{0};
    uint32_t chunk_size{0};
    int64_t num_points{-1};
    int64_t num_bytes{-1};
    std::vector<laz_item> items;
    bool valid{false};

    laz_vlr() {}
    laz_vlr(int format, int ebCount, uint32_t chunksize);
    static laz_vlr create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
    uint64_t size() const override;
    vlr_header header() const override;
    evlr_header eheader() const override;
};

struct eb_vlr : public vlr
{
    struct ebfield
    {
        uint8_t reserved[2]{};
        uint8_t data_type{1};
        uint8_t options{};
        std::string name;
        uint8_t unused[4]{};
        double no_data[3]{};
        double minval[3]{};
        double maxval[3]{};
        double scale[3]{};
        double offset[3]{};
        std::string description;
    };
    std::vector<ebfield> items;

    eb_vlr() {}
    eb_vlr(int ebCount);
    void addField();
    static eb_vlr create(std::istream &in, int byteSize);
    void read(std::istream &in, int byteSize);
    void write(std::ostream &out) const;
    uint64_t size() const override;
    vlr_header header() const override;
    evlr_header eheader() const override;
};

struct wkt_vlr : public vlr
{
    std::string wkt;

    wkt_vlr() {}
    wkt_vlr(const std::string &s) : wkt(s) {}
    static wkt_vlr create(std::istream &in, int byteSize);
    void read(std::istream &in, int byteSize);
    void write(std::ostream &out) const;
    uint64_t size() const override;
    vlr_header header() const override;
    evlr_header eheader() const override;
};

struct copc_info_vlr : public vlr
{
    double center_x{};
    double center_y{};
    double center_z{};
    double halfsize{};
    double spacing{};
    uint64_t root_hier_offset{};
    uint64_t root_hier_size{};
    double gpstime_minimum{};
    double gpstime_maximum{};
    uint64_t reserved[11]{};

    static copc_info_vlr create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
    uint64_t size() const override;
    vlr_header header() const override;
    evlr_header eheader() const override;
};
} // namespace lazperf
