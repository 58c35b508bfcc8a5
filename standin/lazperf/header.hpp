#pragma once
#include <cstdint>
#include <iostream>

namespace lazperf
{
struct vector3
{
    double x{};
    double y{};
    double z{};
};

// LAS 1.4 header, 375 bytes on disk
struct header14
{
    static const int Size = 375;
    char magic[4]{'L', 'A', 'S', 'F'};
    uint16_t file_source_id{};
    uint16_t global_encoding{};
    char guid[16]{};
    struct
    {
        uint8_t major{1};
        uint8_t minor{4};
    } version;
    char system_identifier[32]{};
    char generating_software[32]{};
    struct
    {
        uint16_t day{};
        uint16_t year{};
    } creation;
    uint16_t header_size{};
    uint32_t point_offset{};
    uint32_t vlr_count{};
    uint8_t point_format_id{};
    uint16_t point_record_length{};
    uint32_t point_count{};
    uint32_t points_by_return[5]{};
    vector3 scale{};
    vector3 offset{};
    double maxx{};
    double minx{};
    double maxy{};
    double miny{};
    double maxz{};
    double minz{};
    uint64_t wave_offset{};
    uint64_t evlr_offset{};
    uint32_t evlr_count{};
    uint64_t point_count_14{};
    uint64_t points_by_return_14[15]{};

    int ebCount() const;
    void read(std::istream &in);
    void write(std::ostream &out) const;
};
} // namespace lazperf
