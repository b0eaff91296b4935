#pragma once
#include <cstdint>
#include <iostream>

namespace lazperf
{

struct header12
{
    char magic[4]{'L', 'A', 'S', 'F'};
    uint16_t file_source_id{0};
    uint16_t global_encoding{0};
    char guid[16]{};
    struct
    {
        uint8_t major{1};
        uint8_t minor{2};
    } version;
    char system_identifier[32]{};
    char generating_software[32]{};
    struct
    {
        uint16_t day{0};
        uint16_t year{0};
    } creation;
    uint16_t header_size{0};
    uint32_t point_offset{0};
    uint32_t vlr_count{0};
    uint8_t point_format_id{0};
    uint16_t point_record_length{0};
    uint32_t point_count{0};
    uint32_t points_by_return[5]{};
    struct
    {
        double x{1.0};
        double y{1.0};
        double z{1.0};
    } scale;
    struct
    {
        double x{0.0};
        double y{0.0};
        double z{0.0};
    } offset;
    double maxx{0.0};
    double minx{0.0};
    double maxy{0.0};
    double miny{0.0};
    double maxz{0.0};
    double minz{0.0};

    bool compressed() const { return (point_format_id & 0x80) != 0; }
    int pointFormat() const { return point_format_id & 0x3f; }
};

struct header13 : public header12
{
    uint64_t wave_offset{0};
};

struct header14 : public header13
{
    uint64_t evlr_offset{0};
    uint32_t evlr_count{0};
    uint64_t point_count_14{0};
    uint64_t points_by_return_14[15]{};

    static const int Size = 375;
    static header14 create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
    int ebCount() const;
};

} // namespace lazperf
