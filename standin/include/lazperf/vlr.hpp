// Stand-in for laz-perf >= 3.0 (not available in this sandbox): the part of its public API that
// copc-lib uses, written from the LAS 1.4 / COPC 1.0 layout tables.  It is used (a) to parse the
// real copc-lib sources for contract extraction and (b) to compile them for replay.  Its behaviour
// is an ASSUMED contract on a dependency, see DESIGN.md.
#pragma once
#include <cstdint>
#include <iostream>
#include <array>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace lazperf
{

struct vlr_header
{
    uint16_t reserved{0};
    std::string user_id;
    uint16_t record_id{0};
    uint16_t data_length{0};
    std::string description;

    static const int Size = 54;
    static vlr_header create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
};

struct evlr_header
{
    uint16_t reserved{0};
    std::string user_id;
    uint16_t record_id{0};
    uint64_t data_length{0};
    std::string description;

    static const int Size = 60;
    static evlr_header create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
};

struct vlr
{
    virtual ~vlr();
    virtual uint64_t size() const = 0;
    virtual vlr_header header() const = 0;
    virtual evlr_header eheader() const = 0;
};

struct laz_vlr : public vlr
{
    int format{0};
    int eb_count{0};
    uint32_t chunk_size{0};

    laz_vlr();
    laz_vlr(int format, int ebCount, uint32_t chunksize);
    uint64_t size() const override;
    vlr_header header() const override;
    evlr_header eheader() const override;
    void write(std::ostream &out) const;
};

struct eb_vlr : public vlr
{
    struct ebfield
    {
        uint8_t reserved[2]{};
        uint8_t data_type{0};
        uint8_t options{0};
        std::string name;
        uint8_t unused[4]{};
        uint64_t no_data[3]{};
        uint64_t minval[3]{};
        uint64_t maxval[3]{};
        double scale[3]{};
        double offset[3]{};
        std::string description;

        void read(std::istream &in);
        void write(std::ostream &out) const;
    };
    std::vector<ebfield> items;

    eb_vlr();
    eb_vlr(int ebCount);
    static eb_vlr create(std::istream &in, int byteSize);
    void read(std::istream &in, int byteSize);
    void write(std::ostream &out) const;
    uint64_t size() const override;
    vlr_header header() const override;
    evlr_header eheader() const override;
};

struct wkt_vlr : public vlr
{
    std::string wkt;

    wkt_vlr();
    wkt_vlr(const std::string &s);
    static wkt_vlr create(std::istream &in, int byteSize);
    void read(std::istream &in, int byteSize);
    void write(std::ostream &out) const;
    uint64_t size() const override;
    vlr_header header() const override;
    evlr_header eheader() const override;
};

struct copc_info_vlr : public vlr
{
    double center_x{0.0};
    double center_y{0.0};
    double center_z{0.0};
    double halfsize{0.0};
    double spacing{0.0};
    uint64_t root_hier_offset{0};
    uint64_t root_hier_size{0};
    double gpstime_minimum{0.0};
    double gpstime_maximum{0.0};
    uint64_t reserved[11]{0};

    copc_info_vlr();
    static copc_info_vlr create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
    uint64_t size() const override;
    vlr_header header() const override;
    evlr_header eheader() const override;
};

} // namespace lazperf
