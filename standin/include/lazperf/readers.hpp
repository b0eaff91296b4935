#pragma once
#include "header.hpp"
#include "lazperf.hpp"
#include "vlr.hpp"
#include <istream>
#include <memory>

namespace lazperf
{
namespace reader
{
class basic_file
{
  public:
    virtual ~basic_file();
    uint64_t pointCount() const;
    const header14 &header() const;
    void readPoint(char *out);

  protected:
    basic_file();
    bool open(std::istream &in);
    struct Private;
    std::unique_ptr<Private> p_;
};

class generic_file : public basic_file
{
  public:
    generic_file(std::istream &in);
    ~generic_file();
};
} // namespace reader
} // namespace lazperf
