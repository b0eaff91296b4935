#pragma once
#include "lazperf.hpp"
#include <iostream>
#include <memory>
#include <vector>

namespace lazperf
{
class OutFileStream
{
    struct Private;

  public:
    OutFileStream(std::ostream &out);
    ~OutFileStream();
    OutputCb cb();

  private:
    std::unique_ptr<Private> p_;
};

class InFileStream
{
    struct Private;

  public:
    InFileStream(std::istream &in);
    ~InFileStream();
    void reset();
    InputCb cb();

  private:
    std::unique_ptr<Private> p_;
};
} // namespace lazperf
