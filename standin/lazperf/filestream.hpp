#pragma once
#include <istream>
#include <memory>
#include <ostream>

#include "lazperf.hpp"

namespace lazperf
{
// Reads through a private buffer, so (as in laz-perf) it may run the underlying stream into EOF.
class InFileStream
{
  public:
    InFileStream(std::istream &in);
    ~InFileStream();
    void reset();
    InputCb cb();
    void getBytes(unsigned char *dst, size_t count);

  private:
    struct Private;
    std::unique_ptr<Private> p_;
};

class OutFileStream
{
  public:
    OutFileStream(std::ostream &out);
    OutputCb cb();
    void putBytes(const unsigned char *src, size_t count);

  private:
    std::ostream &out_;
};
} // namespace lazperf
