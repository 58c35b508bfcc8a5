#pragma once
#include <istream>
#include <memory>
#include <string>

#include "header.hpp"
#include "lazperf.hpp"

namespace lazperf
{
namespace reader
{
class generic_file
{
  public:
    generic_file(std::istream &in);
    ~generic_file();
    generic_file(generic_file &&f) noexcept;
    uint64_t pointCount() const;
    const header14 &header() const;
    void readPoint(char *out);

  private:
    struct Private;
    std::unique_ptr<Private> p_;
};
} // namespace reader
} // namespace lazperf
