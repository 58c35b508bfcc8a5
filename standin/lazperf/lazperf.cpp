#include "filestream.hpp"
#include "header.hpp"
#include "lazperf.hpp"
#include "readers.hpp"
#include "vlr.hpp"

#include <stdexcept>

namespace lazperf
{
namespace
{
template <typename T> void put(std::ostream &out, const T &v) { out.write(reinterpret_cast<const char *>(&v), sizeof(T)); }
template <typename T> void get(std::istream &in, T &v) { in.read(reinterpret_cast<char *>(&v), sizeof(T)); }

void putString(std::ostream &out, const std::string &s, size_t n)
{
    std::string t(s.substr(0, n));
    t.resize(n, '\0');
    out.write(t.data(), n);
}
std::string getString(std::istream &in, size_t n)
{
    std::string t(n, '\0');
    in.read(&t[0], n);
    auto e = t.find('\0');
    if (e != std::string::npos)
        t.resize(e);
    return t;
}
} // namespace

int baseCount(int format)
{
    switch (format & 0x3F)
    {
    case 0:
        return 20;
    case 1:
        return 28;
    case 2:
        return 26;
    case 3:
        return 34;
    case 6:
        return 30;
    case 7:
        return 36;
    case 8:
        return 38;
    }
    return 0;
}

// ---------------------------------------------------------------- header
int header14::ebCount() const { return point_record_length - baseCount(point_format_id); }

void header14::read(std::istream &in)
{
    get(in, magic);
    get(in, file_source_id);
    get(in, global_encoding);
    get(in, guid);
    get(in, version.major);
    get(in, version.minor);
    get(in, system_identifier);
    get(in, generating_software);
    get(in, creation.day);
    get(in, creation.year);
    get(in, header_size);
    get(in, point_offset);
    get(in, vlr_count);
    get(in, point_format_id);
    get(in, point_record_length);
    get(in, point_count);
    get(in, points_by_return);
    get(in, scale);
    get(in, offset);
    get(in, maxx);
    get(in, minx);
    get(in, maxy);
    get(in, miny);
    get(in, maxz);
    get(in, minz);
    if (version.minor < 4)
        return;
    get(in, wave_offset);
    get(in, evlr_offset);
    get(in, evlr_count);
    get(in, point_count_14);
    get(in, points_by_return_14);
}

void header14::write(std::ostream &out) const
{
    put(out, magic);
    put(out, file_source_id);
    put(out, global_encoding);
    put(out, guid);
    put(out, version.major);
    put(out, version.minor);
    put(out, system_identifier);
    put(out, generating_software);
    put(out, creation.day);
    put(out, creation.year);
    put(out, header_size);
    put(out, point_offset);
    put(out, vlr_count);
    put(out, point_format_id);
    put(out, point_record_length);
    put(out, point_count);
    put(out, points_by_return);
    put(out, scale);
    put(out, offset);
    put(out, maxx);
    put(out, minx);
    put(out, maxy);
    put(out, miny);
    put(out, maxz);
    put(out, minz);
    put(out, wave_offset);
    put(out, evlr_offset);
    put(out, evlr_count);
    put(out, point_count_14);
    put(out, points_by_return_14);
}

// ---------------------------------------------------------------- vlr headers
vlr_header vlr_header::create(std::istream &in)
{
    vlr_header h{};
    h.read(in);
    return h;
}
void vlr_header::read(std::istream &in)
{
    get(in, reserved);
    user_id = getString(in, 16);
    get(in, record_id);
    get(in, data_length);
    description = getString(in, 32);
}
void vlr_header::write(std::ostream &out) const
{
    put(out, reserved);
    putString(out, user_id, 16);
    put(out, record_id);
    put(out, data_length);
    putString(out, description, 32);
}
evlr_header evlr_header::create(std::istream &in)
{
    evlr_header h{};
    h.read(in);
    return h;
}
void evlr_header::read(std::istream &in)
{
    get(in, reserved);
    user_id = getString(in, 16);
    get(in, record_id);
    get(in, data_length);
    description = getString(in, 32);
}
void evlr_header::write(std::ostream &out) const
{
    put(out, reserved);
    putString(out, user_id, 16);
    put(out, record_id);
    put(out, data_length);
    putString(out, description, 32);
}

// ---------------------------------------------------------------- laz vlr
laz_vlr::laz_vlr(int format, int ebCount, uint32_t chunksize) : chunk_size(chunksize)
{
    items.push_back({10, 30, 3});
    if (format == 7)
        items.push_back({11, 6, 3});
    if (format == 8)
        items.push_back({12, 8, 3});
    if (ebCount)
        items.push_back({14, static_cast<uint16_t>(ebCount), 3});
    valid = true;
}
laz_vlr laz_vlr::create(std::istream &in)
{
    laz_vlr v;
    v.read(in);
    return v;
}
void laz_vlr::read(std::istream &in)
{
    get(in, compressor);
    get(in, coder);
    get(in, ver_major);
    get(in, ver_minor);
    get(in, revision);
    get(in, options);
    get(in, chunk_size);
    get(in, num_points);
    get(in, num_bytes);
    uint16_t n = 0;
    get(in, n);
    items.clear();
    for (int i = 0; i < n && in.good(); i++)
    {
        laz_item it{};
        get(in, it.type);
        get(in, it.size);
        get(in, it.version);
        items.push_back(it);
    }
    valid = in.good();
}
void laz_vlr::write(std::ostream &out) const
{
    put(out, compressor);
    put(out, coder);
    put(out, ver_major);
    put(out, ver_minor);
    put(out, revision);
    put(out, options);
    put(out, chunk_size);
    put(out, num_points);
    put(out, num_bytes);
    put(out, static_cast<uint16_t>(items.size()));
    for (auto &it : items)
    {
        put(out, it.type);
        put(out, it.size);
        put(out, it.version);
    }
}
uint64_t laz_vlr::size() const { return 34 + items.size() * 6; }
vlr_header laz_vlr::header() const
{
    return vlr_header{0, "laszip encoded", 22204, (uint16_t)size(), "laz-perf variant"};
}
evlr_header laz_vlr::eheader() const { return evlr_header{0, "laszip encoded", 22204, size(), "laz-perf variant"}; }

// ---------------------------------------------------------------- eb vlr
eb_vlr::eb_vlr(int ebCount)
{
    for (int i = 0; i < ebCount; ++i)
        addField();
}
void eb_vlr::addField()
{
    ebfield field;
    field.name = "FIELD_" + std::to_string(items.size());
    items.push_back(field);
}
eb_vlr eb_vlr::create(std::istream &in, int byteSize)
{
    eb_vlr v;
    v.read(in, byteSize);
    return v;
}
void eb_vlr::read(std::istream &in, int byteSize)
{
    int n = byteSize / 192;
    items.clear();
    for (int i = 0; i < n; i++)
    {
        ebfield f;
        get(in, f.reserved);
        get(in, f.data_type);
        get(in, f.options);
        f.name = getString(in, 32);
        get(in, f.unused);
        get(in, f.no_data);
        get(in, f.minval);
        get(in, f.maxval);
        get(in, f.scale);
        get(in, f.offset);
        f.description = getString(in, 32);
        items.push_back(f);
    }
}
void eb_vlr::write(std::ostream &out) const
{
    for (auto &f : items)
    {
        put(out, f.reserved);
        put(out, f.data_type);
        put(out, f.options);
        putString(out, f.name, 32);
        put(out, f.unused);
        put(out, f.no_data);
        put(out, f.minval);
        put(out, f.maxval);
        put(out, f.scale);
        put(out, f.offset);
        putString(out, f.description, 32);
    }
}
uint64_t eb_vlr::size() const { return 192 * items.size(); }
vlr_header eb_vlr::header() const { return vlr_header{0, "LASF_Spec", 4, (uint16_t)size(), ""}; }
evlr_header eb_vlr::eheader() const { return evlr_header{0, "LASF_Spec", 4, size(), ""}; }

// ---------------------------------------------------------------- wkt vlr
wkt_vlr wkt_vlr::create(std::istream &in, int byteSize)
{
    wkt_vlr v;
    v.read(in, byteSize);
    return v;
}
void wkt_vlr::read(std::istream &in, int byteSize)
{
    std::vector<char> buf(byteSize);
    in.read(buf.data(), byteSize);
    wkt.assign(buf.data(), byteSize);
}
void wkt_vlr::write(std::ostream &out) const { out.write(wkt.data(), wkt.size()); }
uint64_t wkt_vlr::size() const { return wkt.size(); }
vlr_header wkt_vlr::header() const { return vlr_header{0, "LASF_Projection", 2112, (uint16_t)size(), ""}; }
evlr_header wkt_vlr::eheader() const { return evlr_header{0, "LASF_Projection", 2112, size(), ""}; }

// ---------------------------------------------------------------- copc info vlr
copc_info_vlr copc_info_vlr::create(std::istream &in)
{
    copc_info_vlr v;
    v.read(in);
    return v;
}
void copc_info_vlr::read(std::istream &in)
{
    get(in, center_x);
    get(in, center_y);
    get(in, center_z);
    get(in, halfsize);
    get(in, spacing);
    get(in, root_hier_offset);
    get(in, root_hier_size);
    get(in, gpstime_minimum);
    get(in, gpstime_maximum);
    get(in, reserved);
}
void copc_info_vlr::write(std::ostream &out) const
{
    put(out, center_x);
    put(out, center_y);
    put(out, center_z);
    put(out, halfsize);
    put(out, spacing);
    put(out, root_hier_offset);
    put(out, root_hier_size);
    put(out, gpstime_minimum);
    put(out, gpstime_maximum);
    put(out, reserved);
}
uint64_t copc_info_vlr::size() const { return 160; }
vlr_header copc_info_vlr::header() const { return vlr_header{0, "copc", 1, (uint16_t)size(), "COPC info VLR"}; }
evlr_header copc_info_vlr::eheader() const { return evlr_header{0, "copc", 1, size(), "COPC info VLR"}; }

// ---------------------------------------------------------------- streams
struct InFileStream::Private
{
    Private(std::istream &in) : in(in) {}
    std::istream &in;
    std::vector<unsigned char> buf;
    size_t pos{0};
};
InFileStream::InFileStream(std::istream &in) : p_(new Private(in)) {}
InFileStream::~InFileStream() {}
void InFileStream::reset()
{
    p_->buf.clear();
    p_->pos = 0;
}
InputCb InFileStream::cb()
{
    return [this](unsigned char *dst, size_t n) { getBytes(dst, n); };
}
void InFileStream::getBytes(unsigned char *dst, size_t count)
{
    while (count--)
    {
        if (p_->pos == p_->buf.size())
        {
            p_->buf.resize(1 << 20);
            p_->in.read(reinterpret_cast<char *>(p_->buf.data()), p_->buf.size());
            p_->buf.resize(p_->in.gcount());
            p_->pos = 0;
            if (p_->buf.empty())
                throw std::runtime_error("Unexpected end of file.");
        }
        *dst++ = p_->buf[p_->pos++];
    }
}

OutFileStream::OutFileStream(std::ostream &out) : out_(out) {}
OutputCb OutFileStream::cb()
{
    return [this](const unsigned char *src, size_t n) { putBytes(src, n); };
}
void OutFileStream::putBytes(const unsigned char *src, size_t count)
{
    out_.write(reinterpret_cast<const char *>(src), count);
}

// ---------------------------------------------------------------- toy codec
// chunk := 'Z' fmt:u8 eb:u16 count:u32 , then per point: len:u16 (length without trailing zeros of the
// difference to the previous point), that many bytes of the bytewise difference.
namespace
{
class Comp : public las_compressor
{
  public:
    Comp(OutputCb cb, int format, int eb) : cb_(cb), format_(format), eb_(eb), prev_(baseCount(format) + eb) {}
    const char *compress(const char *in) override
    {
        size_t n = prev_.size();
        std::vector<unsigned char> d(n);
        size_t len = 0;
        for (size_t i = 0; i < n; i++)
        {
            d[i] = (unsigned char)((unsigned char)in[i] - prev_[i]);
            if (d[i])
                len = i + 1;
            prev_[i] = (unsigned char)in[i];
        }
        body_.push_back(len & 0xFF);
        body_.push_back(len >> 8);
        body_.insert(body_.end(), d.begin(), d.begin() + len);
        count_++;
        return in + n;
    }
    void done() override
    {
        unsigned char h[8] = {'Z',
                              (unsigned char)format_,
                              (unsigned char)(eb_ & 0xFF),
                              (unsigned char)(eb_ >> 8),
                              (unsigned char)(count_ & 0xFF),
                              (unsigned char)((count_ >> 8) & 0xFF),
                              (unsigned char)((count_ >> 16) & 0xFF),
                              (unsigned char)((count_ >> 24) & 0xFF)};
        cb_(h, 8);
        if (!body_.empty())
            cb_(body_.data(), body_.size());
    }

  private:
    OutputCb cb_;
    int format_, eb_;
    uint32_t count_{0};
    std::vector<unsigned char> prev_, body_;
};

class Decomp : public las_decompressor
{
  public:
    Decomp(InputCb cb, int format, int eb) : cb_(cb), format_(format), eb_(eb), prev_(baseCount(format) + eb) {}
    char *decompress(char *out) override
    {
        if (!started_)
        {
            unsigned char h[8];
            cb_(h, 8);
            if (h[0] != 'Z' || h[1] != format_ || (h[2] | h[3] << 8) != eb_)
                throw std::runtime_error("Not a chunk of this point layout.");
            count_ = h[4] | h[5] << 8 | h[6] << 16 | (uint32_t)h[7] << 24;
            started_ = true;
        }
        if (done_ == count_)
            throw std::runtime_error("Read past the end of the chunk.");
        unsigned char l[2];
        cb_(l, 2);
        size_t len = l[0] | l[1] << 8;
        if (len > prev_.size())
            throw std::runtime_error("Corrupt chunk.");
        std::vector<unsigned char> d(len + 1);
        cb_(d.data(), len);
        for (size_t i = 0; i < prev_.size(); i++)
        {
            if (i < len)
                prev_[i] = (unsigned char)(prev_[i] + d[i]);
            out[i] = (char)prev_[i];
        }
        done_++;
        return out + prev_.size();
    }

  private:
    InputCb cb_;
    int format_, eb_;
    bool started_{false};
    uint32_t count_{0}, done_{0};
    std::vector<unsigned char> prev_;
};
} // namespace

las_compressor::ptr build_las_compressor(OutputCb cb, int format, int ebCount)
{
    if (format != 6 && format != 7 && format != 8)
        throw std::runtime_error("Unsupported point format.");
    return std::make_shared<Comp>(cb, format, ebCount);
}
las_decompressor::ptr build_las_decompressor(InputCb cb, int format, int ebCount)
{
    if (format != 6 && format != 7 && format != 8)
        throw std::runtime_error("Unsupported point format.");
    return std::make_shared<Decomp>(cb, format, ebCount);
}

void compress_chunk_table(OutputCb cb, const std::vector<chunk> &chunks, bool variable)
{
    for (auto &c : chunks)
    {
        uint32_t v[2] = {(uint32_t)c.count, (uint32_t)c.offset};
        if (variable)
            cb(reinterpret_cast<unsigned char *>(&v[0]), 4);
        cb(reinterpret_cast<unsigned char *>(&v[1]), 4);
    }
}
std::vector<chunk> decompress_chunk_table(InputCb cb, size_t numChunks, bool variable)
{
    std::vector<chunk> out;
    for (size_t i = 0; i < numChunks; i++)
    {
        uint32_t v[2] = {0, 0};
        if (variable)
            cb(reinterpret_cast<unsigned char *>(&v[0]), 4);
        cb(reinterpret_cast<unsigned char *>(&v[1]), 4);
        out.push_back({v[0], v[1]});
    }
    return out;
}

// ---------------------------------------------------------------- generic reader
namespace reader
{
struct generic_file::Private
{
    Private(std::istream &in) : in(in), stream(in) {}
    std::istream &in;
    InFileStream stream;
    header14 head;
    laz_vlr laz;
    std::vector<chunk> chunks;
    size_t cur{0};
    uint64_t left{0};
    las_decompressor::ptr dec;

    void open()
    {
        in.seekg(0);
        head.read(in);
        if (!in.good() || std::string(head.magic, 4) != "LASF")
            throw std::runtime_error("Invalid LAS/LAZ file: couldn't read the header.");
        if (!(head.point_format_id & 0x80))
            throw std::runtime_error("File is not compressed.");
        head.point_format_id &= 0x3F;
        in.seekg(head.header_size);
        bool found = false;
        for (uint32_t i = 0; i < head.vlr_count; i++)
        {
            vlr_header h = vlr_header::create(in);
            std::streamoff at = in.tellg();
            if (!in.good())
                throw std::runtime_error("Invalid LAZ file: truncated VLRs.");
            if (h.user_id == "laszip encoded" && h.record_id == 22204)
            {
                laz.read(in);
                found = true;
            }
            in.seekg(at + h.data_length);
        }
        if (!found)
            throw std::runtime_error("Couldn't find LASZIP VLR");
        // chunk table
        in.seekg(head.point_offset);
        uint64_t table = 0;
        get(in, table);
        in.seekg(table);
        uint32_t version = 1, count = 0;
        get(in, version);
        get(in, count);
        if (!in.good())
            throw std::runtime_error("Couldn't read chunk table.");
        if (version != 0)
            throw std::runtime_error("Invalid version in chunk table.");
        for (uint32_t i = 0; i < count; i++)
        {
            uint32_t v[2];
            get(in, v);
            if (!in.good())
                break;
            chunks.push_back({v[0], v[1]});
        }
        if (!in.good())
            throw std::runtime_error("Couldn't read chunk table.");
        in.seekg(head.point_offset + sizeof(uint64_t));
    }
};

generic_file::generic_file(std::istream &in) : p_(new Private(in)) { p_->open(); }
generic_file::~generic_file() {}
generic_file::generic_file(generic_file &&f) noexcept : p_(std::move(f.p_)) {}
uint64_t generic_file::pointCount() const { return p_->head.point_count_14; }
const header14 &generic_file::header() const { return p_->head; }
void generic_file::readPoint(char *out)
{
    while (!p_->dec || p_->left == 0)
    {
        if (p_->cur == p_->chunks.size())
            throw std::runtime_error("Read past the last chunk.");
        p_->left = p_->chunks[p_->cur++].count;
        p_->dec = build_las_decompressor(p_->stream.cb(), p_->head.point_format_id, p_->head.ebCount());
    }
    p_->dec->decompress(out);
    p_->left--;
}
} // namespace reader
} // namespace lazperf
