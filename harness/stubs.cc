// Replacements for the DB-All.e and meteo-vm2 based parts of arkimet, which
// cannot be built here, and scanners for self-describing test payloads.
#include "payload.h"
#include "gen.h"
#include "arki/core/binary.h"
#include "arki/core/file.h"
#include "arki/data.h"
#include "arki/data/bufr.h"
#include "arki/data/vm2.h"
#include "arki/metadata/data.h"
#include "arki/types/area.h"
#include "arki/types/product.h"
#include "arki/types/reftime.h"
#include "arki/types/source.h"
#include "arki/types/source/blob.h"
#include "arki/types/value.h"
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace arki;
using namespace arki::types;

namespace vf {

static std::vector<uint8_t> read_all(const std::filesystem::path& p)
{
    std::vector<uint8_t> res;
    int fd = open(p.c_str(), O_RDONLY);
    if (fd == -1)
        throw std::runtime_error("scanner: cannot open " + p.native() + ": " + strerror(errno));
    uint8_t buf[65536];
    ssize_t r;
    while ((r = read(fd, buf, sizeof(buf))) > 0)
        res.insert(res.end(), buf, buf + r);
    close(fd);
    return res;
}

static std::vector<uint8_t> read_all_fd(int fd)
{
    std::vector<uint8_t> res;
    uint8_t buf[65536];
    ssize_t r;
    while ((r = read(fd, buf, sizeof(buf))) > 0)
        res.insert(res.end(), buf, buf + r);
    return res;
}

static const char* magic(DataFormat f)
{
    switch (f)
    {
        case DataFormat::GRIB: return "GRIB";
        case DataFormat::BUFR: return "BUFR";
        case DataFormat::ODIMH5: return "\x89HDF\r\n\x1a\n";
        case DataFormat::NETCDF: return "CDF\x01vfvf";
        case DataFormat::JPEG: return "\xff\xd8vfvfvf";
        default: throw std::runtime_error("no magic");
    }
}
static size_t magic_len(DataFormat f) { return (f == DataFormat::GRIB || f == DataFormat::BUFR) ? 4 : 8; }
static const char* trailer(DataFormat f) { return f == DataFormat::JPEG ? "77\xff\xd9" : "7777"; }

// layout: magic u32 total_len u16 usn u16 items_len items filler trailer
std::vector<uint8_t> make_payload(DataFormat format, const Metadata& items, unsigned usn,
                                  const std::vector<uint8_t>& filler)
{
    std::vector<uint8_t> res;
    if (format == DataFormat::VM2)
    {
        auto rt = items.get<reftime::Position>();
        auto t  = rt->get_Position();
        auto* a = dynamic_cast<const area::VM2*>(items.get(TYPE_AREA));
        unsigned vi;
        items.get<Product>()->get_VM2(vi);
        char buf[64];
        snprintf(buf, 64, "%04d%02d%02d%02d%02d", t.ye, t.mo, t.da, t.ho, t.mi);
        std::string s = buf;
        if (t.se)
        {
            snprintf(buf, 64, "%02d", t.se);
            s += buf;
        }
        s += "," + std::to_string(a->get_VM2()) + "," + std::to_string(vi) + ",";
        for (auto b : filler)
            s += (char)('0' + b % 10);
        s += ",,,0000000" + std::to_string(usn);
        return std::vector<uint8_t>(s.begin(), s.end());
    }
    std::vector<uint8_t> enc;
    core::BinaryEncoder e(enc);
    for (auto code : ALL_CODES)
        if (auto i = items.get(code))
            i->encodeBinary(e);
    size_t ml    = magic_len(format);
    size_t total = ml + 8 + enc.size() + filler.size() + 4;
    res.resize(ml + 8);
    memcpy(res.data(), magic(format), ml);
    for (int i = 0; i < 4; ++i)
        res[ml + i] = total >> (24 - 8 * i);
    res[ml + 4] = usn >> 8;
    res[ml + 5] = usn;
    res[ml + 6] = enc.size() >> 8;
    res[ml + 7] = enc.size();
    res.insert(res.end(), enc.begin(), enc.end());
    res.insert(res.end(), filler.begin(), filler.end());
    res.insert(res.end(), trailer(format), trailer(format) + 4);
    return res;
}

std::shared_ptr<Metadata> make_inline(DataFormat format, const Metadata& items, unsigned usn,
                                      const std::vector<uint8_t>& filler)
{
    auto data = make_payload(format, items, usn, filler);
    auto md   = scan_payload(format, data.data(), data.size());
    md->set_source_inline(format, metadata::DataManager::get().to_data(format, std::move(data)));
    return md;
}

static std::shared_ptr<Metadata> scan_vm2(const std::string& line)
{
    auto md = std::make_shared<Metadata>();
    size_t p = line.find(',');
    if (p == std::string::npos || p < 12)
        throw std::runtime_error("invalid VM2 line");
    std::string d = line.substr(0, p);
    core::Time t(0, 0, 0);
    int n = sscanf(d.c_str(), "%4d%2d%2d%2d%2d%2d", &t.ye, &t.mo, &t.da, &t.ho, &t.mi, &t.se);
    if (n < 5)
        throw std::runtime_error("invalid VM2 time");
    if (n == 5)
        t.se = 0;
    size_t p1 = line.find(',', p + 1);
    size_t p2 = p1 == std::string::npos ? p1 : line.find(',', p1 + 1);
    if (p2 == std::string::npos)
        throw std::runtime_error("invalid VM2 line");
    md->test_set(Reftime::createPosition(t));
    md->test_set(area::VM2::create(strtoul(line.c_str() + p + 1, 0, 10)));
    md->test_set(Product::createVM2(strtoul(line.c_str() + p1 + 1, 0, 10)));
    md->test_set(Value::create(line.substr(p2 + 1)));
    return md;
}

static size_t parse_header(DataFormat format, const uint8_t* buf, size_t size, size_t& items_pos, size_t& items_len,
                           unsigned& usn)
{
    size_t ml = magic_len(format);
    if (size < ml + 8 || memcmp(buf, magic(format), ml) != 0)
        throw std::runtime_error("invalid message header");
    size_t len = ((size_t)buf[ml] << 24) | (buf[ml + 1] << 16) | (buf[ml + 2] << 8) | buf[ml + 3];
    usn        = (buf[ml + 4] << 8) | buf[ml + 5];
    items_len  = (buf[ml + 6] << 8) | buf[ml + 7];
    items_pos  = ml + 8;
    if (len > size || len < items_pos + items_len + 4)
        throw std::runtime_error("truncated message");
    if (memcmp(buf + len - 4, trailer(format), 4) != 0)
        throw std::runtime_error("message trailer not found");
    return len;
}

std::shared_ptr<Metadata> scan_payload(DataFormat format, const uint8_t* buf, size_t size)
{
    if (format == DataFormat::VM2)
        return scan_vm2(std::string((const char*)buf, size));
    size_t pos, len;
    unsigned usn;
    size_t total = parse_header(format, buf, size, pos, len, usn);
    if (total != size)
        throw std::runtime_error("message length mismatch");
    auto md = std::make_shared<Metadata>();
    core::BinaryDecoder dec(buf + pos, len);
    while (dec)
        md->test_set(Type::decode(dec));
    return md;
}

static int payload_usn(DataFormat format, const std::vector<uint8_t>& data)
{
    if (format == DataFormat::VM2)
        return data.back() - '0';
    size_t pos, len;
    unsigned usn;
    parse_header(format, data.data(), data.size(), pos, len, usn);
    return usn;
}

// Common implementation
template <typename BASE> class TestScanner : public BASE
{
public:
    DataFormat m_format;
    TestScanner(DataFormat f) : m_format(f) {}
    DataFormat name() const override { return m_format; }
    std::shared_ptr<Metadata> scan_data(const std::vector<uint8_t>& data) override
    {
        auto md = scan_payload(m_format, data.data(), data.size());
        md->set_source_inline(m_format,
                              metadata::DataManager::get().to_data(m_format, std::vector<uint8_t>(data)));
        return md;
    }
    /// Split a buffer in messages
    bool split(const std::vector<uint8_t>& buf, std::function<bool(size_t, size_t)> dest)
    {
        size_t pos = 0;
        if (m_format == DataFormat::VM2)
        {
            while (pos < buf.size())
            {
                size_t end = pos;
                while (end < buf.size() && buf[end] != '\n')
                    ++end;
                bool valid = end > pos;
                if (valid)
                {
                    try
                    {
                        scan_payload(m_format, buf.data() + pos, end - pos);
                    }
                    catch (std::exception&)
                    {
                        valid = false; // the real scanner skips invalid lines
                    }
                }
                if (valid && !dest(pos, end - pos))
                    return false;
                pos = end + 1;
            }
            return true;
        }
        size_t ml = magic_len(m_format);
        while (pos + ml <= buf.size())
        {
            if (memcmp(buf.data() + pos, magic(m_format), ml) != 0)
            {
                ++pos; // like ecCodes, look for the beginning of the next message
                continue;
            }
            size_t ipos, ilen;
            unsigned usn;
            size_t len = parse_header(m_format, buf.data() + pos, buf.size() - pos, ipos, ilen, usn);
            if (!dest(pos, len))
                return false;
            pos += len;
        }
        return true;
    }
    bool scan_file_multi(const std::filesystem::path& abspath, data::scan_file_multi_dest_func dest) override
    {
        auto buf = read_all(abspath);
        return split(buf, [&](size_t off, size_t size) {
            auto md = scan_payload(m_format, buf.data() + off, size);
            return dest(md, off, std::vector<uint8_t>(buf.begin() + off, buf.begin() + off + size));
        });
    }
    std::shared_ptr<Metadata> scan_file_single(const std::filesystem::path& abspath) override
    {
        auto buf = read_all(abspath);
        std::shared_ptr<Metadata> res;
        split(buf, [&](size_t off, size_t size) {
            if (res)
                throw std::runtime_error(abspath.native() + " contains more than one data");
            res = scan_payload(m_format, buf.data() + off, size);
            if (m_format == DataFormat::VM2)
                res->set_cached_data(metadata::DataManager::get().to_data(
                    m_format, std::vector<uint8_t>(buf.begin() + off, buf.begin() + off + size)));
            return true;
        });
        if (!res)
            throw std::runtime_error(abspath.native() + " contains no data");
        return res;
    }
    bool scan_pipe(core::NamedFileDescriptor& in, metadata_dest_func dest) override
    {
        auto buf = read_all_fd(in);
        return split(buf, [&](size_t off, size_t size) {
            return dest(scan_data(std::vector<uint8_t>(buf.begin() + off, buf.begin() + off + size)));
        });
    }
    bool update_sequence_number(Metadata& md, int& usn) const override
    {
        if (m_format != DataFormat::BUFR || md.source().format != DataFormat::BUFR)
            return false;
        usn = payload_usn(m_format, md.get_data().read());
        return true;
    }
    bool update_sequence_number(const source::Blob& source, int& usn) const override
    {
        if (m_format != DataFormat::BUFR || source.format != DataFormat::BUFR)
            return false;
        usn = payload_usn(m_format, source.read_data());
        return true;
    }
    std::vector<uint8_t> reconstruct(const Metadata& md, const std::string& value) const override
    {
        if (m_format != DataFormat::VM2)
            return data::Scanner::reconstruct(md, value);
        auto t = md.get<reftime::Position>()->get_Position();
        char buf[64];
        snprintf(buf, 64, "%04d%02d%02d%02d%02d", t.ye, t.mo, t.da, t.ho, t.mi);
        std::string s = buf;
        if (t.se)
        {
            snprintf(buf, 64, "%02d", t.se);
            s += buf;
        }
        auto* a = dynamic_cast<const area::VM2*>(md.get(TYPE_AREA));
        unsigned vi;
        md.get<Product>()->get_VM2(vi);
        s += "," + std::to_string(a->get_VM2()) + "," + std::to_string(vi) + "," + value;
        return std::vector<uint8_t>(s.begin(), s.end());
    }
};

class TestSingleScanner : public TestScanner<data::SingleFileScanner>
{
public:
    using TestScanner::TestScanner;
    bool scan_file_multi(const std::filesystem::path& abspath, data::scan_file_multi_dest_func dest) override
    {
        return data::SingleFileScanner::scan_file_multi(abspath, dest);
    }
};

void setup_scanners()
{
    data::Scanner::register_init([] {
        for (auto f : {DataFormat::GRIB, DataFormat::BUFR, DataFormat::VM2})
            data::Scanner::register_scanner(f, std::make_shared<TestScanner<data::Scanner>>(f));
        for (auto f : {DataFormat::ODIMH5, DataFormat::NETCDF, DataFormat::JPEG})
            data::Scanner::register_scanner(f, std::make_shared<TestSingleScanner>(f));
    });
}

} // namespace vf

namespace arki::data::bufr {

struct TestBufrValidator : public Validator
{
    DataFormat format() const override { return DataFormat::BUFR; }
    void validate_file(core::NamedFileDescriptor& fd, off_t offset, size_t size) const override
    {
        char buf[1024];
        if (size < 8)
            throw_check_error(fd, offset, "file segment to check is only " + std::to_string(size) + " bytes");
        if (fd.pread(buf, 4, offset) != 4)
            throw_check_error(fd, offset, "read less than 4 bytes of BUFR header");
        if (memcmp(buf, "BUFR", 4) != 0)
            throw_check_error(fd, offset, "data does not start with 'BUFR'");
        if (fd.pread(buf, 4, offset + size - 4) != 4)
            throw_check_error(fd, offset, "read less than 4 bytes of BUFR trailer");
        if (memcmp(buf, "7777", 4) != 0)
            throw_check_error(fd, offset, "data does not end with '7777'");
    }
    void validate_buf(const void* buf, size_t size) const override
    {
        if (size < 8)
            throw_check_error("buffer is shorter than 8 bytes");
        if (memcmp(buf, "BUFR", 4) != 0)
            throw_check_error("buffer does not start with 'BUFR'");
        if (memcmp((const char*)buf + size - 4, "7777", 4) != 0)
            throw_check_error("buffer does not end with '7777'");
    }
};
const Validator& validator()
{
    static TestBufrValidator v;
    return v;
}

Scanner::Scanner() {}
Scanner::~Scanner() {}
void Scanner::do_scan(dballe::BinaryMessage&, std::shared_ptr<Metadata>) { throw std::runtime_error("no BUFR"); }
std::shared_ptr<Metadata> Scanner::scan_data(const std::vector<uint8_t>&) { throw std::runtime_error("no BUFR"); }
bool Scanner::scan_file_multi(const std::filesystem::path&, scan_file_multi_dest_func)
{
    throw std::runtime_error("no BUFR");
}
std::shared_ptr<Metadata> Scanner::scan_file_single(const std::filesystem::path&)
{
    throw std::runtime_error("no BUFR");
}
bool Scanner::scan_pipe(core::NamedFileDescriptor&, metadata_dest_func) { throw std::runtime_error("no BUFR"); }
int Scanner::update_sequence_number_raw(const std::string&) const { throw std::runtime_error("no BUFR"); }
bool Scanner::update_sequence_number(Metadata&, int&) const { return false; }
bool Scanner::update_sequence_number(const types::source::Blob&, int&) const { return false; }
void MockScanner::scan_extra(dballe::BinaryMessage&, std::shared_ptr<dballe::Message>, std::shared_ptr<Metadata>) {}

} // namespace arki::data::bufr

namespace arki::data::vm2 {

struct TestVm2Validator : public Validator
{
    DataFormat format() const override { return DataFormat::VM2; }
    bool ok(const std::string& s) const
    {
        size_t p = s.find(',');
        if (p == std::string::npos || (p != 12 && p != 14))
            return false;
        for (size_t i = 0; i < p; ++i)
            if (!isdigit((unsigned char)s[i]))
                return false;
        return std::count(s.begin(), s.end(), ',') >= 3 && s.find('\0') == std::string::npos;
    }
    void validate_file(core::NamedFileDescriptor& fd, off_t offset, size_t size) const override
    {
        if (size >= 1024)
            throw_check_error(fd, offset, "size is more than 1024 bytes");
        std::vector<char> buf(size);
        if (fd.pread(buf.data(), size, offset) != size)
            throw_check_error(fd, offset, "cannot read enough bytes");
        if (!ok(std::string(buf.begin(), buf.end())))
            throw_check_error(fd, offset, "not a valid VM2 line");
    }
    void validate_buf(const void* buf, size_t size) const override
    {
        if (!ok(std::string((const char*)buf, size)))
            throw_check_error("not a valid VM2 line");
    }
};
const Validator& validator()
{
    static TestVm2Validator v;
    return v;
}

std::shared_ptr<Metadata> Scanner::scan_data(const std::vector<uint8_t>&) { throw std::runtime_error("no VM2"); }
bool Scanner::scan_file_multi(const std::filesystem::path&, scan_file_multi_dest_func)
{
    throw std::runtime_error("no VM2");
}
std::shared_ptr<Metadata> Scanner::scan_file_single(const std::filesystem::path&)
{
    throw std::runtime_error("no VM2");
}
bool Scanner::scan_pipe(core::NamedFileDescriptor&, metadata_dest_func) { throw std::runtime_error("no VM2"); }
void Scanner::normalize_before_dispatch(Metadata&) {}
std::vector<uint8_t> Scanner::reconstruct(const Metadata&, const std::string&) const
{
    throw std::runtime_error("no VM2");
}

} // namespace arki::data::vm2
