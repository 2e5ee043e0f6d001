// M01: metadata streams; M02: metadata documents; M03: metadata operations
#include "gen.h"
#include "payload.h"
#include "arki/core/binary.h"
#include "arki/core/file.h"
#include "arki/metadata/collection.h"
#include "arki/metadata/data.h"
#include "arki/metadata/reader.h"
#include "arki/metadata/stream.h"
#include "arki/stream.h"
#include "arki/structured/json.h"
#include "arki/structured/keys.h"
#include "arki/structured/memory.h"
#include "arki/types/note.h"
#include "arki/types/source.h"
#include "arki/types/source/blob.h"
#include "arki/types/source/inline.h"
#include "arki/types/source/url.h"
#include "arki/types/value.h"
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <map>
#include <unistd.h>

using namespace vf;
using namespace arki;
using namespace arki::types;
using arki::core::Time;

namespace {

// What a metadata contains, independently from class Metadata
struct Model
{
    std::map<int, std::vector<uint8_t>> items; // encoded with envelope
    std::vector<std::pair<std::string, std::string>> notes;
    int style = 0; // 0 none, or source style
    DataFormat format = DataFormat::GRIB;
    std::string file, url;
    uint64_t offset = 0, size = 0;
    std::vector<uint8_t> data;
    bool has_data = false;
};

std::string fmt_time(const Time& t)
{
    char buf[64];
    snprintf(buf, 64, "%04d-%02d-%02dT%02d:%02d:%02dZ", t.ye, t.mo, t.da, t.ho, t.mi, t.se);
    return buf;
}

std::string describe(const Model& m)
{
    std::string r;
    for (auto& i : m.items)
    {
        core::BinaryDecoder dec(i.second);
        r += show(*Type::decode(dec)) + "; ";
    }
    for (auto& n : m.notes)
        r += "note[" + n.first + "]" + printable(n.second) + "; ";
    r += "source " + std::to_string(m.style) + " " + format_name(m.format) + " " + m.file + m.url + ":" +
         std::to_string(m.offset) + "+" + std::to_string(m.size);
    return r;
}

std::vector<DataFormat> FORMATS = {DataFormat::GRIB,   DataFormat::BUFR,   DataFormat::VM2,
                                   DataFormat::ODIMH5, DataFormat::NETCDF, DataFormat::JPEG};

struct Built
{
    std::shared_ptr<Metadata> md;
    Model m;
};

struct BuildOpts
{
    ItemOpts io;
    bool inline_ok = true;
    bool blob_ok = true;
    bool url_ok = true;
    bool shuffled = true;
    std::string note_alphabet = "abc XY1:]";
    unsigned max_notes = 3;
};

Built build(Gen& g, const BuildOpts& o)
{
    Built b;
    b.md = std::make_shared<Metadata>();
    std::vector<TypeCode> codes;
    for (auto code : ALL_CODES)
        if (g.chance(1, 2))
            codes.push_back(code);
    if (o.shuffled)
        g.shuffle(codes);
    bool source_first = g.flip();
    std::vector<int> styles;
    if (o.blob_ok) styles.push_back(1);
    if (o.url_ok) styles.push_back(2);
    if (o.inline_ok) styles.push_back(3);
    b.m.style = g.pick(styles);
    b.m.format = g.pick(FORMATS);
    auto set_source = [&] {
        switch (b.m.style)
        {
            case 1:
                b.m.file = g.pick<std::string>({"a.grib", "2007/07-08.bufr", "dir/sub dir/x.h5", "a:b+1.vm2"});
                b.m.offset = g.edgy(1ull << 40);
                b.m.size = g.edgy(1ull << 32);
                b.md->set_source(Source::createBlobUnlocked(b.m.format, "", b.m.file, b.m.offset, b.m.size));
                break;
            case 2:
                b.m.url = g.pick<std::string>({"http://localhost/ds", "https://h:8090/a?b=c,d", "x"});
                b.md->set_source(Source::createURL(b.m.format, b.m.url));
                break;
            default:
                b.m.data = g.bytes(0, g.chance(1, 20) ? 40000 : 30);
                if (g.chance(1, 6))
                {
                    // data that looks like a metadata bundle
                    std::string fake("MD\0\0\0\0\0\4abcd", 12);
                    b.m.data.assign(fake.begin(), fake.end());
                }
                b.m.has_data = true;
                b.m.size = b.m.data.size();
                b.md->set_source_inline(b.m.format, metadata::DataManager::get().to_data(b.m.format, std::vector<uint8_t>(b.m.data)));
        }
    };
    if (source_first)
        set_source();
    unsigned nnotes = g.below(o.max_notes + 1);
    for (unsigned i = 0; i < nnotes; ++i)
    {
        auto t = gen_time(g);
        auto s = g.str(o.note_alphabet, 0, 20);
        b.md->add_note(Note::create(t, s));
        b.m.notes.emplace_back(fmt_time(t), s);
    }
    for (auto code : codes)
    {
        auto i = gen_item(g, code, o.io);
        b.m.items[code] = enc(*i);
        if (g.flip())
            b.md->set(*i);
        else
            b.md->test_set(std::move(i));
    }
    if (!source_first)
        set_source();
    return b;
}

/// Check that a metadata matches a model, basedir is what the reader should use
void expect(Case& c, const Metadata& md, const Model& m, const std::string& what, const std::string& basedir, bool with_data = true)
{
    for (auto code : ALL_CODES)
    {
        auto i = md.get(code);
        auto e = m.items.find(code);
        if (!i && e == m.items.end())
            continue;
        if (!i)
            c.fail(what + "-item-lost", tag(code) + " of " + describe(m) + " was lost");
        if (e == m.items.end())
            c.fail(what + "-item-extra", show(*i) + " appeared in " + describe(m));
        if (enc(*i) != e->second)
            c.fail(what + "-item-changed", tag(code) + " became " + show(*i) + " in " + describe(m));
        c.check(md.has(code), what + "-has", "has() is false for " + tag(code));
    }
    auto n = md.notes();
    std::vector<std::pair<std::string, std::string>> notes;
    for (auto i = n.first; i != n.second; ++i)
    {
        Time t;
        std::string s;
        reinterpret_cast<const Note*>(*i)->get(t, s);
        notes.emplace_back(fmt_time(t), s);
    }
    if (notes != m.notes)
    {
        std::string got;
        for (auto& x : notes)
            got += "[" + x.first + "]" + printable(x.second) + " ";
        c.fail(what + "-notes", "notes became " + got + " in " + describe(m));
    }
    if (!m.style)
    {
        c.check(!md.has_source(), what + "-source-extra", "source appeared in " + describe(m));
        return;
    }
    if (!md.has_source())
        c.fail(what + "-source-lost", "source lost in " + describe(m));
    auto& s = md.source();
    c.eq((int)s.style(), m.style, what + "-source-style", describe(m));
    c.eq((int)s.format, (int)m.format, what + "-source-format", describe(m));
    switch (m.style)
    {
        case 1: {
            auto& b = md.sourceBlob();
            c.eq(b.absolutePathname().native(), (std::filesystem::path(basedir) / m.file).native(), what + "-source-path", describe(m));
            c.eq(b.offset, m.offset, what + "-source-offset", describe(m));
            c.eq(b.size, m.size, what + "-source-size", describe(m));
            break;
        }
        case 2: c.eq(dynamic_cast<const source::URL&>(s).url, m.url, what + "-source-url", describe(m)); break;
        default: c.eq(dynamic_cast<const source::Inline&>(s).size, m.size, what + "-source-inline-size", describe(m));
    }
    if (m.has_data && with_data)
    {
        c.eq(md.data_size(), m.data.size(), what + "-data-size", describe(m));
        auto d = const_cast<Metadata&>(md).get_data().read();
        if (d != m.data)
            c.fail(what + "-data", "inline data changed for " + describe(m));
    }
}

/// Input that returns short reads
struct ShortReads : public core::AbstractInputFile
{
    const std::vector<uint8_t>& buf;
    size_t pos = 0;
    uint64_t rnd;
    std::filesystem::path p;
    ShortReads(const std::vector<uint8_t>& buf, uint64_t rnd, const std::filesystem::path& p) : buf(buf), rnd(rnd), p(p) {}
    std::filesystem::path path() const override { return p; }
    size_t read(void* dest, size_t size) override
    {
        size_t n = std::min(size, buf.size() - pos);
        if (n > 1 && rnd)
        {
            rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
            n = 1 + (rnd >> 33) % n;
        }
        memcpy(dest, buf.data() + pos, n);
        pos += n;
        return n;
    }
};

void append_ref(std::vector<uint8_t>& out, const Model& m, const Metadata& md)
{
    // Reference layout: MD, version 0, length, items by code, notes, source
    std::vector<uint8_t> body;
    std::map<int, std::vector<uint8_t>> items = m.items;
    for (auto& i : items)
        body.insert(body.end(), i.second.begin(), i.second.end());
    for (auto& n : m.notes)
    {
        auto e = enc(*Note::create(Time::create_iso8601(n.first), n.second));
        body.insert(body.end(), e.begin(), e.end());
    }
    auto e = enc(md.source());
    body.insert(body.end(), e.begin(), e.end());
    out.push_back('M');
    out.push_back('D');
    out.push_back(0);
    out.push_back(0);
    for (int i = 3; i >= 0; --i)
        out.push_back(body.size() >> (8 * i));
    out.insert(out.end(), body.begin(), body.end());
    if (m.style == 3)
        out.insert(out.end(), m.data.begin(), m.data.end());
}

void write_file(const std::filesystem::path& p, const std::vector<uint8_t>& d)
{
    int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd == -1 || ::write(fd, d.data(), d.size()) != (ssize_t)d.size())
        throw std::runtime_error("cannot write " + p.native());
    ::close(fd);
}

} // namespace

PROPERTY("M01", "bundles", 4,
         "a sequence of 0-6 metadata with any items, notes and source (blob, URL, inline with data) written as a stream and read back by every reader; "
         "non-trivial: at least 2 metadata, at least one with 3 or more items")
{
    auto& g = c.g;
    unsigned n = g.below(7);
    BuildOpts o;
    std::vector<Built> mds;
    std::vector<uint8_t> ref;
    unsigned maxitems = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        mds.push_back(build(g, o));
        append_ref(ref, mds.back().m, *mds.back().md);
        maxitems = std::max(maxitems, (unsigned)mds.back().m.items.size());
        c.log(describe(mds.back().m));
    }
    if (n >= 2 && maxitems >= 3)
        c.mark();
    c.mix(ref.data(), ref.size());
    for (auto& b : mds)
        expect(c, *b.md, b.m, "built", "");

    // Writers
    std::vector<uint8_t> viabuf;
    {
        auto out = StreamOutput::create(viabuf);
        for (auto& b : mds)
            b.md->write(*out);
    }
    if (viabuf != ref)
        c.fail("encoding", "metadata stream is encoded as " + hexdump(viabuf) + " instead of " + hexdump(ref));
    unsigned how = g.below(5);
    auto dir = c.newdir();
    auto path = dir / "in.md";
    if (how == 0 || how == 1)
    {
        // via file descriptor
        {
            utils::sys::File out(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
            for (auto& b : mds)
                b.md->write(out);
            out.close();
        }
        std::vector<uint8_t> back;
        utils::sys::File in(path, O_RDONLY);
        back.resize(ref.size() + 10);
        back.resize(in.read(back.data(), back.size()));
        in.close();
        if (back != ref)
            c.fail("encoding-fd", "metadata file contains " + hexdump(back) + " instead of " + hexdump(ref));
    }
    else if (how <= 3)
        write_file(path, ref);

    std::vector<std::shared_ptr<Metadata>> res;
    // Stop after some elements?
    unsigned stop = g.chance(1, 4) && n ? g.below(n) : n;
    auto dest = [&](std::shared_ptr<Metadata> md) {
        res.push_back(md);
        return res.size() <= stop;
    };
    bool ret = true;
    std::string basedir = dir.native();
    switch (how)
    {
        case 0:
        case 1: {
            utils::sys::File in(path, O_RDONLY);
            if (how == 0)
            {
                metadata::BinaryReader r(in);
                ret = r.read_all(dest);
            }
            else
            {
                basedir = "/base/dir";
                metadata::BinaryReader r(in, basedir);
                if (g.flip())
                    ret = r.read_all(dest);
                else
                {
                    stop = n;
                    while (auto md = r.read())
                        res.push_back(md);
                }
            }
            break;
        }
        case 2: {
            // pipe with bounded buffer: reads see short counts
            int fds[2];
            if (pipe(fds) != 0)
                throw std::runtime_error("pipe");
            size_t lim = std::min(ref.size(), (size_t)60000);
            if (ref.size() > 60000)
            {
                close(fds[0]);
                close(fds[1]);
                throw Discard();
            }
            if (::write(fds[1], ref.data(), lim) != (ssize_t)lim)
                throw std::runtime_error("write");
            close(fds[1]);
            core::NamedFileDescriptor in(fds[0], path);
            metadata::BinaryReader r(in);
            ret = r.read_all(dest);
            in.close();
            break;
        }
        case 3: {
            uint64_t rnd = g.below(1000);
            ShortReads in(ref, rnd, path);
            metadata::AbstractFileBinaryReader r(in);
            if (g.flip())
                ret = r.read_all(dest);
            else
            {
                stop = n;
                while (auto md = r.read())
                    res.push_back(md);
            }
            break;
        }
        default: {
            basedir = "/stream";
            metadata::Stream s(dest, basedir);
            size_t pos = 0;
            while (pos < ref.size())
            {
                size_t sz = std::min(ref.size() - pos, (size_t)(g.flip() ? g.range(1, 12) : g.range(1, 30000)));
                s.readData(ref.data() + pos, sz);
                pos += sz;
                // everything complete so far must have been delivered
            }
            c.eq(s.countBytesUnprocessed(), 0u, "stream-unprocessed", "bytes left after a whole stream");
            ret = !s.consumer_canceled();
        }
    }
    unsigned expected = stop < n ? stop + 1 : n;
    c.eq(res.size(), (size_t)expected, "count", "metadata read back (mode " + std::to_string(how) + ")");
    c.eq(ret, stop >= n, "cancel-result", "return value of the reader when the consumer stops");
    for (unsigned i = 0; i < res.size(); ++i)
        expect(c, *res[i], mds[i].m, "read" + std::to_string(how), basedir);
    // equality of what was read: source basedir is not part of equality
    for (unsigned i = 0; i < res.size(); ++i)
    {
        c.check(*res[i] == *mds[i].md, "equality", "metadata read back does not compare equal: " + describe(mds[i].m));
        auto clone = res[i]->clone();
        auto r = res[i]->encodeBinary();
        res[i].reset();
        expect(c, *clone, mds[i].m, "clone", basedir);
        c.check(clone->encodeBinary() == r, "clone-encode", "clone encodes differently");
    }
}

PROPERTY("M01", "groups", 2,
         "0-600 metadata written as a collection (compressed groups), several collections concatenated with single metadata and runs of null padding; "
         "non-trivial: 20 or more metadata")
{
    auto& g = c.g;
    BuildOpts o;
    o.inline_ok = false;
    o.max_notes = 1;
    auto dir = c.newdir();
    auto path = dir / "in.md";
    std::vector<Model> models;
    std::vector<uint8_t> all;
    unsigned nparts = g.range(1, 3);
    for (unsigned p = 0; p < nparts; ++p)
    {
        unsigned n = g.weighted({4, 3, 1}) == 2 ? g.range(200, 600) : g.below(30);
        // a few distinct metadata repeated
        std::vector<Built> pool;
        unsigned np = g.range(1, 4);
        for (unsigned i = 0; i < np; ++i)
            pool.push_back(build(g, o));
        metadata::Collection coll;
        uint64_t rnd = g.below(1 << 20);
        for (unsigned i = 0; i < n; ++i)
        {
            rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
            auto& b = pool[(rnd >> 33) % np];
            auto md = b.md->clone();
            Model m = b.m;
            // make each unique
            auto s = "n" + std::to_string(i);
            md->add_note(Note::create(Time(2020, 1, 2), s));
            m.notes.emplace_back("2020-01-02T00:00:00Z", s);
            coll.acquire(md);
            models.push_back(m);
        }
        switch (g.below(3))
        {
            case 0: {
                auto out = StreamOutput::create(all);
                auto r = coll.write_to(*out);
                break;
            }
            case 1: {
                auto p1 = dir / "coll.md";
                coll.writeAtomically(p1);
                utils::sys::File in(p1, O_RDONLY);
                struct stat st;
                in.fstat(st);
                size_t pos = all.size();
                all.resize(pos + st.st_size);
                in.read_all_or_throw(all.data() + pos, st.st_size);
                in.close();
                metadata::Collection back;
                back.read_from_file(p1);
                c.eq(back.size(), coll.size(), "collection-file", "metadata in a collection file");
                for (unsigned i = 0; i < back.size(); ++i)
                    expect(c, back[i], models[models.size() - n + i], "collfile", dir.native());
                break;
            }
            default: {
                auto out = StreamOutput::create(all);
                for (auto& md : coll)
                    md->write(*out);
            }
        }
        if (g.chance(1, 3))
            all.resize(all.size() + g.range(1, 600), 0); // zero padding between bundles is skipped
    }
    c.mix(all.data(), all.size());
    if (models.size() >= 20)
        c.mark();
    c.log(std::to_string(models.size()) + " metadata in " + std::to_string(nparts) + " parts, " + std::to_string(all.size()) + " bytes");
    write_file(path, all);
    std::vector<std::shared_ptr<Metadata>> res;
    unsigned n = models.size();
    unsigned stop = g.chance(1, 4) && n ? g.below(n) : n;
    auto dest = [&](std::shared_ptr<Metadata> md) {
        res.push_back(md);
        return res.size() <= stop;
    };
    bool ret;
    if (g.flip())
    {
        utils::sys::File in(path, O_RDONLY);
        metadata::BinaryReader r(in);
        ret = r.read_all(dest);
    }
    else
    {
        ShortReads in(all, g.below(1000), path);
        metadata::AbstractFileBinaryReader r(in);
        ret = r.read_all(dest);
    }
    c.eq(res.size(), (size_t)(stop < n ? stop + 1 : n), "group-count", "metadata read back from groups");
    c.eq(ret, stop >= n, "group-cancel", "return value of the reader when the consumer stops");
    for (unsigned i = 0; i < res.size(); ++i)
        expect(c, *res[i], models[i], "group", dir.native());
}

PROPERTY("M01", "truncated", 1,
         "a metadata stream cut at every kind of position: the metadata complete before the cut are returned unchanged, and nothing else is; non-trivial: 2 or more complete metadata before the cut")
{
    auto& g = c.g;
    unsigned n = g.range(1, 5);
    BuildOpts o;
    std::vector<Built> mds;
    std::vector<uint8_t> ref;
    std::vector<size_t> ends;
    for (unsigned i = 0; i < n; ++i)
    {
        mds.push_back(build(g, o));
        append_ref(ref, mds.back().m, *mds.back().md);
        ends.push_back(ref.size());
    }
    size_t cut = g.below(ref.size() + 1);
    if (g.chance(1, 3))
    {
        size_t e = g.pick(ends);
        int64_t d = g.range(-3, 3);
        cut = std::min<int64_t>(ref.size(), std::max<int64_t>(0, (int64_t)e + d));
    }
    c.mix(ref.data(), ref.size());
    c.mix(cut);
    ref.resize(cut);
    unsigned complete = 0;
    while (complete < n && ends[complete] <= cut)
        ++complete;
    if (complete >= 2)
        c.mark();
    c.log("cut at " + std::to_string(cut) + " of " + std::to_string(ends.back()) + " complete " + std::to_string(complete));
    auto dir = c.newdir();
    auto path = dir / "in.md";
    std::vector<std::shared_ptr<Metadata>> res;
    auto dest = [&](std::shared_ptr<Metadata> md) {
        res.push_back(md);
        return true;
    };
    unsigned how = g.below(3);
    bool threw = false;
    try
    {
        if (how == 0)
        {
            write_file(path, ref);
            utils::sys::File in(path, O_RDONLY);
            metadata::BinaryReader r(in);
            r.read_all(dest);
        }
        else if (how == 1)
        {
            write_file(path, ref);
            ShortReads in(ref, g.below(1000), path);
            metadata::AbstractFileBinaryReader r(in);
            r.read_all(dest);
        }
        else
        {
            metadata::Stream s(dest, dir);
            s.readData(ref.data(), ref.size());
            size_t start = complete ? ends[complete - 1] : 0;
            // A metadata with inline data is consumed from the buffer before its data arrive
            c.check((s.countBytesUnprocessed() > 0) == (cut > start) || (complete < n && mds[complete].m.style == 3), "stream-pending",
                    "bytes pending in the stream: " + std::to_string(s.countBytesUnprocessed()) + " with " + std::to_string(cut - start) + " after the last whole metadata");
        }
    }
    catch (std::runtime_error& e)
    {
        threw = true;
        c.log(std::string("exception: ") + e.what());
        size_t start = complete ? ends[complete - 1] : 0;
        if (cut == start)
            c.fail("truncated-throws", std::string("reading a stream cut at the end of a metadata throws: ") + e.what());
    }
    c.eq(res.size(), (size_t)complete, "truncated-count", "metadata read from a stream cut at " + std::to_string(cut) + " mode " + std::to_string(how));
    for (unsigned i = 0; i < res.size(); ++i)
        expect(c, *res[i], mds[i].m, "truncated", dir.native());
}

/*
 * M02
 */
PROPERTY("M02", "yaml", 2,
         "a sequence of 1-4 metadata with any items (text without control characters or '#'), notes and source is written as YAML and read back; non-trivial: 3 or more items in some metadata")
{
    auto& g = c.g;
    BuildOpts o;
    o.io.plain = true;
    o.io.missing_step = true;
    o.note_alphabet = "abcXY1:]-";
    unsigned n = g.range(1, 4);
    std::string text;
    std::vector<Built> mds;
    for (unsigned i = 0; i < n; ++i)
    {
        auto b = build(g, o);
        // an empty value has no representation in an YAML document
        if (b.m.items.count(TYPE_VALUE) && b.md->get<types::Value>()->buffer.empty())
        {
            b.md->unset(TYPE_VALUE);
            b.m.items.erase(TYPE_VALUE);
        }
        mds.push_back(b);
        if (b.m.items.size() >= 3)
            c.mark();
        std::string y = b.md->to_yaml();
        text += y + "\n";
        if (g.chance(1, 4))
            text += "\n# comment\n\n";
    }
    c.mix(text);
    c.log(text);
    std::vector<std::shared_ptr<Metadata>> res;
    auto dir = c.newdir();
    std::string basedir;
    if (g.flip())
    {
        auto path = dir / "in.yaml";
        write_file(path, std::vector<uint8_t>(text.begin(), text.end()));
        utils::sys::File in(path, O_RDONLY);
        metadata::YamlReader r(in, basedir);
        r.read_all([&](auto md) { res.push_back(md); return true; });
    }
    else
    {
        core::MemoryFile in(text.data(), text.size(), "mem");
        metadata::YamlReader r(in, basedir);
        if (g.flip())
            r.read_all([&](auto md) { res.push_back(md); return true; });
        else
            while (auto md = r.read())
                res.push_back(md);
    }
    c.eq(res.size(), mds.size(), "yaml-count", "documents read back from " + printable(text));
    for (unsigned i = 0; i < res.size(); ++i)
    {
        // items whose text form is not canonical compare equal
        for (auto code : ALL_CODES)
        {
            auto a = mds[i].md->get(code), b = res[i]->get(code);
            if (!a && !b)
                continue;
            if (!a || !b || !a->equals(*b))
                c.fail("yaml-item", tag(code) + " of " + describe(mds[i].m) + " became " + (b ? show(*b) : "missing") + " from " + printable(text));
            mds[i].m.items[code] = enc(*b);
        }
        expect(c, *res[i], mds[i].m, "yaml", basedir, false);
    }
}

PROPERTY("M02", "json", 2,
         "a metadata with any items, notes and blob or URL source is written as JSON and read back; non-trivial: 3 or more items")
{
    auto& g = c.g;
    BuildOpts o;
    o.note_alphabet = "abc XY1:]\"\\/\n";
    auto b = build(g, o);
    if (b.m.items.size() >= 3)
        c.mark();
    std::stringstream ss;
    structured::JSON json(ss);
    b.md->serialise(json, structured::keys_json);
    std::string text = ss.str();
    c.mix(text);
    c.log(printable(text));
    if (b.m.style == 3)
    {
        // the document is followed by a newline and the data
        std::string d(b.m.data.begin(), b.m.data.end());
        if (text.size() < d.size() + 1 || text.substr(text.size() - d.size()) != d || text[text.size() - d.size() - 1] != '\n')
            c.fail("json-inline", "JSON document is not followed by newline and inline data: " + printable(text));
        text.resize(text.size() - d.size());
    }
    structured::Memory parsed;
    try
    {
        structured::JSON::parse(text, parsed);
    }
    catch (std::exception& e)
    {
        c.fail("json-unparsable", printable(text) + ": " + e.what());
    }
    auto md = Metadata::read_structure(structured::keys_json, parsed.root());
    for (auto code : ALL_CODES)
    {
        auto x = b.md->get(code), y = md->get(code);
        if (!x && !y)
            continue;
        if (!x || !y || !x->equals(*y))
            c.fail("json-item", tag(code) + " of " + describe(b.m) + " became " + (y ? show(*y) : "missing") + " from " + printable(text));
        b.m.items[code] = enc(*y);
    }
    expect(c, *md, b.m, "json", "", false);
    // basedir is preserved by the structured form
    auto md2 = b.md->clone();
    if (b.m.style == 1)
    {
        md2->set_source(Source::createBlobUnlocked(b.m.format, "/some/base", b.m.file, b.m.offset, b.m.size));
        structured::Memory mem;
        md2->serialise(mem, structured::keys_python);
        try
        {
            md = Metadata::read_structure(structured::keys_python, mem.root());
        }
        catch (std::exception&)
        {
            if (b.m.items.count(TYPE_PRODUCT)) // the python keys of BUFR products are ambiguous
                return;
            throw;
        }
        c.eq(md->sourceBlob().absolutePathname().native(), "/some/base/" + b.m.file, "json-basedir", "path after structured round trip");
    }
}

/*
 * M03: operations on a metadata against a model
 */
PROPERTY("M03", "operations", 3,
         "sequence of 3-30 set/unset/merge/note/source/clone/encode operations on two metadata, compared after each step with a reference model; non-trivial: 8 or more operations")
{
    auto& g = c.g;
    BuildOpts o;
    struct St
    {
        std::shared_ptr<Metadata> md = std::make_shared<Metadata>();
        Model m;
    };
    St st[2];
    unsigned n = g.range(3, 30);
    if (n >= 8)
        c.mark();
    ItemOpts io;
    io.small = true;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned k = g.below(2);
        St& s = st[k];
        St& other = st[1 - k];
        unsigned op = g.weighted({8, 3, 2, 2, 1, 2, 1, 2, 2, 2, 2});
        c.mix(op * 2 + k);
        switch (op)
        {
            case 0: {
                auto code = g.pick(ALL_CODES);
                auto item = gen_item(g, code, io);
                c.log("set " + std::to_string(k) + " " + show(*item));
                s.m.items[code] = enc(*item);
                c.mix(s.m.items[code].data(), s.m.items[code].size());
                switch (g.below(3))
                {
                    case 0: s.md->set(*item); break;
                    case 1: s.md->set(std::move(item)); break;
                    default: s.md->test_set(*item);
                }
                break;
            }
            case 1: {
                auto code = g.pick(ALL_CODES);
                c.log("unset " + std::to_string(k) + " " + tag(code));
                s.md->unset(code);
                s.m.items.erase(code);
                break;
            }
            case 2: {
                auto t = gen_time(g);
                auto txt = g.str("abc ", 0, 6);
                c.log("add_note " + txt);
                s.md->add_note(Note::create(t, txt));
                s.m.notes.emplace_back(fmt_time(t), txt);
                Time lt;
                std::string ls;
                s.md->get_last_note().get(lt, ls);
                c.eq(ls, txt, "last-note", "last note");
                break;
            }
            case 3: {
                c.log("set_source blob");
                s.m.style = 1;
                s.m.format = g.pick(FORMATS);
                s.m.file = "f" + std::to_string(g.below(3));
                s.m.offset = g.below(100);
                s.m.size = g.below(100);
                s.m.has_data = false;
                s.md->set_source(Source::createBlobUnlocked(s.m.format, "", s.m.file, s.m.offset, s.m.size));
                s.md->drop_cached_data();
                break;
            }
            case 4:
                c.log("unset_source");
                s.md->unset_source();
                s.m.style = 0;
                s.m.has_data = false;
                break;
            case 5:
                c.log("set_source_inline");
                s.m.style = 3;
                s.m.format = g.pick(FORMATS);
                s.m.data = g.bytes(0, 8);
                s.m.has_data = true;
                s.m.size = s.m.data.size();
                s.md->set_source_inline(s.m.format, metadata::DataManager::get().to_data(s.m.format, std::vector<uint8_t>(s.m.data)));
                break;
            case 6:
                c.log("clear_notes");
                s.md->clear_notes();
                s.m.notes.clear();
                break;
            case 7:
                c.log("merge other into " + std::to_string(k));
                s.md->merge(*other.md);
                for (auto& x : other.m.items)
                    s.m.items[x.first] = x.second;
                break;
            case 8:
                c.log("clone to other");
                other.md = s.md->clone();
                other.m = s.m;
                break;
            case 9: {
                // continue working on a decoded copy, which shares its encoded buffer
                c.log("reencode " + std::to_string(k));
                auto e = s.md->encodeBinary();
                core::BinaryDecoder dec(e);
                std::string sig;
                unsigned ver;
                auto inner = dec.pop_metadata_bundle(sig, ver);
                auto md = Metadata::read_binary_inner(inner, ver, "x", "");
                if (s.m.has_data && s.m.style == 3)
                    md->set_cached_data(metadata::DataManager::get().to_data(s.m.format, std::vector<uint8_t>(s.m.data)));
                s.md = md;
                break;
            }
            default: {
                // copy notes in encoded form
                c.log("notes to other");
                std::vector<uint8_t> buf;
                core::BinaryEncoder e(buf);
                s.md->encode_notes(e);
                other.md->set_notes_encoded(buf.data(), buf.size());
                other.m.notes = s.m.notes;
            }
        }
        for (int j = 0; j < 2; ++j)
            expect(c, *st[j].md, st[j].m, "ops", "");
        // comparisons
        std::map<int, int> diff, exp;
        st[0].md->diff_items(*st[1].md, [&](Code code, const Type* a, const Type* b) { diff[code] = (a ? 1 : 0) + (b ? 2 : 0); });
        for (auto code : ALL_CODES)
        {
            if (code == TYPE_VALUE)
                continue;
            auto a = st[0].md->get(code), b = st[1].md->get(code);
            if ((!a && !b) || (a && b && a->equals(*b)))
                continue;
            exp[code] = (a ? 1 : 0) + (b ? 2 : 0);
        }
        if (diff != exp)
            c.fail("diff_items", "diff_items of " + describe(st[0].m) + " / " + describe(st[1].m) + " reports " + std::to_string(diff.size()) + " differences instead of " + std::to_string(exp.size()));
        c.eq(st[0].md->items_equal(*st[1].md), exp.empty(), "items_equal", describe(st[0].m) + " / " + describe(st[1].m));
    }
}
