// C04: output of query results
#include "world.h"
#include "arki/core/binary.h"
#include "arki/core/file.h"
#include "arki/dataset/file.h"
#include "arki/dataset/pool.h"
#include "arki/formatter.h"
#include "arki/metadata/archive.h"
#include "arki/metadata/data.h"
#include "arki/metadata/reader.h"
#include "arki/metadata/sort.h"
#include "arki/python/cmdline/processor.h"
#include "arki/query/progress.h"
#include "arki/stream.h"
#include "arki/structured/json.h"
#include "arki/structured/keys.h"
#include "arki/structured/memory.h"
#include "arki/structured/reader.h"
#include "arki/summary/short.h"
#include "arki/summary/stats.h"
#include "arki/types/reftime.h"
#include "arki/types/source.h"
#include "arki/types/source/blob.h"
#include "arki/types/source/url.h"
#include <algorithm>
#include <archive.h>
#include <archive_entry.h>
#include <fcntl.h>
#include <unistd.h>

using namespace vf;
using namespace arki;
using namespace arki::types;
namespace fs = std::filesystem;

namespace {

const std::vector<TypeCode> SUM_TYPES = {TYPE_ORIGIN, TYPE_PRODUCT, TYPE_LEVEL,    TYPE_TIMERANGE, TYPE_AREA,
                                         TYPE_PRODDEF, TYPE_RUN,    TYPE_QUANTITY, TYPE_TASK};

struct Row
{
    std::shared_ptr<Metadata> md;
    std::vector<uint8_t> data;
};

/// A member of an archive
struct Member
{
    std::string name;
    std::vector<uint8_t> data;
    int64_t mtime;
};

std::vector<Member> read_archive(Case& c, const std::vector<uint8_t>& buf)
{
    std::vector<Member> res;
    auto a = archive_read_new();
    archive_read_support_filter_all(a);
    archive_read_support_format_all(a);
    if (archive_read_open_memory(a, buf.data(), buf.size()) != ARCHIVE_OK)
    {
        std::string msg = archive_error_string(a);
        archive_read_free(a);
        c.fail("archive-open", "the archive cannot be read: " + msg);
    }
    struct archive_entry* e;
    while (true)
    {
        int r = archive_read_next_header(a, &e);
        if (r == ARCHIVE_EOF)
            break;
        if (r != ARCHIVE_OK)
        {
            std::string msg = archive_error_string(a);
            archive_read_free(a);
            c.fail("archive-entry", "the archive cannot be read: " + msg);
        }
        Member m;
        m.name  = archive_entry_pathname(e);
        m.mtime = archive_entry_mtime(e);
        char b[4096];
        while (true)
        {
            auto n = archive_read_data(a, b, sizeof(b));
            if (n < 0)
            {
                std::string msg = archive_error_string(a);
                archive_read_free(a);
                c.fail("archive-data", "data of " + m.name + " cannot be read from the archive: " + msg);
            }
            if (!n)
                break;
            m.data.insert(m.data.end(), b, b + n);
        }
        res.push_back(m);
    }
    archive_read_free(a);
    return res;
}

struct CountProgress : public query::Progress
{
    unsigned starts = 0, dones = 0;
    size_t n = 0, size = 0;
    void start(size_t expected_count, size_t expected_bytes) override { ++starts; }
    void update(size_t count, size_t bytes) override
    {
        n += count;
        size += bytes;
    }
    void done() override { ++dones; }
};

/// Rows of a summary, keeping only some types
typedef std::map<std::vector<std::vector<uint8_t>>, std::tuple<uint64_t, uint64_t, int64_t, int64_t>> Rows;
struct RowReader : public summary::Visitor
{
    Rows rows;
    const std::set<TypeCode>* only = nullptr;
    bool operator()(const std::vector<const Type*>& md, const summary::Stats& st) override
    {
        std::vector<std::vector<uint8_t>> k;
        for (auto t : md)
            if (t && (!only || only->count(t->type_code())))
                k.push_back(enc(*t));
        std::sort(k.begin(), k.end());
        auto v = std::make_tuple((uint64_t)st.count, (uint64_t)st.size, civil_secs(st.begin), civil_secs(st.end));
        auto i = rows.find(k);
        if (i == rows.end())
            rows[k] = v;
        else
        {
            std::get<0>(i->second) += std::get<0>(v);
            std::get<1>(i->second) += std::get<1>(v);
            std::get<2>(i->second) = std::min(std::get<2>(i->second), std::get<2>(v));
            std::get<3>(i->second) = std::max(std::get<3>(i->second), std::get<3>(v));
        }
        return true;
    }
};

Rows rows_of(const Summary& s, const std::set<TypeCode>* only = nullptr)
{
    RowReader r;
    r.only = only;
    s.visit(r);
    return r.rows;
}

struct Output
{
    Case& c;
    Gen& g;
    std::vector<std::unique_ptr<World>> worlds;
    std::shared_ptr<core::cfg::Section> file_cfg;
    std::vector<ElemP> file_elems;
    std::shared_ptr<dataset::Session> session;
    std::vector<std::shared_ptr<Metadata>> mpool;

    explicit Output(Case& c) : c(c), g(c.g), session(std::make_shared<dataset::Session>(false)) {}
    ~Output()
    {
        while (!worlds.empty())
            worlds.pop_back();
    }

    void setup()
    {
        unsigned nw = g.range(1, 2);
        for (unsigned i = 0; i < nw; ++i)
        {
            WorldOpts o;
            o.name  = i ? "b" : "a";
            o.small = g.chance(1, 3);
            worlds.push_back(std::make_unique<World>(c, o));
            auto& w    = *worlds.back();
            w.notes    = true;
            unsigned n = g.weighted({1, 3, 2, 1});
            for (unsigned j = 0; j < n; ++j)
                w.op_import();
            if (n && g.chance(1, 4))
                w.op_repack();
            if (n && g.chance(1, 3))
                w.op_convert();
            for (const auto& m : w.mpool())
                mpool.push_back(m);
        }
        if (g.chance(1, 3))
        {
            // A file with metadata and data
            WorldOpts o;
            o.name = "f";
            World w(c, o);
            auto f = c.newdir() / "test.metadata";
            core::File out(f, O_WRONLY | O_CREAT, 0666);
            unsigned n = g.range(1, 4);
            for (unsigned i = 0; i < n; ++i)
            {
                auto e = w.new_elem();
                w.history.push_back(e);
                file_elems.push_back(e);
                mpool.push_back(e->items);
                make_inline(e->format, *e->items, e->usn, e->filler)->write(out);
            }
            out.close();
            file_cfg = dataset::file::read_config(f);
        }
    }

    std::vector<std::shared_ptr<dataset::Reader>> readers()
    {
        std::vector<std::shared_ptr<dataset::Reader>> res;
        for (auto& w : worlds)
            res.push_back(session->dataset(w->cfg)->create_reader());
        if (file_cfg)
            res.push_back(session->dataset(*file_cfg)->create_reader());
        return res;
    }

    void check_archive(const std::vector<uint8_t>& out, const std::vector<Row>& expected, const std::string& subdir,
                       bool with_metadata)
    {
        auto members  = read_archive(c, out);
        size_t nfiles = expected.size() + (with_metadata ? 1 : 0);
        c.eq(members.size(), nfiles, "archive-count", "number of files in the archive");
        std::string prefix = subdir.empty() ? "" : subdir + "/";
        for (size_t i = 0; i < expected.size(); ++i)
        {
            char name[64];
            snprintf(name, 64, "%06zu.", i + 1);
            c.eq(members[i].name, prefix + name + format_name(expected[i].md->source().format), "archive-name",
                 "name of element " + std::to_string(i));
            c.check(members[i].data == expected[i].data, "archive-data",
                    "data of element " + std::to_string(i) + " is " + hexdump(members[i].data) + " instead of " +
                        hexdump(expected[i].data));
            if (auto rt = expected[i].md->get<types::reftime::Position>())
            {
                auto t = rt->get_Position();
                if (t.ye >= 1981 && t.ye < 2037)
                    c.eq(members[i].mtime, civil_secs(t) - civil_secs(1970, 1, 1, 0, 0, 0), "archive-mtime",
                         "time of element " + std::to_string(i));
            }
        }
        if (!with_metadata)
            return;
        c.eq(members.back().name, prefix + "metadata.md", "archive-metadata", "name of the file with the metadata");
        // Where the data come from is not looked at
        core::BinaryDecoder dec(members.back().data);
        std::vector<std::shared_ptr<Metadata>> res;
        bool inl = false;
        while (dec.size)
        {
            c.check(dec.pop_byte("header") == 'M' && dec.pop_byte("header") == 'D', "archive-metadata",
                    "metadata in the archive cannot be read");
            unsigned version = dec.pop_uint(2, "version");
            auto inner       = dec.pop_data(dec.pop_uint(4, "length"), "metadata");
            auto md          = Metadata::read_binary_inner(inner, version, "metadata.md", "/");
            if (md->has_source() && md->source().style() == Source::Style::INLINE)
                inl = true;
            res.push_back(md);
        }
        c.eq(res.size(), expected.size(), "archive-metadata", "number of metadata in the archive");
        for (size_t i = 0; i < res.size(); ++i)
            c.check(items_fingerprint(*res[i]) == items_fingerprint(*expected[i].md), "archive-metadata",
                    "metadata of element " + std::to_string(i) + " in the archive is " + vf::show(*res[i]) +
                        " instead of " + vf::show(*expected[i].md));
        c.check(!inl, "archive-inline", "metadata in the archive expects to be followed by data");
        for (auto& e : expected)
            if (e.md->source().style() != Source::Style::INLINE)
                return;
        if (expected.empty())
            return;
        // Data that were nowhere else can be found using the extracted archive
        auto dir = c.newdir();
        fs::path mdfile;
        for (auto& m : members)
        {
            auto f = dir / m.name;
            fs::create_directories(f.parent_path());
            core::File o(f, O_WRONLY | O_CREAT, 0666);
            if (!m.data.empty())
                o.write_all_or_throw(m.data.data(), m.data.size());
            mdfile = f;
        }
        size_t i = 0;
        session->dataset(*dataset::file::read_config("metadata", mdfile))
            ->create_reader()
            ->query_data(query::Data(Matcher(), true), [&](std::shared_ptr<Metadata> md) {
                c.check(i < expected.size(), "archive-query", "too many elements");
                c.check(md->get_data().read() == expected[i].data, "archive-query",
                        "wrong data of element " + std::to_string(i) + " querying the extracted archive");
                ++i;
                return true;
            });
        c.eq(i, expected.size(), "archive-query", "elements found querying the extracted archive");
        c.count("extracted archives");
    }

    void run_query()
    {
        std::string text;
        std::unique_ptr<MExpr> expr;
        if (g.chance(1, 2) && !mpool.empty())
        {
            ItemOpts io;
            io.plain = io.small = io.ordered_timerange = true;
            expr = std::make_unique<MExpr>(gen_expr(g, mpool, io, true, 1));
            text = expr->text(nullptr);
        }
        static const std::vector<std::string> sorts = {"", "", "reftime", "-reftime", "origin,reftime", "day:-reftime",
                                                       "month:product,-reftime"};
        std::string sort = g.pick(sorts);
        python::cmdline::ProcessorMaker m;
        enum { METADATA, INLINE, DATA, POST, SUMMARY, SHORT, ARCHIVE } what =
            (decltype(METADATA))g.weighted({4, 3, 2, 2, 3, 2, 4});
        if (what == SUMMARY || what == SHORT || what == ARCHIVE)
            sort.clear();
        enum { BINARY, YAML, JSON } fmt = (decltype(BINARY))g.weighted({2, 1, 1});
        m.sort           = sort;
        auto progress    = std::make_shared<CountProgress>();
        m.progress       = progress;
        m.annotate       = g.chance(1, 4);
        if (what == METADATA || what == INLINE || what == SUMMARY || what == SHORT)
        {
            m.yaml = fmt == YAML;
            m.json = fmt == JSON;
        }
        if (fmt == BINARY && m.annotate)
            fmt = YAML;
        std::string format = g.pick({"tar", "tar.gz", "tar.xz", "zip"});
        std::set<TypeCode> only;
        switch (what)
        {
            case METADATA: m.server_side = g.chance(1, 5); break;
            case INLINE: m.data_inline = true; break;
            case DATA: m.data_only = true; break;
            case POST: m.postprocess = "/bin/cat"; break;
            case SUMMARY:
                m.summary = true;
                if (g.chance(1, 3))
                {
                    unsigned n = g.range(1, 3);
                    for (unsigned i = 0; i < n; ++i)
                        only.insert(g.pick(SUM_TYPES));
                    for (auto code : only)
                        m.summary_restrict += (m.summary_restrict.empty() ? "" : ",") + types::tag(code);
                }
                break;
            case SHORT: m.summary_short = true; break;
            case ARCHIVE: break;
        }
        static const std::vector<std::string> names = {"metadata", "inline", "data", "postprocess", "summary", "short",
                                                       "archive"};
        static const std::vector<std::string> fnames = {"binary", "yaml", "json"};
        std::string desc = names[what] + " " + (what == ARCHIVE ? format : fnames[fmt]) + " of [" + text + "] sort [" + sort +
                           "]" + (m.annotate ? " annotated" : "") + (only.empty() ? "" : " only " + m.summary_restrict);
        c.log(desc);
        c.count(names[what]);

        auto matcher = session->matcher(text);
        // What is expected, asking the datasets
        std::vector<Row> expected;
        Summary sum;
        unsigned idx = 0;
        for (auto& r : readers())
        {
            if (what == SUMMARY || what == SHORT)
            {
                r->query_summary(matcher, sum);
                continue;
            }
            query::Data q(matcher, true);
            if (!sort.empty())
                q.sorter = metadata::sort::Compare::parse(sort);
            std::vector<std::shared_ptr<Metadata>> mds;
            r->query_data(q, [&](std::shared_ptr<Metadata> md) {
                mds.push_back(md);
                expected.push_back({md, md->get_data().read()});
                return true;
            });
            if (idx < worlds.size())
            {
                std::vector<ElemP> exp;
                for (const auto& e : worlds[idx]->visible())
                    if (!expr || expr->match(*e->items))
                        exp.push_back(e);
                worlds[idx]->compare(exp, mds, "query " + text, true);
            }
            ++idx;
        }
        if (expected.size() > 1 || sum.count() > 1)
            c.mark();

        // Output
        std::vector<uint8_t> out;
        fs::path outfile;
        std::shared_ptr<StreamOutput> stream;
        if (g.chance(1, 3))
        {
            outfile = c.newdir() / "out";
            stream  = StreamOutput::create(std::make_shared<core::File>(outfile, O_RDWR | O_CREAT, 0666));
        }
        else
            stream = StreamOutput::create(out);
        std::unique_ptr<python::cmdline::DatasetProcessor> proc;
        if (what == ARCHIVE)
            proc = python::cmdline::ProcessorMaker::make_libarchive(matcher, stream, format, progress);
        else
            proc = m.make(matcher, stream);
        for (auto& r : readers())
            proc->process(*r, r->name());
        proc->end();
        proc.reset();
        stream.reset();
        if (!outfile.empty())
            out = read_all(outfile);
        std::string sout(out.begin(), out.end());

        if (what != SUMMARY && what != SHORT)
        {
            size_t size = 0;
            for (auto& r : expected)
                size += r.md->data_size();
            c.check(progress->n == expected.size(), "progress",
                    desc + ": progress reported for " + std::to_string(progress->n) + " elements of " +
                        std::to_string(expected.size()));
            if (what != POST)
                c.check(progress->size == size, "progress",
                        desc + ": progress reported for " + std::to_string(progress->size) + " bytes of " +
                            std::to_string(size));
        }

        std::unique_ptr<Formatter> formatter;
        if (m.annotate)
            formatter = Formatter::create();
        switch (what)
        {
            case METADATA:
            case INLINE:
            case POST:
            {
                // The source of what is written
                for (auto& r : expected)
                {
                    auto md  = r.md->clone();
                    auto fmt = md->source().format;
                    if (what != METADATA)
                        md->set_source_inline(fmt, metadata::DataManager::get().to_data(fmt, std::vector<uint8_t>(r.data)));
                    else if (md->source().style() == Source::Style::BLOB)
                    {
                        const auto& b = md->sourceBlob();
                        md->set_source(Source::createBlobUnlocked(fmt, "", b.absolutePathname(), b.offset, b.size));
                        md->set_cached_data(metadata::DataManager::get().to_data(fmt, std::vector<uint8_t>(r.data)));
                    }
                    r.md = md;
                }
                if (what == POST || fmt == BINARY)
                {
                    check_binary(desc, out, expected, what == METADATA);
                    break;
                }
                std::string exp;
                for (auto& r : expected)
                {
                    if (fmt == YAML)
                        exp += r.md->to_yaml(formatter.get()) + "\n";
                    else
                    {
                        std::stringstream ss;
                        structured::JSON json(ss);
                        r.md->serialise(json, structured::keys_json, formatter.get());
                        exp += ss.str();
                    }
                }
                check_text(desc, sout, exp);
                break;
            }
            case DATA:
            {
                std::string exp;
                for (auto& r : expected)
                {
                    exp.append((const char*)r.data.data(), r.data.size());
                    if (r.md->source().format == DataFormat::VM2)
                        exp += "\n";
                }
                check_text(desc, sout, exp);
                break;
            }
            case SUMMARY:
            {
                auto exp = rows_of(sum, only.empty() ? nullptr : &only);
                Summary got;
                if (fmt == BINARY)
                {
                    core::BinaryDecoder dec(out);
                    got.read(dec, "output");
                    c.check(dec.size == 0, "summary-trailing", desc + ": data after the summary");
                }
                else if (fmt == JSON)
                {
                    structured::Memory parsed;
                    structured::JSON::parse(sout, parsed);
                    got.read(structured::keys_json, parsed.root());
                }
                else
                {
                    // Text forms lose something: compare with the same text
                    Summary s;
                    if (only.empty())
                        s.add(sum);
                    else
                        s.add(sum, only);
                    // In any order
                    auto sorted = [](std::string text) {
                        std::vector<std::string> parts;
                        size_t pos;
                        while ((pos = text.find("SummaryItem:", 1)) != std::string::npos)
                        {
                            parts.push_back(text.substr(0, pos));
                            text = text.substr(pos);
                        }
                        parts.push_back(text);
                        for (auto& p : parts)
                        {
                            while (!p.empty() && p.back() == '\n')
                                p.pop_back();
                            p += "\n";
                        }
                        std::sort(parts.begin(), parts.end());
                        std::string res;
                        for (auto& p : parts)
                            res += p;
                        return res;
                    };
                    check_text(desc, sorted(sout), sorted(s.to_yaml(formatter.get())));
                    c.check(rows_of(s) == exp, "summary-restrict", desc + ": wrong summary");
                    break;
                }
                c.check(rows_of(got) == exp, "summary", desc + ": wrong summary " + got.to_yaml());
                break;
            }
            case SHORT:
            {
                summary::Short sh;
                sum.visit(sh);
                std::stringstream ss;
                if (m.json)
                {
                    structured::JSON json(ss);
                    sh.serialise(json, structured::keys_json, formatter.get());
                }
                else
                    sh.write_yaml(ss, formatter.get());
                check_text(desc, sout, ss.str());
                // What the text tells
                std::map<std::string, std::set<std::string>> items;
                uint64_t count = 0, size = 0;
                struct V : public summary::Visitor
                {
                    std::map<std::string, std::set<std::string>> items;
                    uint64_t count = 0, size = 0;
                    bool operator()(const std::vector<const Type*>& md, const summary::Stats& st) override
                    {
                        count += st.count;
                        size += st.size;
                        for (auto t : md)
                            if (t)
                            {
                                std::stringstream ss;
                                ss << *t;
                                auto tag = types::tag(t->type_code());
                                tag[0]   = toupper(tag[0]);
                                items[tag].insert(ss.str());
                            }
                        return true;
                    }
                } v;
                sum.visit(v);
                if (!m.json && !m.annotate)
                {
                    auto lines = [&](const std::string& l) {
                        size_t n = 0;
                        std::stringstream ss(sout);
                        std::string line;
                        while (std::getline(ss, line))
                            if (line == l)
                                ++n;
                        return n;
                    };
                    c.check(lines("  Size: " + std::to_string(v.size)) == 1, "short", desc + ": wrong size");
                    c.check(lines("  Count: " + std::to_string(v.count)) == 1, "short", desc + ": wrong count");
                    for (auto& i : v.items)
                    {
                        c.check(lines("  " + i.first + ":") == 1, "short", desc + ": " + i.first + " is missing");
                        for (auto& t : i.second)
                            if (t.find('\n') == std::string::npos)
                                c.check(lines("    " + t) >= 1, "short", desc + ": " + i.first + " " + t + " is missing");
                    }
                }
                break;
            }
            case ARCHIVE: check_archive(out, expected, "data", true); break;
        }
        c.mix(out.data(), out.size());
    }

    std::vector<uint8_t> read_all(const fs::path& f)
    {
        core::File in(f, O_RDONLY);
        std::vector<uint8_t> res(fs::file_size(f));
        if (!res.empty())
            in.read_all_or_throw(res.data(), res.size());
        return res;
    }

    void check_text(const std::string& desc, const std::string& got, const std::string& exp)
    {
        if (got == exp)
            return;
        size_t p = 0;
        while (p < got.size() && p < exp.size() && got[p] == exp[p])
            ++p;
        size_t from = p < 60 ? 0 : p - 60;
        c.fail("output", desc + ": output of " + std::to_string(got.size()) + " bytes instead of " +
                             std::to_string(exp.size()) + ", different at " + std::to_string(p) + ": " +
                             printable(got.substr(from, 120)) + " instead of " + printable(exp.substr(from, 120)));
    }

    void check_binary(const std::string& desc, const std::vector<uint8_t>& out, const std::vector<Row>& expected, bool sources)
    {
        auto dir = c.newdir();
        auto f   = dir / "out.arkimet";
        {
            core::File o(f, O_WRONLY | O_CREAT, 0666);
            if (!out.empty())
                o.write_all_or_throw(out.data(), out.size());
        }
        core::File in(f, O_RDONLY);
        metadata::BinaryReader r(in);
        std::vector<std::shared_ptr<Metadata>> res;
        r.read_all([&](std::shared_ptr<Metadata> md) {
            res.push_back(md);
            return true;
        });
        c.eq(res.size(), expected.size(), "count", desc + ": number of elements");
        for (size_t i = 0; i < res.size(); ++i)
        {
            auto& md = *res[i];
            auto& e  = *expected[i].md;
            auto el  = desc + ": element " + std::to_string(i);
            c.check(items_fingerprint(md) == items_fingerprint(e), "items",
                    el + " is " + vf::show(md) + " instead of " + vf::show(e));
            c.eq(md.to_yaml(), e.to_yaml(), "metadata", el);
            c.check(md.source().style() == e.source().style(), "source-style",
                    el + ": source is " + md.source().to_string() + " instead of " + e.source().to_string());
            if (e.source().style() == Source::Style::BLOB)
            {
                c.check(md.sourceBlob().absolutePathname() == e.sourceBlob().absolutePathname() &&
                            md.sourceBlob().offset == e.sourceBlob().offset && md.sourceBlob().size == e.sourceBlob().size,
                        "source", el + ": source is " + md.source().to_string() + " instead of " + e.source().to_string());
            }
        }
        // Query the output as a dataset
        if (res.empty())
            return;
        size_t i = 0;
        session->dataset(*dataset::file::read_config(f))->create_reader()->query_data(query::Data(Matcher(), true), [&](std::shared_ptr<Metadata> md) {
            c.check(i < expected.size(), "data", desc + ": too many elements");
            auto d = md->get_data().read();
            c.check(d == expected[i].data, "data",
                    desc + ": data of element " + std::to_string(i) + " are " + hexdump(d) + " instead of " +
                        hexdump(expected[i].data));
            ++i;
            return true;
        });
        c.eq(i, expected.size(), "data", desc + ": elements with data");
    }

    /// Use archive output directly
    void run_archive()
    {
        std::vector<Row> rows;
        bool only_file = file_cfg && g.flip();
        for (auto& r : readers())
            if (!only_file || r->type() == "file")
            r->query_data(query::Data(Matcher(), true), [&](std::shared_ptr<Metadata> md) {
                rows.push_back({md, md->get_data().read()});
                return true;
            });
        if (rows.empty())
            return;
        g.shuffle(rows);
        rows.resize(g.range(0, std::min<size_t>(rows.size(), 20)));
        std::string format = g.pick({"tar", "tar.gz", "tar.xz", "zip"});
        auto f             = c.newdir() / "out";
        auto fd            = std::make_shared<core::File>(f, O_RDWR | O_CREAT, 0666);
        bool file          = g.flip();
        auto ao            = file ? metadata::ArchiveOutput::create_file(format, fd)
                                  : metadata::ArchiveOutput::create_stream(format, StreamOutput::create(fd));
        std::string subdir = "data";
        if (g.chance(2, 3))
        {
            subdir = g.pick({"", "dir", "a/b", "with space"});
            ao->set_subdir(subdir);
        }
        bool with_md = g.chance(2, 3);
        c.log("archive of " + std::to_string(rows.size()) + " elements " + format + (file ? " file" : " stream") + " subdir [" +
              subdir + "]" + (with_md ? " with metadata" : ""));
        for (size_t i = 0; i < rows.size(); ++i)
            c.eq(ao->append(*rows[i].md), i + 1, "archive-index", "index of an element");
        ao->flush(with_md);
        ao.reset();
        check_archive(read_all(f), rows, subdir, with_md);
        c.count("archives");
    }

    void run()
    {
        setup();
        unsigned n = g.range(1, c.thorough ? 8 : 5);
        for (unsigned i = 0; i < n; ++i)
            if (g.chance(1, 8))
                run_archive();
            else
                run_query();
        for (auto& w : worlds)
            for (const auto& e : w->history)
                c.mix(e->payload.data(), e->payload.size());
    }
};

} // namespace

PROPERTY("C04", "outputs", 1, "a query selects at least two elements")
{
    Output o(c);
    o.run();
}
