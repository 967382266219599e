// P30: log rotation.
#include "pbt.hpp"
#include <filesystem>
#include <fstream>
#include <iterator>
#include <map>
#include <string>
#include <pluto/logger.hpp>
#include <unistd.h>
using pbt::show;
namespace fs = std::filesystem;

namespace
{
    struct Name { const char* dir; const char* stem; const char* ext; };
    const Name names[] = {
        { "", "app", ".log" }, { "", "app2", ".log" }, { "", "app", ".txt" }, { "", "noext", "" }, { "", ".hidden", "" },
        { "", "archive.tar", ".gz" }, { "", "ends", "." }, { "sub", "app", ".log" }, { "sub/v1.2", "plain", "" },
        { "sub/v1.2", "app_x", ".log" }, { "", "with space", ".l og" }, { "", "\xc3\xa9t\xc3\xa9", ".log" },
        { "", "a_b", ".log" }, { "", "run_", ".log" }, { "sub", "10", ".0" }, { "", "_", "" }, { "", "..odd", ".x" } };
    std::string at(const Name& n, std::size_t i)
    {
        return (*n.dir ? std::string(n.dir) + "/" : std::string()) + n.stem + (i ? "_" + std::to_string(i) : "") + n.ext;
    }
    std::string slurp(const fs::path& p)
    {
        std::ifstream f(p, std::ios::binary);
        return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
    }
    std::map<std::string, std::string> snapshot(const fs::path& root)
    {
        std::map<std::string, std::string> r;
        for (const auto& e : fs::recursive_directory_iterator(root))
            if (!e.is_directory()) r[e.path().lexically_relative(root).string()] = slurp(e.path());
        return r;
    }
    void put(const fs::path& p, const std::string& s)
    {
        fs::create_directories(p.parent_path());
        std::ofstream(p, std::ios::binary) << s;
    }
    struct Settings
    {
        std::size_t size, limit;
        bool header;
    };
    // the specification: chain[0] is the current file, chain[i] the one with suffix _i
    void model_write(std::vector<std::string>& chain, const Settings& s, const std::string& header, const std::string& line)
    {
        if (chain.empty()) chain.emplace_back();
        if (s.size != 0 && chain[0].size() >= s.size)
        {
            chain.insert(chain.begin(), std::string());    // shift up by one
            if (chain.size() > s.limit + 1) chain.resize(s.limit + 1);
        }
        if (s.header && chain[0].empty()) chain[0] += header + "\n";
        chain[0] += line + "\n";
    }
    std::string excerpt(const std::string& s) { return s.size() <= 120 ? show(s) : show(s.substr(0, 60)) + "..." + show(s.substr(s.size() - 60)) + " (" + std::to_string(s.size()) + " bytes)"; }
    std::string difference(const std::map<std::string, std::string>& got, const std::map<std::string, std::string>& want)
    {
        std::string r;
        for (const auto& w : want)
        {
            const auto it = got.find(w.first);
            if (it == got.end()) r += " missing " + w.first + " (expected " + excerpt(w.second) + ");";
            else if (it->second != w.second) r += " " + w.first + " is " + excerpt(it->second) + ", expected " + excerpt(w.second) + ";";
        }
        for (const auto& g : got) if (!want.count(g.first)) r += " unexpected " + g.first + " = " + excerpt(g.second) + ";";
        return r;
    }
    std::string text(pbt::Case& c, std::size_t max)
    {
        const std::size_t n = c.length(max);
        std::string s;
        if (c.flag(0.1)) { for (std::size_t i = 0; i < n; ++i) s += static_cast<char>(c.draw(256)); return s; }
        static const char a[] = "abcdefghijklmnop";
        for (std::size_t i = 0; i < n; ++i) s += a[i % 16];
        return s;
    }
}

PROP(sessions, .quick = 25000)
{
    const fs::path root = fs::path(pbt::scratch_dir()) / "logs";
    fs::remove_all(root);
    fs::create_directories(root);
    fs::current_path(root);

    // the files of this case, and what exists beforehand
    const std::size_t files = 1 + c.draw(4);
    std::vector<const Name*> used;
    for (std::size_t i = 0; i < files; ++i)
    {
        const Name* n = &c.pick(names);
        if (std::find(used.begin(), used.end(), n) == used.end()) used.push_back(n);
    }
    std::vector<std::vector<std::string>> chains(used.size());
    std::map<std::string, std::string> others;    // bystanders, which nothing may touch
    for (std::size_t i = 0; i < used.size(); ++i)
    {
        if (c.flag(0.3))
        {
            const std::size_t n = c.length(5);
            for (std::size_t k = 0; k < n; ++k) chains[i].push_back(text(c, 40));
            if (n) c.label("files exist beforehand");
        }
        for (std::size_t k = 0; k < chains[i].size(); ++k) { put(root / at(*used[i], k), chains[i][k]); NOTE(" before: " << at(*used[i], k) << "=" << show(chains[i][k])); }
        if (c.flag(0.3))
        {
            const Name& n = *used[i];
            const std::string d = *n.dir ? std::string(n.dir) + "/" : std::string();
            const std::string bystander[] = { d + n.stem + "_x" + n.ext, d + n.stem + "_1a" + n.ext, d + n.stem + "1" + n.ext, d + n.stem + "_1" + n.ext + ".bak",
                                              d + n.stem + "_" + n.ext, d + n.stem + "_01" + n.ext, d + n.stem + "_-1" + n.ext, d + n.stem + "_0" + n.ext, d + "x" + n.stem + "_1" + n.ext };
            const std::string& b = c.pick(bystander);
            bool own = false;
            for (const Name* u : used) for (std::size_t k = 0; k < 12; ++k) own = own || at(*u, k) == b;
            if (!own) { put(root / b, "other"); others[b] = "other"; NOTE(" bystander " << b); c.label("bystander file"); }
        }
    }

    std::size_t rotations = 0, id = 0, dropped = 0;
    const std::size_t sessions = 1 + c.length(4);
    for (std::size_t s = 0; s < sessions; ++s)
    {
        Settings st;
        static const std::size_t sizes[] = { 0, 1, 5, 20, 47, 100, 1000, 10000 };
        st.size = c.flag(0.2) ? c.draw(300) : sizes[c.draw(8)];
        st.limit = c.flag(0.05) ? 30 : c.draw(6);
        st.header = c.flag(0.6);
        const bool multi = c.flag(0.2);
        const std::string header = multi ? "HEADER\n------" : c.flag(0.2) ? "" : "HEADER";
        static const std::size_t flushes[] = { 1, 1, 2, 7, 1000000, 0 };
        const std::size_t flush = flushes[c.draw(6)];
        const bool absolute = c.flag(0.5);
        NOTE("\nsession size=" << st.size << " limit=" << st.limit << " header=" << (st.header ? show(header) : "off") << " flush=" << flush << (absolute ? " absolute:" : ":"));
        {
            pluto::logger log;
            log.file_rotation_size(st.size).file_rotation_limit(st.limit).write_header(st.header).buffer_flush_size(flush)
               .log_writer([](std::ostream& o, const pluto::log_entry& e) { o << e.message; })
               .header_writer([header](std::ostream& o) { o << header; });
            CHECK_EQ("getter", log.file_rotation_size(), st.size, "file_rotation_size");
            CHECK_EQ("getter", log.file_rotation_limit(), st.limit, "file_rotation_limit");
            CHECK_EQ("getter", log.write_header(), st.header, "write_header");
            const std::size_t messages = c.length(40);
            for (std::size_t m = 0; m < messages; ++m)
            {
                const std::size_t f = c.draw(used.size());
                std::string message = std::to_string(id++) + ":" + text(c, c.flag(0.02) ? 20000 : 60);
                if (c.flag(0.05)) message.clear();
                const std::string file = at(*used[f], 0);
                NOTE(" " << file << "<-" << message.size());
                log.write(absolute ? (root / file).string() : file, pluto::log_level::info, { "f", 1, "g" }, message);
                const std::size_t before = chains[f].size();
                const std::string first = before ? chains[f][0] : std::string();
                model_write(chains[f], st, header, message);
                if (st.size && first.size() >= st.size && before) { ++rotations; if (chains[f].size() <= before) ++dropped; }
            }
        }
        std::map<std::string, std::string> want = others;
        for (std::size_t i = 0; i < used.size(); ++i)
            for (std::size_t k = 0; k < chains[i].size(); ++k) want[at(*used[i], k)] = chains[i][k];
        const auto got = snapshot(root);
        CHECK("files", got == want, "after session " << s + 1 << " (rotation size " << st.size << ", limit " << st.limit << ", header " << (st.header ? "on" : "off") << "):" << difference(got, want));
    }
    c.nontrivial(rotations >= 2);
    if (dropped) c.label("old files discarded");
    if (rotations > 20) c.label("over 20 rotations");
    fs::current_path("/");
    fs::remove_all(root);
}

// long chains, large limits, many rotations
PROP(long_chains, .quick = 800)
{
    const fs::path root = fs::path(pbt::scratch_dir()) / "logs";
    fs::remove_all(root);
    fs::create_directories(root);
    fs::current_path(root);
    const Name& n = c.pick(names);
    std::vector<std::string> chain;
    const std::size_t before = c.draw(2) ? 0 : c.large(130);
    for (std::size_t k = 0; k < before; ++k) { chain.push_back("old" + std::to_string(k) + (k ? "\n" : "")); put(root / at(n, k), chain[k]); }
    Settings st;
    st.limit = c.large(130);
    st.size = c.draw(2) ? 1 + c.draw(10) : c.large(3000);
    st.header = c.draw(3) == 0;
    const std::size_t messages = c.large(250), size = c.draw(3) ? c.draw(12) : c.large(6000);
    const std::size_t flush = c.draw(2) ? 1 : 1 + c.large(100);
    NOTE(at(n, 0) << ": " << before << " files before; size " << st.size << " limit " << st.limit << (st.header ? " header" : "") << " flush " << flush << "; " << messages << " messages of " << size);
    std::size_t rotations = 0;
    {
        pluto::logger log;
        log.file_rotation_size(st.size).file_rotation_limit(st.limit).write_header(st.header).buffer_flush_size(flush)
           .log_writer([](std::ostream& o, const pluto::log_entry& e) { o << e.message; })
           .header_writer([](std::ostream& o) { o << "H"; });
        for (std::size_t m = 0; m < messages; ++m)
        {
            const std::string message = std::to_string(m) + ":" + std::string(size, 'w');
            log.write(at(n, 0), pluto::log_level::info, { "f", 1, "g" }, message);
            const std::string first = chain.empty() ? std::string() : chain[0];
            rotations += st.size && first.size() >= st.size && !chain.empty();
            model_write(chain, st, "H", message);
        }
    }
    std::map<std::string, std::string> want;
    for (std::size_t k = 0; k < chain.size(); ++k) want[at(n, k)] = chain[k];
    const auto got = snapshot(root);
    CHECK("files", got == want, difference(got, want).substr(0, 3000));
    c.nontrivial(rotations >= 2);
    if (rotations > 100) c.label("over 100 rotations");
    if (chain.size() > 100) c.label("over 100 files");
    fs::current_path("/");
    fs::remove_all(root);
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P30", "cases: up to five loggers one after another, of generated rotation size, limit, header and flush settings, log generated messages to up to four files, some existing beforehand with rotated predecessors and look-alike bystanders; all files are compared byte by byte with a model of rotation after each logger; non-trivial: at least two rotations");
}
