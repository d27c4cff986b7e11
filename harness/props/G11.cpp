// PLUGIN girg rel
// CLI gengirg rel
// CLI gengirg dbg
#include "cli.h"
using namespace vp;

namespace {

struct Params { int n = 10000, d = 1, wseed = 12, pseed = 130, sseed = 1400, threads = 1; double ple = 2.5, alpha = INF, deg = 10; std::string file = "graph"; bool dot = false, edge = false; };
using List = std::vector<std::pair<std::string, std::string>>;

int seedOf(Source& s) { return s.chance(1, 6) ? int(s.range(2147483600, 2147483647)) : s.chance(1, 3) ? int(s.range(0, 20)) : genSeed(s); }

List genValid(Source& s, Params& p, int maxThreads, bool allowDefaults) {
    List l;
    auto given = [&](unsigned num = 3, unsigned den = 4) { return !allowDefaults || s.chance(num, den); };
    const bool nDefault = allowDefaults && s.chance(1, 40);
    if (!nDefault) {
        p.n = s.chance(1, 4) ? int(s.range(12, 40)) : int(s.logRange(12, 1200));
        if (s.chance(1, 8)) p.n = int(s.range(10000, 24000)); // generators use several threads from 10000 vertices per thread
        l.emplace_back("n", std::to_string(p.n));
    }
    if (given()) { p.d = int(s.range(1, p.n > 5000 ? 2 : 5)); l.emplace_back("d", std::to_string(p.d)); }
    if (given()) { p.ple = s.pick({2.1, 2.5, 3.0, 2.9, 2.3, 2.01}); if (s.chance(1, 3)) p.ple = 3 - s.real(0, 0.99); l.emplace_back("ple", num(s, p.ple)); }
    if (given()) { p.alpha = s.weighted({2, 4, 2}) == 0 ? INF : s.chance(1, 2) ? s.pick({2.0, 1.5, 3.0, 1.1, 5.0, 8.0, 10.0}) : 1 + s.real(0.01, 9); l.emplace_back("alpha", num(s, p.alpha)); }
    if (given()) { p.deg = std::min(double(p.n - 1), p.d >= 4 ? s.real(3, 12) : s.real(1, 12)); if (s.chance(1, 12)) p.deg = p.d < 4 ? 1.0 : double(std::min(p.n, 200) - 1); if (s.chance(1, 12) && p.n < 300) p.deg = p.n - 1; l.emplace_back("deg", num(s, p.deg)); }
    if (given()) { p.wseed = seedOf(s); l.emplace_back("wseed", std::to_string(p.wseed)); }
    if (given()) { p.pseed = seedOf(s); l.emplace_back("pseed", std::to_string(p.pseed)); }
    if (given()) { p.sseed = seedOf(s); l.emplace_back("sseed", std::to_string(p.sseed)); }
    if (given(1, 2)) { p.threads = int(s.range(1, maxThreads)); l.emplace_back("threads", std::to_string(p.threads)); }
    if (given(1, 2)) { p.file = s.pick<const char*>({"graph", "x", "out.1", "with blank", "g_2"}); l.emplace_back("file", p.file); }
    p.dot = s.chance(1, 2); if (p.dot || s.chance(1, 2)) l.emplace_back("dot", p.dot ? "1" : "0");
    p.edge = s.chance(3, 4); if (p.edge || s.chance(1, 2)) l.emplace_back("edge", p.edge ? "1" : "0");
    return l;
}

std::string fixed(double x, int digits) { char b[400]; snprintf(b, sizeof b, "%.*f", digits, x); return b; }

/// vertex lines and edges of the dot file; G10 checks the format in detail
void readDot(const std::string& path, const Vec& w, const Pos& x, const Edges& lib, Case& c) {
    const auto text = slurp(path);
    Edges e; size_t vertices = 0, at = 0;
    while (at < text.size()) {
        auto end = text.find('\n', at); if (end == std::string::npos) end = text.size();
        const auto line = text.substr(at, end - at); at = end + 1;
        int u, v;
        if (sscanf(line.c_str(), " %d -- %d", &u, &v) == 2) { e.emplace_back(u, v); continue; }
        const auto l = line.find("label=\""), q = line.find("pos=\"");
        if (l == std::string::npos || q == std::string::npos || sscanf(line.c_str(), " %d", &u) != 1) continue;
        if (u < 0 || size_t(u) >= w.size()) c.fail(cat("dot file: vertex ", u));
        ++vertices;
        const auto label = line.substr(l + 7, line.find('"', l + 7) - l - 7), pos = line.substr(q + 5, line.find('"', q + 5) - q - 5);
        // the weight may differ in the last bit (sum over threads), so may its rounding
        if (std::fabs(atof(label.c_str()) - w[size_t(u)]) > 0.00501 + 1e-12 * w[size_t(u)]) c.fail(cat("dot file: vertex ", u, " has weight ", label, ", the library ", w[size_t(u)]));
        std::string want; for (auto k : x[size_t(u)]) want += (want.empty() ? "" : ",") + fixed(k, 6);
        if (pos != want) c.fail(cat("dot file: vertex ", u, " is at ", pos, ", the library has it at ", want));
    }
    if (vertices != w.size()) c.fail(cat("dot file: ", vertices, " vertices instead of ", w.size()));
    sameGraph(e, lib, int(w.size()), c, "the dot file");
}

void valid(Source& s, Case& c) {
    const int maxThreads = int(s.range(1, 8));
    Params p; auto list = genValid(s, p, maxThreads, true);
    const auto args = shuffled(s, list);
    const char* cfg = s.chance(1, 3) ? "dbg" : "rel";
    c.describe(cat("gengirg ", join(args), " (OMP_NUM_THREADS=", maxThreads, ", build ", cfg, ")"));
    if (p.threads > 1) c.label("parallel"); c.label(std::isinf(p.alpha) ? "threshold" : "alpha finite"); if (p.dot) c.label("dot"); if (p.edge) c.label("edge list");
    Scratch dir;
    if (args.empty()) c.skip();
    const auto o = runTool(dir, cliPath("gengirg", cfg), args, maxThreads);
    if (!o.ok()) c.fail(cat("gengirg ", join(args), ": ", o.text(), " ", o.err.substr(0, 300)));
    std::set<std::string> want; if (p.dot) want.insert(p.file + ".dot"); if (p.edge) want.insert(p.file + ".txt");
    const auto got = dir.files();
    if (got != want) { std::string t; for (auto& f : got) t += " " + f; c.fail(cat("files written:", t)); }
    if (want.empty()) return;
    const auto& api = girg("rel");
    api.setThreads(p.threads);
    auto w = api.weights(p.n, p.ple, p.wseed, true); auto x = api.positions(p.n, p.d, p.pseed, true); double f;
    const auto err = api.scale(w, p.deg, p.d, p.alpha, &f); if (!err.empty()) c.fail("library: " + err);
    const auto e = api.edges(w, x, p.alpha, p.sseed);
    if (p.edge) sameGraph(readEdgeList(dir.work() + "/" + p.file + ".txt", p.n, c), e, p.n, c, "the edge list");
    if (p.dot) readDot(dir.work() + "/" + p.file + ".dot", w, x, e, c);
    c.count("edges", double(e.size())); c.nontrivial(!e.empty());
}

void invalid(Source& s, Case& c) {
    Params p; auto list = genValid(s, p, 4, false);
    auto set = [&](const std::string& k, const std::string& v) { for (auto& x : list) if (x.first == k) { x.second = v; return; } list.emplace_back(k, v); };
    set("edge", "1"); set("dot", "1");
    const int which = int(s.raw(7)); bool plain = true; std::string bad;
    const auto huge = s.pick({1e18, 1e300, INF});
    auto neg = [&] { return num(s, -std::exp2(s.real(-3, 40))); };
    switch (which) {
        case 0: set(bad = "d", s.chance(1, 2) ? std::to_string(-s.range(0, 1000)) : std::to_string(s.range(6, 100000))); break;
        case 1: set(bad = "ple", s.weighted({1, 1, 1, 1}) == 0 ? "2" : s.chance(1, 3) ? num(s, std::nextafter(3.0, 4.0)) : s.chance(1, 2) ? num(s, s.real(-5, 2)) : num(s, s.chance(1, 2) ? huge : s.real(3.001, 50))); break;
        case 2: set(bad = "alpha", s.chance(1, 3) ? std::string("1") : s.chance(1, 2) ? num(s, s.real(-2, 1)) : s.chance(1, 2) ? std::string("-inf") : neg()); break;
        case 3: set(bad = "deg", s.chance(1, 3) ? num(s, s.real(-3, 0.9999)) : s.chance(1, 2) ? num(s, p.n + s.real(0, 1000)) : s.chance(1, 2) ? num(s, huge) : neg()); break;
        case 4: set(bad = "threads", std::to_string(-s.range(0, 100))); break;
        case 5: set(bad = "n", std::to_string(s.chance(1, 2) ? 1 - s.range(0, 1000) : s.range(1, 3))); set("deg", num(s, s.real(3, 10))); break; // no degree is possible
        default: set(bad = s.pick<const char*>({"ple", "alpha", "deg"}), s.pick<const char*>({"nan", "NAN", "-nan", "nan(1)"})); break;
    }
    const auto args = shuffled(s, list);
    const char* cfg = s.chance(1, 3) ? "dbg" : "rel";
    c.describe(cat("gengirg ", join(args), " build ", cfg)); c.label(which == 6 ? "not a number" : bad);
    Scratch dir;
    rejected(runTool(dir, cliPath("gengirg", cfg), args, 4), dir, c, "gengirg " + join(args), plain);
    c.nontrivial();
}

void files(Source& s, Case& c) {
    Params p; auto list = genValid(s, p, 4, false);
    auto set = [&](const std::string& k, const std::string& v) { for (auto& x : list) if (x.first == k) { x.second = v; return; } list.emplace_back(k, v); };
    Scratch dir; Outcome o;
    switch (s.raw(3)) {
        case 0: { // output cannot be written
            set("file", "no/such/graph"); if (s.chance(1, 2)) { set("edge", "1"); set("dot", "0"); } else { set("dot", "1"); set("edge", "0"); }
            const auto args = shuffled(s, list); c.describe("gengirg " + join(args)); c.label("unwritable");
            o = runTool(dir, cliPath("gengirg", "rel"), args, 4); rejected(o, dir, c, "gengirg " + join(args), false); break; }
        case 1: { // help and version
            const std::vector<std::string> args = s.chance(1, 3) ? std::vector<std::string>{} : std::vector<std::string>{s.pick<const char*>({"--help", "-help", "--version"})};
            c.describe("gengirg " + join(args)); c.label("help, version");
            o = runTool(dir, cliPath("gengirg", "rel"), args, 4);
            if (!o.ok() || (o.out + o.err).empty()) c.fail(cat("gengirg ", join(args), ": ", o.text())); if (!dir.files().empty()) c.fail("a file is written"); break; }
        default: { // existing files are replaced
            set("file", "g"); set("edge", "1"); set("dot", "1");
            for (auto n : {"/g.txt", "/g.dot"}) { std::ofstream f(dir.work() + n); for (int i = 0; i < 200000; ++i) f << "7 8\n"; }
            const auto args = shuffled(s, list); c.describe("gengirg " + join(args)); c.label("replaced");
            o = runTool(dir, cliPath("gengirg", "rel"), args, 8); if (!o.ok()) c.fail(cat("gengirg ", join(args), ": ", o.text()));
            auto e = readEdgeList(dir.work() + "/g.txt", p.n, c); canonical(e, p.n, c, "the edge list");
            if (slurp(dir.work() + "/g.dot").find("7 8\n") != std::string::npos) c.fail("the dot file contains text of an older file"); break; }
    }
    c.nontrivial();
}

} // namespace

pbt::Property pbt::define() {
    return {"G11",
        "A case is a parameter list for gengirg in random order with random parameters omitted (defaults), numbers in fixed or scientific notation, thread count up to OMP_NUM_THREADS, seeds up to INT_MAX, file names with blanks and dots, output flags; the tool runs in an empty scratch directory and its files are compared with what the library generates in this process. Invalid lists have one parameter outside its documented range (borders, next doubles, infinities, not a number, degree for n, n without a possible degree) and must end with a message, a non-zero exit status and no file. Non-trivial: the graph has an edge, or the list is invalid.",
        {"C locale", "degrees between n-1 and n are not judged"}, {{"valid", 2500, 30000, valid}, {"invalid", 4000, 30000, invalid}, {"files", 300, 3000, files}}, [] { girg("rel"); }};
}
