// PLUGIN hrg rel
// CLI genhrg rel
// CLI genhrg dbg
#include "cli.h"
using namespace vp;

namespace {

struct Params { int n = 10000, rseed = 12, aseed = 130, sseed = 1400, threads = 1; double alpha = 0.75, T = 0, deg = 10; bool nkr = false, edge = false, coord = false; std::string file = "graph"; };
using List = std::vector<std::pair<std::string, std::string>>;

int seedOf(Source& s) { return s.chance(1, 6) ? int(s.range(2147483600, 2147483647)) : s.chance(1, 3) ? int(s.range(0, 20)) : genSeed(s); }

List genValid(Source& s, Params& p, int maxThreads, bool allowDefaults) {
    List l;
    auto given = [&](unsigned num = 3, unsigned den = 4) { return !allowDefaults || s.chance(num, den); };
    if (!allowDefaults || !s.chance(1, 20)) {
        p.n = s.chance(1, 4) ? int(s.range(12, 40)) : int(s.logRange(12, 3000));
        if (s.chance(1, 8)) p.n = int(s.range(9990, 32000)); // samplers use several threads from 10000 points on
        l.emplace_back("n", std::to_string(p.n));
    }
    if (given()) { p.alpha = s.pick({0.75, 1.0, 0.6, 0.9, 0.55}); if (s.chance(1, 3)) p.alpha = 1 - s.real(0, 0.46); l.emplace_back("alpha", num(s, p.alpha)); }
    if (given()) { p.T = s.chance(1, 3) ? 0.0 : s.chance(1, 2) ? s.pick({0.5, 0.1, 0.25, 0.9}) : s.real(0.02, 0.95); l.emplace_back("t", num(s, p.T)); }
    if (given()) { p.deg = std::min(double(p.n - 1), s.real(1, 16)); if (s.chance(1, 12)) p.deg = 1; if (s.chance(1, 12) && p.n < 500) p.deg = p.n - 1; l.emplace_back("deg", num(s, p.deg)); }
    if (given()) { p.rseed = seedOf(s); l.emplace_back("rseed", std::to_string(p.rseed)); }
    if (given()) { p.aseed = seedOf(s); l.emplace_back("aseed", std::to_string(p.aseed)); }
    if (given()) { p.sseed = seedOf(s); l.emplace_back("sseed", std::to_string(p.sseed)); }
    if (given(1, 2)) { p.threads = int(s.range(1, maxThreads)); l.emplace_back("threads", std::to_string(p.threads)); }
    if (given(1, 2)) { p.nkr = s.chance(1, 2); l.emplace_back("nkr", p.nkr ? "1" : "0"); }
    if (given(1, 2)) { p.file = s.pick<const char*>({"graph", "x", "out.1", "with blank", "g_2"}); l.emplace_back("file", p.file); }
    p.coord = s.chance(1, 2); if (p.coord || s.chance(1, 2)) l.emplace_back("coord", p.coord ? "1" : "0");
    p.edge = s.chance(3, 4); if (p.edge || s.chance(1, 2)) l.emplace_back("edge", p.edge ? "1" : "0");
    return l;
}

void readCoordinates(const std::string& path, const Vec& r, const Vec& a, Case& c) {
    const auto text = slurp(path); const char* p = text.c_str(); Vec v;
    for (;;) { char* e; const double x = strtod(p, &e); if (e == p) break; v.push_back(x); p = e; }
    while (*p && strchr(" \n\t\r", *p)) ++p;
    if (*p) c.fail(cat("coordinate file: unexpected text \"", std::string(p).substr(0, 20), "\""));
    if (v.size() != 2 * r.size()) c.fail(cat("coordinate file: ", v.size(), " numbers for ", r.size(), " vertices"));
    for (size_t i = 0; i < r.size(); ++i) {
        if (!(std::fabs(v[2 * i] - r[i]) <= 1e-17) || !(std::fabs(v[2 * i + 1] - a[i]) <= 1e-17)) c.fail(cat("coordinate file: vertex ", i, " is at ", v[2 * i], " ", v[2 * i + 1], ", the library has it at ", r[i], " ", a[i]));
    }
}

void valid(Source& s, Case& c) {
    const int maxThreads = int(s.range(1, 8));
    Params p; auto list = genValid(s, p, maxThreads, true);
    const auto args = shuffled(s, list);
    const char* cfg = s.chance(1, 3) ? "dbg" : "rel";
    c.describe(cat("genhrg ", join(args), " (OMP_NUM_THREADS=", maxThreads, ", build ", cfg, ")"));
    if (args.empty()) c.skip();
    const auto& api = hrg("rel");
    api.setThreads(p.threads);
    const double R = p.nkr ? api.radiusNkr(p.n, p.alpha, p.T, p.deg) : api.radius(p.n, p.alpha, p.T, p.deg);
    Scratch dir;
    const auto o = runTool(dir, cliPath("genhrg", cfg), args, maxThreads);
    if (std::isnan(R)) { c.label("no such radius"); rejected(o, dir, c, "genhrg " + join(args), false); return; }
    if (p.threads > 1) c.label("parallel"); c.label(p.T == 0 ? "threshold" : "T>0"); if (p.nkr) c.label("nkr"); if (p.coord) c.label("coordinates"); if (p.edge) c.label("edge list");
    if (!o.ok()) c.fail(cat("genhrg ", join(args), ": ", o.text(), " ", o.err.substr(0, 300)));
    std::set<std::string> want; if (p.coord) want.insert(p.file + ".hyp"); if (p.edge) want.insert(p.file + ".txt");
    const auto got = dir.files();
    if (got != want) { std::string t; for (auto& f : got) t += " " + f; c.fail(cat("files written:", t)); }
    if (want.empty()) return;
    auto r = api.radii(p.n, p.alpha, R, p.rseed, true), a = api.angles(p.n, p.aseed, true);
    const auto e = api.edges(r, a, p.T, R, p.sseed);
    if (p.coord) readCoordinates(dir.work() + "/" + p.file + ".hyp", r, a, c);
    if (p.edge) sameGraph(readEdgeList(dir.work() + "/" + p.file + ".txt", p.n, c), e, p.n, c, "the edge list");
    c.count("edges", double(e.size())); c.nontrivial(!e.empty());
}

void invalid(Source& s, Case& c) {
    Params p; auto list = genValid(s, p, 4, false);
    auto set = [&](const std::string& k, const std::string& v) { for (auto& x : list) if (x.first == k) { x.second = v; return; } list.emplace_back(k, v); };
    set("edge", "1"); set("coord", "1");
    const int which = int(s.raw(6)); std::string bad;
    const auto huge = s.pick({1e18, 1e300, INF});
    auto neg = [&] { return num(s, -std::exp2(s.real(-3, 40))); };
    switch (which) {
        case 0: set(bad = "alpha", s.weighted({1, 1, 1, 1}) == 0 ? std::string("0.5") : s.chance(1, 3) ? num(s, std::nextafter(1.0, 2.0)) : s.chance(1, 2) ? num(s, s.real(-1, 0.5)) : num(s, s.chance(1, 2) ? huge : s.real(1.001, 50))); break;
        case 1: set(bad = "t", s.chance(1, 3) ? std::string("1") : s.chance(1, 2) ? num(s, s.chance(1, 2) ? huge : s.real(1.0001, 10)) : s.chance(1, 2) ? std::string("-1e-300") : neg()); break;
        case 2: set(bad = "deg", s.chance(1, 3) ? num(s, s.real(-3, 0.9999)) : s.chance(1, 2) ? num(s, p.n + s.real(0, 1000)) : s.chance(1, 2) ? num(s, huge) : neg()); break;
        case 3: set(bad = "threads", std::to_string(-s.range(0, 100))); break;
        case 4: set(bad = "n", std::to_string(s.chance(1, 2) ? 1 - s.range(0, 1000) : s.range(1, 3))); set("deg", num(s, s.real(3, 10))); break;
        default: set(bad = s.pick<const char*>({"t", "alpha", "deg"}), s.pick<const char*>({"nan", "NAN", "-nan", "nan(1)"})); break;
    }
    const auto args = shuffled(s, list);
    const char* cfg = s.chance(1, 3) ? "dbg" : "rel";
    c.describe(cat("genhrg ", join(args), " build ", cfg)); c.label(which == 5 ? "not a number" : bad);
    Scratch dir;
    rejected(runTool(dir, cliPath("genhrg", cfg), args, 4), dir, c, "genhrg " + join(args), true);
    c.nontrivial();
}

void files(Source& s, Case& c) {
    Params p; auto list = genValid(s, p, 4, false);
    auto set = [&](const std::string& k, const std::string& v) { for (auto& x : list) if (x.first == k) { x.second = v; return; } list.emplace_back(k, v); };
    set("nkr", "0");
    Scratch dir; Outcome o;
    switch (s.raw(3)) {
        case 0: {
            set("file", "no/such/graph"); if (s.chance(1, 2)) { set("edge", "1"); set("coord", "0"); } else { set("coord", "1"); set("edge", "0"); }
            const auto args = shuffled(s, list); c.describe("genhrg " + join(args)); c.label("unwritable");
            o = runTool(dir, cliPath("genhrg", "rel"), args, 4); rejected(o, dir, c, "genhrg " + join(args), false); break; }
        case 1: {
            const std::vector<std::string> args = s.chance(1, 3) ? std::vector<std::string>{} : std::vector<std::string>{s.pick<const char*>({"--help", "-help", "--version"})};
            c.describe("genhrg " + join(args)); c.label("help, version");
            o = runTool(dir, cliPath("genhrg", "rel"), args, 4);
            if (!o.ok() || (o.out + o.err).empty()) c.fail(cat("genhrg ", join(args), ": ", o.text())); if (!dir.files().empty()) c.fail("a file is written"); break; }
        default: {
            set("file", "g"); set("edge", "1"); set("coord", "1");
            for (auto n : {"/g.txt", "/g.hyp"}) { std::ofstream f(dir.work() + n); for (int i = 0; i < 200000; ++i) f << "7 8\n"; }
            const auto args = shuffled(s, list); c.describe("genhrg " + join(args)); c.label("replaced");
            o = runTool(dir, cliPath("genhrg", "rel"), args, 8); if (!o.ok()) c.fail(cat("genhrg ", join(args), ": ", o.text()));
            auto e = readEdgeList(dir.work() + "/g.txt", p.n, c); canonical(e, p.n, c, "the edge list");
            if (slurp(dir.work() + "/g.hyp").find("7 8\n") != std::string::npos) c.fail("the coordinate file contains text of an older file"); break; }
    }
    c.nontrivial();
}

} // namespace

pbt::Property pbt::define() {
    return {"H10",
        "A case is a parameter list for genhrg in random order with random parameters omitted (defaults), numbers in fixed or scientific notation, thread count up to OMP_NUM_THREADS, seeds up to INT_MAX, both radius formulas, output flags; the tool runs in an empty scratch directory, its edge list is compared with what the library generates in this process and every coordinate must read back within 1e-17. Invalid lists have one parameter outside its documented range (borders, next doubles, infinities, not a number, n without a possible degree) and must end with a message, a non-zero exit status and no file. Non-trivial: the graph has an edge, or the list is invalid.",
        {"C locale", "degrees between n-1 and n are not judged"}, {{"valid", 3000, 30000, valid}, {"invalid", 4000, 30000, invalid}, {"files", 300, 3000, files}}, [] { hrg("rel"); }};
}
