// PLUGIN girg rel dbg
#include "gen.h"
#include <cstdio>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace vp;

namespace {

/// tokens of the dot language: identifiers and numbers, strings, punctuation
struct Token { char kind; std::string text; }; // i identifier/number, s string, p punctuation, e end
struct Lexer {
    const std::string& t; size_t at = 0; Case& c;
    Lexer(const std::string& text, Case& cs) : t(text), c(cs) {}
    Token next() {
        for (;;) {
            while (at < t.size() && std::isspace((unsigned char)t[at])) ++at;
            if (at + 1 < t.size() && t[at] == '/' && t[at + 1] == '/') { while (at < t.size() && t[at] != '\n') ++at; continue; }
            if (at < t.size() && t[at] == '#') { while (at < t.size() && t[at] != '\n') ++at; continue; }
            break;
        }
        if (at >= t.size()) return {'e', ""};
        if (t[at] == '"') { const auto b = ++at; while (at < t.size() && t[at] != '"') ++at; if (at >= t.size()) c.fail("unterminated string in the dot file"); return {'s', t.substr(b, at++ - b)}; }
        if (t.compare(at, 2, "--") == 0 || t.compare(at, 2, "->") == 0) { at += 2; return {'p', t.substr(at - 2, 2)}; }
        if (std::isalnum((unsigned char)t[at]) || t[at] == '_' || t[at] == '.' || t[at] == '-') { const auto b = at; ++at; while (at < t.size() && (std::isalnum((unsigned char)t[at]) || t[at] == '_' || t[at] == '.')) ++at; return {'i', t.substr(b, at - b)}; }
        return {'p', std::string(1, t[at++])};
    }
    Token peek() { const auto k = at; auto r = next(); at = k; return r; }
};

struct Dot { std::map<int, std::map<std::string, std::string>> nodes; std::vector<std::pair<int, int>> edges; };

int number(const Token& k, Case& c) {
    if (k.kind == 'p' || k.text.empty() || k.text.find_first_not_of("0123456789") != std::string::npos || k.text.size() > 9) c.fail("vertex id expected in the dot file, found '" + k.text + "'");
    return std::stoi(k.text);
}

Dot parse(const std::string& text, Case& c) {
    Dot r; Lexer l(text, c);
    auto k = l.next(); if (k.text == "strict") k = l.next();
    if (k.text != "graph") c.fail("the dot file does not start with 'graph' but '" + k.text + "'");
    k = l.next(); if (k.text != "{") k = l.next();
    if (k.text != "{") c.fail("'{' expected in the dot file");
    for (;;) {
        k = l.next();
        if (k.kind == 'e') c.fail("the dot file ends without '}'");
        if (k.kind == 'p' && k.text == "}") break;
        if (k.kind == 'p' && k.text == ";") continue;
        if (l.peek().text == "=") { l.next(); l.next(); continue; } // attribute of the graph
        auto attributes = [&](std::map<std::string, std::string>& a) {
            while (l.peek().kind == 'p' && l.peek().text == "[") {
                l.next();
                for (;;) {
                    auto key = l.next(); if (key.kind == 'p' && key.text == "]") break;
                    if (key.kind == 'p' && (key.text == "," || key.text == ";")) continue;
                    if (key.kind != 'i') c.fail("attribute name expected in the dot file, found '" + key.text + "'");
                    if (l.next().text != "=") c.fail("'=' expected in the dot file");
                    auto v = l.next(); if (v.kind != 's' && v.kind != 'i') c.fail("attribute value expected in the dot file");
                    if (a.count(key.text)) c.fail("attribute given twice: " + key.text);
                    a[key.text] = v.text;
                }
            }
        };
        if (k.kind == 'i' && (k.text == "node" || k.text == "edge" || k.text == "graph")) { std::map<std::string, std::string> skip; attributes(skip); continue; }
        const int u = number(k, c);
        if (l.peek().text == "--") {
            l.next(); const int v = number(l.next(), c);
            if (l.peek().text == "--") c.fail("edge chain in the dot file");
            std::map<std::string, std::string> skip; attributes(skip);
            r.edges.emplace_back(u, v);
        } else {
            if (r.nodes.count(u)) c.fail(cat("vertex ", u, " is listed twice"));
            auto& a = r.nodes[u]; attributes(a);
        }
    }
    if (l.next().kind != 'e') c.fail("text after the end of the graph in the dot file");
    return r;
}

std::string fixed(double x, int digits) { char b[400]; snprintf(b, sizeof b, "%.*f", digits, x); return b; }
std::string read(const std::string& p) { std::ifstream f(p, std::ios::binary); return {std::istreambuf_iterator<char>(f), {}}; }

void dot(Source& s, Case& c) {
    static const std::string dir = [] { const char* t = getenv("TMPDIR"); return cat(t ? t : "/tmp", "/dot", getpid()); }();
    mkdir(dir.c_str(), 0700);
    const auto& api = girg(s.chance(1, 2) ? "dbg" : "rel");
    const int d = int(s.range(1, 5)), n = s.chance(1, 4) ? int(s.range(0, 3)) : int(s.logRange(1, 400));
    Rng bulk = s.bulk();
    Vec w; Pos p; Edges g;
    const int wk = int(s.raw(4)), pk = int(s.raw(3)), gk = int(s.raw(4));
    for (int i = 0; i < n; ++i) {
        const double u = bulk.unit();
        w.push_back(wk == 0 ? 1 + u : wk == 1 ? std::exp2(60 * u - 20) : wk == 2 ? double(bulk.below(2000)) / 8 + 0.125 : std::pow(1 - u, -1.5));
        p.emplace_back();
        for (int k = 0; k < d; ++k) { const double x = bulk.unit(); p.back().push_back(pk == 0 ? x : pk == 1 ? double(bulk.below(128)) / 128 : bulk.below(3) == 0 ? 0.0 : bulk.below(2) ? 1 - x * 1e-6 : x * 1e-6); if (p.back().back() >= 1) p.back().back() = std::nextafter(1.0, 0.0); }
    }
    if (n > 1) {
        if (gk == 0) { // a real graph
            api.setThreads(1);
            auto m = *std::min_element(w.begin(), w.end()), sum = std::accumulate(w.begin(), w.end(), 0.0);
            if (std::log2(sum) - 2 * std::log2(m) < 12) g = api.edges(w, p, s.chance(1, 2) ? INF : 2.0, 1);
        } else {
            const auto m = gk == 1 ? bulk.below(4) : bulk.below(uint64_t(3 * n));
            for (uint64_t i = 0; i < m; ++i) { int a = int(bulk.below(uint64_t(n))), b = int(bulk.below(uint64_t(n))); if (gk == 3 || a != b) g.emplace_back(a, b); }
        }
    }
    const std::string file = dir + "/" + s.pick<const char*>({"g.dot", "graph", "with blank.dot", "a.b.c"});
    const int before = int(s.raw(3));
    if (before) { std::ofstream f(file); for (int i = 0; i < (before == 1 ? 3 : 60000); ++i) f << "}graph x { garbage -- " << i << "\n"; } else unlink(file.c_str());
    c.describe(cat("n=", n, " d=", d, " edges=", g.size(), " weights:", wk, " positions:", pk, " file:", before == 0 ? "new" : before == 1 ? "short old one" : "long old one"));
    c.label(before ? "replaces a file" : "new file"); if (g.empty()) c.label("no edges"); if (n == 0) c.label("no vertices");
    const auto err = api.saveDot(w, p, g, file);
    if (!err.empty()) c.fail("saving failed: " + err);
    const auto r = parse(read(file), c);
    unlink(file.c_str());
    if (int(r.nodes.size()) != n) c.fail(cat("the file lists ", r.nodes.size(), " vertices, not ", n));
    for (int i = 0; i < n; ++i) {
        auto it = r.nodes.find(i);
        if (it == r.nodes.end()) c.fail(cat("vertex ", i, " is missing"));
        auto a = it->second;
        if (a["label"] != fixed(w[size_t(i)], 2)) c.fail(cat("vertex ", i, " has label \"", a["label"], "\", its weight is ", w[size_t(i)]));
        std::string pos; for (int k = 0; k < d; ++k) pos += (k ? "," : "") + fixed(p[size_t(i)][size_t(k)], 6);
        auto got = a["pos"]; got.erase(std::remove(got.begin(), got.end(), ' '), got.end());
        if (got != pos) c.fail(cat("vertex ", i, " has pos \"", a["pos"], "\", expected \"", pos, "\""));
    }
    auto x = r.edges; auto y = g; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    if (x != y) {
        Edges lost, extra; std::set_difference(y.begin(), y.end(), x.begin(), x.end(), std::back_inserter(lost)); std::set_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(extra));
        c.fail(cat("the file has ", x.size(), " edges, the graph ", y.size(), lost.empty() ? "" : cat("; missing ", lost[0].first, "--", lost[0].second), extra.empty() ? "" : cat("; not in the graph ", extra[0].first, "--", extra[0].second)));
    }
    c.nontrivial(!g.empty());
}

void unopenable(Source& s, Case& c) {
    const char* t = getenv("TMPDIR"); const std::string dir = cat(t ? t : "/tmp", "/dotbad", getpid());
    mkdir(dir.c_str(), 0700); mkdir((dir + "/sub").c_str(), 0700); { std::ofstream f(dir + "/plain"); f << "x"; }
    const int kind = int(s.raw(5));
    const std::string file = kind == 0 ? dir + "/missing/g.dot" : kind == 1 ? dir + "/sub" : kind == 2 ? dir + "/plain/g.dot" : kind == 3 ? std::string() : dir + "/" + std::string(300, 'x');
    const int n = int(s.range(0, 5)); Vec w(size_t(n), 1.0); Pos p(size_t(n), std::vector<double>(2, 0.5)); Edges g; if (n > 1) g.emplace_back(0, 1);
    c.describe(cat("file=", file.substr(std::min(file.size(), dir.size())), " n=", n));
    const auto err = girg(s.chance(1, 2) ? "dbg" : "rel").saveDot(w, p, g, file);
    if (err.empty()) c.fail("saving to a file that cannot be opened is not reported: " + file);
    if (read(dir + "/plain") != "x") c.fail("another file was changed");
    c.nontrivial();
}

} // namespace

pbt::Property pbt::define() {
    return {"G10",
        "A case is a set of vertices (0..400; weights from 1e-6 to 1e12, with rounding ties; coordinates including 0 and values rounding to 1), a dimension and an edge list (generated graphs, random pairs in any order, repeated pairs, loops, empty); the file is new or replaces a shorter or longer one. It is parsed as dot and compared with what was given. The second sub-check passes names that cannot be opened. Non-trivial: at least one edge.",
        {"C locale"}, {{"round-trip", 60000, 800000, dot}, {"unopenable", 2000, 10000, unopenable}}, [] { girg("rel"); girg("dbg"); }};
}
