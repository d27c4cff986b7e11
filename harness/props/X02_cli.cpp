// PLUGIN girg rel
// PLUGIN hrg rel
// CLI gengirg asan dbg
// CLI gengirg asanrel rel
// CLI genhrg asan dbg
// CLI genhrg asanrel rel
// SOURCE x02/G11.cpp
// SOURCE x02/H10.cpp
#include "x02/run.h"
#include <dirent.h>
#include <unistd.h>
#include <cstdlib>
#include <fstream>

namespace {

std::string prefix() { return pbt::cat("san.", getpid(), "."); }
std::string folder() { const char* t = getenv("TMPDIR"); return t ? t : "/tmp"; }

/// reports of the tools go to files named after this process
void setUp() {
    const auto log = folder() + "/" + prefix().substr(0, prefix().size() - 1);
    setenv("ASAN_OPTIONS", ("detect_leaks=0:detect_stack_use_after_return=1:max_malloc_fill_size=65536:handle_abort=0:log_path=" + log).c_str(), 1);
    setenv("UBSAN_OPTIONS", ("print_stacktrace=1:log_path=" + log).c_str(), 1);
}
void collect(pbt::Case& c) {
    std::string found; std::vector<std::string> names;
    if (DIR* h = opendir(folder().c_str())) {
        while (auto e = readdir(h)) { const std::string n = e->d_name; if (n.compare(0, prefix().size(), prefix()) == 0) names.push_back(folder() + "/" + n); }
        closedir(h);
    }
    for (auto& n : names) { std::ifstream f(n); std::string t((std::istreambuf_iterator<char>(f)), {}); if (!t.empty() && found.empty()) found = t; unlink(n.c_str()); }
    if (!found.empty()) c.fail("the tool: " + found.substr(0, 1500));
}
void addTool(std::vector<pbt::Sub>& s, pbt::Property p, const std::string& sub, int quick, int thorough) {
    x02::add(s, p, sub, quick, thorough, collect);
    auto fn = s.back().fn; s.back().fn = [fn](pbt::Source& src, pbt::Case& c) { setUp(); fn(src, c); };
}

} // namespace

pbt::Property pbt::define() {
    std::vector<Sub> s;
    addTool(s, define_G11(), "valid", 200, 6000); addTool(s, define_G11(), "invalid", 300, 6000); addTool(s, define_G11(), "files", 30, 600);
    addTool(s, define_H10(), "valid", 200, 6000); addTool(s, define_H10(), "invalid", 300, 6000); addTool(s, define_H10(), "files", 30, 600);
    return {"X02", "", {}, s, nullptr};
}
