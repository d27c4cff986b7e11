// Runs the command line tools as processes in a scratch directory and reads what they wrote.
#pragma once
#include "gen.h"
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace vp {

inline std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return {std::istreambuf_iterator<char>(f), {}}; }

/// scratch directory of this worker process with an empty subdirectory "w" the tool runs in
class Scratch {
public:
    Scratch() {
        const char* t = getenv("TMPDIR");
        m_dir = cat(t ? t : "/tmp", "/cli", getpid()); mkdir(m_dir.c_str(), 0700); clear(work()); mkdir(work().c_str(), 0700);
    }
    ~Scratch() { clear(work()); unlink((m_dir + "/out").c_str()); unlink((m_dir + "/err").c_str()); rmdir(m_dir.c_str()); }
    std::string work() const { return m_dir + "/w"; }
    std::string file(const std::string& f) const { return m_dir + "/" + f; }
    std::set<std::string> files() const { std::set<std::string> r; list(work(), "", r); return r; }
private:
    static void list(const std::string& d, const std::string& prefix, std::set<std::string>& r) {
        DIR* h = opendir(d.c_str()); if (!h) return;
        while (auto e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat st; if (lstat((d + "/" + n).c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) list(d + "/" + n, prefix + n + "/", r); else r.insert(prefix + n); }
        closedir(h);
    }
    static void clear(const std::string& d) {
        DIR* h = opendir(d.c_str()); if (!h) return;
        std::vector<std::string> names; while (auto e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
        closedir(h);
        for (auto& n : names) { struct stat st; const auto p = d + "/" + n; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) clear(p); else unlink(p.c_str()); }
        rmdir(d.c_str());
    }
    std::string m_dir;
};

struct Outcome { int status = 0; bool exited = false, hung = false; std::string out, err; bool ok() const { return exited && status == 0; } std::string text() const { return hung ? "did not end" : exited ? cat("exit status ", status) : cat("killed by signal ", status); } };

inline Outcome runTool(const Scratch& dir, const std::string& exe, const std::vector<std::string>& args, int ompThreads) {
    std::vector<char*> argv{const_cast<char*>(exe.c_str())}; for (auto& a : args) argv.push_back(const_cast<char*>(a.c_str())); argv.push_back(nullptr);
    const auto out = dir.file("out"), err = dir.file("err"), work = dir.work(), threads = std::to_string(ompThreads);
    const pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("fork failed");
    if (pid == 0) {
        const int null = open("/dev/null", O_RDONLY), o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(null, 0); dup2(o, 1); dup2(e, 2);
        if (chdir(work.c_str())) _exit(99);
        setenv("OMP_NUM_THREADS", threads.c_str(), 1);
        execv(argv[0], argv.data()); _exit(98);
    }
    Outcome r; int st = 0;
    for (int ms = 0;; ms += ms < 50 ? 1 : 5) {
        const pid_t k = waitpid(pid, &st, WNOHANG);
        if (k == pid) break;
        if (ms > 120000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.hung = true; break; }
        timespec ts{0, (ms < 50 ? 1 : 5) * 1000000}; nanosleep(&ts, nullptr);
    }
    r.exited = WIFEXITED(st); r.status = r.exited ? WEXITSTATUS(st) : WTERMSIG(st);
    r.out = slurp(out); r.err = slurp(err);
    return r;
}

inline std::string join(const std::vector<std::string>& a) { std::string r; for (auto& x : a) r += (r.empty() ? "" : " ") + (x.empty() ? std::string("''") : x); return r; }

/// reads "n m" and the edges
inline Edges readEdgeList(const std::string& path, long long n, Case& c) {
    const auto text = slurp(path);
    std::vector<long long> v; const char* p = text.c_str();
    for (;;) {
        while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p;
        if (!*p) break;
        char* e; errno = 0; const auto x = strtoll(p, &e, 10);
        if (e == p || errno || (*e && !strchr(" \n\t\r", *e))) c.fail(cat("edge list: unexpected text \"", std::string(p).substr(0, 20), "\""));
        v.push_back(x); p = e;
    }
    if (v.size() < 2) c.fail("edge list without a header");
    if (v[0] != n) c.fail(cat("the header of the edge list says ", v[0], " vertices instead of ", n));
    if ((long long)v.size() != 2 + 2 * v[1]) c.fail(cat("the header of the edge list says ", v[1], " edges, the file has ", (double(v.size()) - 2) / 2));
    Edges r; for (size_t i = 2; i < v.size(); i += 2) { if (v[i] < 0 || v[i] >= n || v[i + 1] < 0 || v[i + 1] >= n) c.fail(cat("edge list: id outside 0..", n - 1)); r.emplace_back(int(v[i]), int(v[i + 1])); }
    return r;
}

inline void sameGraph(const Edges& file, const Edges& lib, int n, Case& c, const std::string& what) {
    const auto a = canonical(file, n, c, what); auto b = sortedCopy(lib);
    if (a == b) return;
    Edges x, y; std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(x)); std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(y));
    c.fail(cat(what, " has ", a.size(), " edges, the library generates ", b.size(), " for these parameters", x.empty() ? "" : "; missing " + edgeText(x[0]), y.empty() ? "" : "; not generated " + edgeText(y[0])));
}

/// decimal notation that reads back as x
inline std::string num(Source& s, double x) {
    if (std::isinf(x)) return s.pick<const char*>({"inf", "infinity", "INF"});
    char b[64]; snprintf(b, sizeof b, s.chance(1, 3) ? "%.17e" : "%.17g", x); return b;
}

/// parameters in random order
inline std::vector<std::string> shuffled(Source& s, std::vector<std::pair<std::string, std::string>> p) {
    for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[size_t(s.raw(i))]);
    std::vector<std::string> r; for (auto& x : p) { r.push_back("-" + x.first); r.push_back(x.second); }
    return r;
}

inline void rejected(const Outcome& o, const Scratch& dir, Case& c, const std::string& args, bool plainExit) {
    if (o.hung) c.fail("the program did not end within two minutes: " + args);
    if (o.ok()) c.fail("the program accepts " + args);
    if (plainExit && !o.exited) c.fail(cat("the program crashes (", o.text(), ") instead of reporting the parameter: ", args));
    if (o.err.empty() && o.out.find("ERROR") == std::string::npos) c.fail("the program ends without a message: " + args);
    const auto f = dir.files();
    if (!f.empty()) c.fail("the program fails but leaves the file " + *f.begin());
}

} // namespace vp
