#include "engine.h"

#include <atomic>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

uint64_t* Source::sink = nullptr;
size_t Source::sinkCapacity = 0;
char* Case::descSink = nullptr;

std::string fmt(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }

namespace {

using Clock = std::chrono::steady_clock;
double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }

uint64_t fnv(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
uint64_t fnv(const std::vector<uint64_t>& v) { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; }

std::string jsonStr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

enum class Kind { Pass, Skip, Fail, Crash, Hang, Killed };
const char* kindName(Kind k) { switch (k) { case Kind::Pass: return "pass"; case Kind::Skip: return "skip"; case Kind::Fail: return "fail";
    case Kind::Crash: return "crash"; case Kind::Hang: return "hang"; default: return "killed"; } }

struct Outcome { Kind kind = Kind::Pass; std::string message, description; std::vector<uint64_t> choices; };

bool g_thorough = false;
double hangLimit(const Sub& sub) { return sub.hang_s * (g_thorough ? 1 : 0.7); }
bool isFailure(const Outcome& o, const Sub& sub) { return o.kind == Kind::Fail || o.kind == Kind::Crash || (o.kind == Kind::Hang && sub.hang_is_violation); }

// ---- running one case in this process ----
struct Result { Kind kind; std::string message; Case c; std::vector<uint64_t> choices; };

Result runHere(const Sub& sub, Source& src, bool thorough, bool replaying) {
    Result r{Kind::Pass, "", {}, {}};
    r.c.thorough = thorough; r.c.replaying = replaying;
    try { sub.fn(src, r.c); }
    catch (const Failure& f) { r.kind = Kind::Fail; r.message = f.what(); }
    catch (const Skip&) { r.kind = Kind::Skip; }
    catch (const std::exception& e) { r.kind = Kind::Fail; r.message = std::string("unexpected exception: ") + e.what(); }
    catch (const char* e) { r.kind = Kind::Fail; r.message = std::string("unexpected exception: ") + e; }
    catch (...) { r.kind = Kind::Fail; r.message = "unexpected exception of unknown type"; }
    r.choices = src.choices();
    return r;
}

uint64_t caseSeed(uint64_t seed, const std::string& prop, const std::string& sub, uint64_t idx) {
    return mix64(mix64(seed ^ fnv(prop)) ^ mix64(fnv(sub) + idx * 0x9E3779B97F4A7C15ull));
}

// ---- message framing over pipes ----
void writeAll(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { auto k = write(fd, s.data() + o, s.size() - o); if (k < 0) { if (errno == EINTR) continue; _exit(3); } o += size_t(k); } }
void put(std::string& b, uint64_t v) { b.append(reinterpret_cast<const char*>(&v), 8); }
void put(std::string& b, const std::string& s) { put(b, s.size()); b += s; }
struct Reader { const std::string& b; size_t o = 0;
    uint64_t u() { uint64_t v = 0; if (o + 8 <= b.size()) memcpy(&v, b.data() + o, 8); o += 8; return v; }
    std::string s() { auto n = u(); if (o > b.size()) return ""; auto r = b.substr(o, n); o += n; return r; } };

double cpuSeconds(pid_t pid) { // of a child this engine started
    std::ifstream f("/proc/" + std::to_string(pid) + "/stat");
    std::string line; std::getline(f, line);
    auto p = line.rfind(')'); if (p == std::string::npos) return 0;
    std::istringstream in(line.substr(p + 2)); std::string tok; double ut = 0, st = 0;
    for (int i = 0; i < 13 && in >> tok; ++i) { if (i == 11) ut = atof(tok.c_str()); if (i == 12) st = atof(tok.c_str()); }
    return (ut + st) / double(sysconf(_SC_CLK_TCK));
}

void redirect(const std::string& path) {
    int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}
std::string tail(const std::string& path, size_t n = 1500) {
    std::ifstream f(path); std::stringstream s; s << f.rdbuf(); auto t = s.str();
    // sanitizer reports carry what matters at the start, assertions at the end: keep both
    if (t.size() > 2 * n) t = t.substr(0, n) + " ... " + t.substr(t.size() - n);
    return t;
}
std::string statusText(int status) {
    if (WIFSIGNALED(status)) return cat("signal ", WTERMSIG(status), " (", strsignal(WTERMSIG(status)), ")");
    return cat("exit status ", WEXITSTATUS(status));
}

struct Slot { std::atomic<uint64_t> task; std::atomic<double> start; };
struct Shared { std::atomic<uint64_t> next; std::atomic<int> stop; Slot slots[64]; };

std::string g_tmp;
int g_jobs = 8;
bool g_replaying = false;

void limitCore() { rlimit r{0, 0}; setrlimit(RLIMIT_CORE, &r); }

// ---- isolated execution of given choice sequences (replay and shrinking) ----
std::vector<Outcome> runBatch(const Sub& sub, const std::vector<std::vector<uint64_t>>& inputs, const std::vector<uint64_t>* seeds = nullptr) {
    struct Child { pid_t pid; int fd; size_t idx; double start; double cpu0; std::string buf; uint64_t* shm; std::string log; };
    const size_t n = seeds ? seeds->size() : inputs.size();
    std::vector<Outcome> out(n);
    const size_t cap = 1u << 20;
    size_t next = 0; std::vector<Child> live;
    const size_t par = std::max<size_t>(1, size_t(g_jobs / sub.cores));
    while (next < n || !live.empty()) {
        while (next < n && live.size() < par) {
            int p[2]; if (pipe(p)) { perror("pipe"); exit(2); }
            auto* shm = static_cast<uint64_t*>(mmap(nullptr, cap * 8 + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (shm == MAP_FAILED) { perror("mmap"); exit(2); }
            static int serial = 0;
            std::string log = g_tmp + "/iso" + std::to_string(serial++ % 64) + ".log";
            fflush(nullptr);
            pid_t pid = fork();
            if (pid < 0) { perror("fork"); exit(2); }
            if (!pid) {
                setpgid(0, 0); limitCore(); close(p[0]); redirect(log);
                Source::sink = shm; Source::sinkCapacity = cap; Case::descSink = reinterpret_cast<char*>(shm + cap); Case::descSink[0] = 0;
                Source src = seeds ? Source((*seeds)[next]) : Source(inputs[next]);
                auto r = runHere(sub, src, g_thorough, g_replaying);
                std::string m; put(m, uint64_t(r.kind)); put(m, r.message); put(m, r.c.m_description);
                put(m, r.choices.size()); for (auto c : r.choices) put(m, c);
                std::string framed; put(framed, m); writeAll(p[1], framed); _exit(0);
            }
            setpgid(pid, pid); close(p[1]);
            live.push_back({pid, p[0], next, now(), 0, "", shm, log});
            ++next;
        }
        std::vector<pollfd> fds; for (auto& c : live) fds.push_back({c.fd, POLLIN, 0});
        poll(fds.data(), fds.size(), 500);
        for (size_t i = 0; i < live.size();) {
            auto& c = live[i]; bool done = false; auto& o = out[c.idx];
            if (i < fds.size() && fds[i].revents) {
                char b[65536]; auto k = read(c.fd, b, sizeof b);
                if (k > 0) c.buf.append(b, size_t(k));
                else if (k == 0) {
                    int st = 0; waitpid(c.pid, &st, 0); done = true;
                    if (c.buf.size() >= 8) {
                        Reader rd{c.buf}; rd.u(); o.kind = Kind(rd.u()); o.message = rd.s(); o.description = rd.s();
                        auto m = rd.u(); for (uint64_t j = 0; j < m; ++j) o.choices.push_back(rd.u());
                    } else {
                        o.kind = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? Kind::Killed : Kind::Crash;
                        o.message = "crash: " + statusText(st) + "; output: " + tail(c.log);
                    }
                }
            }
            if (!done) {
                const double wall = now() - c.start;
                bool idle = wall > sub.hang_idle_s && cpuSeconds(c.pid) < 0.02 * wall;
                if (idle || wall > hangLimit(sub)) {
                    kill(-c.pid, SIGKILL); kill(c.pid, SIGKILL); waitpid(c.pid, nullptr, 0); done = true;
                    o.kind = Kind::Hang; o.message = cat("no progress: the call did not return within ", int(wall), " s", idle ? " and no thread was running" : "");
                }
            }
            if (done) {
                if (o.kind == Kind::Crash || o.kind == Kind::Hang || o.kind == Kind::Killed) {
                    auto m = std::min<uint64_t>(c.shm[0], cap - 1);
                    o.choices.assign(c.shm + 1, c.shm + 1 + m);
                    o.description = reinterpret_cast<const char*>(c.shm + cap);
                }
                munmap(c.shm, cap * 8 + 4096); close(c.fd);
                live.erase(live.begin() + long(i)); fds.erase(fds.begin() + long(i));
            } else ++i;
        }
    }
    return out;
}

bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; }

std::pair<std::vector<uint64_t>, int> shrink(const Sub& sub, std::vector<uint64_t> cur, Outcome& best, double budget) {
    const double end = now() + budget; int accepted = 0, tried = 0;
    std::unordered_set<uint64_t> seen; seen.insert(fnv(cur));
    auto attempt = [&](std::vector<std::vector<uint64_t>> cands) -> bool {
        cands.erase(std::remove_if(cands.begin(), cands.end(), [&](const std::vector<uint64_t>& c) { return !simpler(c, cur) || !seen.insert(fnv(c)).second; }), cands.end());
        if (cands.empty() || now() > end) return false;
        tried += int(cands.size());
        auto outs = runBatch(sub, cands);
        for (auto& o : outs) if (isFailure(o, sub) && (o.kind == Kind::Hang) == (best.kind == Kind::Hang) && simpler(o.choices, cur)) { cur = o.choices; best = o; ++accepted; return true; }
        return false;
    };
    const size_t W = std::max<size_t>(1, size_t(g_jobs / sub.cores));
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1 && now() < end; len /= 2) { // delete blocks
            size_t at = 0;
            while (at < cur.size() && now() < end) {
                std::vector<std::vector<uint64_t>> cands; size_t a = at;
                for (size_t k = 0; k < W && a < cur.size(); ++k, a += len) {
                    auto c = cur; c.erase(c.begin() + long(a), c.begin() + long(std::min(cur.size(), a + len))); cands.push_back(c);
                    if (a > 0 && cur[a - 1] > 0) { auto e = c; e[a - 1]--; cands.push_back(e); } // a length prefix goes down with its element
                }
                if (attempt(cands)) progress = true; else at = a;
            }
            if (len == 1) break;
        }
        for (size_t len = std::max<size_t>(1, cur.size() / 4); len >= 1 && now() < end; len /= 2) { // zero blocks
            for (size_t at = 0; at < cur.size() && now() < end;) {
                std::vector<std::vector<uint64_t>> cands; size_t a = at;
                for (size_t k = 0; k < W && a < cur.size(); ++k, a += len) { auto c = cur; std::fill(c.begin() + long(a), c.begin() + long(std::min(cur.size(), a + len)), 0); cands.push_back(c); }
                if (attempt(cands)) progress = true; else at = a;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < cur.size() && now() < end; ++i) { // lower single values
            while (i < cur.size() && cur[i] > 0 && now() < end) {
                std::vector<std::vector<uint64_t>> cands;
                std::set<uint64_t> vals; const auto v = cur[i];
                for (int sft = 1; sft < 60 && cands.size() < W; sft = sft < 4 ? sft + 1 : sft * 2) vals.insert(v >> sft);
                vals.insert(v - 1); if (v > 2) vals.insert(v - v / 4 - 1);
                for (auto x : vals) { auto c = cur; c[i] = x; cands.push_back(c); }
                if (attempt(cands)) progress = true; else break;
            }
        }
    }
    return {cur, tried};
}

std::string readFile(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

struct SubStats { std::string name; uint64_t planned = 0, ran = 0, skipped = 0, killed = 0; std::map<std::string, uint64_t> labels; std::map<std::string, double> counts; double wall = 0; };

} // namespace

int main(int argc, char** argv) {
    signal(SIGPIPE, SIG_IGN);
    std::string evidence, replay, replayDir = "/tmp", only; uint64_t seed = 1; double budget = 300; double shrinkBudget = 60; double scale = 1; long long onlyCase = -1; bool noFork = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--evidence") evidence = val(); else if (a == "--replay") replay = val(); else if (a == "--replay-dir") replayDir = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10); else if (a == "--tier") g_thorough = val() == "thorough";
        else if (a == "--tmp") g_tmp = val(); else if (a == "--jobs") g_jobs = std::max(1, atoi(val().c_str())); else if (a == "--budget") budget = atof(val().c_str());
        else if (a == "--only") only = val(); else if (a == "--scale") scale = atof(val().c_str()); else if (a == "--shrink") shrinkBudget = atof(val().c_str());
        else if (a == "--case") onlyCase = atoll(val().c_str()); else if (a == "--no-fork") noFork = true;
        else { std::cerr << "unknown argument " << a << "\n"; return 2; }
    }
    if (g_tmp.empty()) g_tmp = "/tmp";
    auto prop = define();
    if (prop.init) prop.init();

    if (noFork) { // debugging aid: run one case in this process
        for (auto& s : prop.subs) if (s.name == only) {
            Source src(caseSeed(seed, prop.id, s.name, uint64_t(std::max(0ll, onlyCase))));
            auto r = runHere(s, src, g_thorough, true);
            std::cout << kindName(r.kind) << ": " << r.message << "\n" << r.c.m_description << "\n";
        }
        return 0;
    }

    if (!replay.empty()) {
        std::istringstream in(readFile(replay)); std::string line, subName; std::vector<uint64_t> choices; bool data = false;
        while (std::getline(in, line)) {
            if (line.rfind("sub: ", 0) == 0) subName = line.substr(5);
            else if (line.rfind("choices:", 0) == 0) { data = true; std::istringstream l(line.substr(8)); uint64_t v; while (l >> v) choices.push_back(v); }
            else if (line.rfind("tier: thorough", 0) == 0) g_thorough = true;
        }
        if (!data) { std::cerr << "no choices in " << replay << "\n"; return 2; }
        g_replaying = true;
        for (auto& s : prop.subs) if (s.name == subName) {
            auto o = runBatch(s, {choices})[0];
            std::cout << "replay of " << prop.id << "/" << subName << ": " << kindName(o.kind) << "\n" << o.message << "\n" << o.description << "\n";
            if (isFailure(o, s)) { std::cout << "VIOLATION property=" << prop.id << " replay=" << replay << std::endl; return 1; }
            return o.kind == Kind::Killed || o.kind == Kind::Hang ? 2 : 0;
        }
        std::cerr << "no sub-check " << subName << "\n"; return 2;
    }

    const double t0 = now(), deadline = t0 + budget;
    auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }

    uint64_t evaluations = 0, skipped = 0; std::unordered_set<uint64_t> nontrivial, distinct; std::vector<std::string> samples; std::vector<SubStats> stats;
    struct Found { size_t sub; uint64_t idx; Kind kind; std::string msg; };
    std::vector<Found> found;

    for (size_t si = 0; si < prop.subs.size(); ++si) {
        auto& sub = prop.subs[si];
        SubStats st; st.name = sub.name;
        if ((!only.empty() && only != sub.name) || !found.empty()) { stats.push_back(st); continue; }
        const double subStart = now();
        const double subDeadline = only.empty() ? subStart + (deadline - subStart) / double(prop.subs.size() - si) : deadline;
        const auto count = uint64_t(std::max(1.0, std::ceil(double(g_thorough ? sub.thorough : sub.quick) * scale)));
        st.planned = count;
        sh->next = 0; sh->stop = 0;
        const size_t W = std::max<size_t>(1, std::min<size_t>(size_t(g_jobs / sub.cores), count));
        struct Worker { pid_t pid; int fd; std::string buf; std::string log; bool alive; };
        std::vector<Worker> ws(W);
        uint64_t subSamples = 0;
        auto spawn = [&](size_t w) {
            int p[2]; if (pipe(p)) { perror("pipe"); exit(2); }
            sh->slots[w].task = UINT64_MAX; sh->slots[w].start = now();
            ws[w].log = g_tmp + "/worker" + std::to_string(w) + ".log";
            fflush(nullptr);
            pid_t pid = fork();
            if (pid < 0) { perror("fork"); exit(2); }
            if (!pid) {
                setpgid(0, 0); limitCore(); close(p[0]); for (auto& o : ws) if (o.alive && o.fd >= 0) close(o.fd);
                redirect(ws[w].log);
                while (!sh->stop) {
                    if (now() > subDeadline) break;
                    auto t = sh->next.fetch_add(1); if (t >= count) break;
                    if (onlyCase >= 0) { if (t) break; t = uint64_t(onlyCase); }
                    sh->slots[w].start = now(); sh->slots[w].task = t;
                    if (ftruncate(2, 0)) {}
                    Source src(caseSeed(seed, prop.id, sub.name, t));
                    auto r = runHere(sub, src, g_thorough, false);
                    std::string m; put(m, uint64_t(r.kind)); put(m, t); put(m, r.c.m_nontrivial); put(m, fnv(r.choices)); put(m, r.message);
                    put(m, t < 8 || r.kind == Kind::Fail ? r.c.m_description : std::string());
                    put(m, r.c.m_labels.size()); for (auto& l : r.c.m_labels) { put(m, l.first); put(m, l.second); }
                    put(m, r.c.m_counts.size()); for (auto& l : r.c.m_counts) { put(m, l.first); uint64_t v; memcpy(&v, &l.second, 8); put(m, v); }
                    std::string framed; put(framed, m); writeAll(p[1], framed);
                    sh->slots[w].task = UINT64_MAX; sh->slots[w].start = now();
                }
                _exit(0);
            }
            setpgid(pid, pid); close(p[1]); ws[w].pid = pid; ws[w].fd = p[0]; ws[w].buf.clear(); ws[w].alive = true;
        };
        for (auto& w : ws) { w.alive = false; w.fd = -1; }
        for (size_t w = 0; w < W; ++w) spawn(w);
        size_t alive = W;
        while (alive) {
            std::vector<pollfd> fds; std::vector<size_t> who;
            for (size_t w = 0; w < W; ++w) if (ws[w].alive) { fds.push_back({ws[w].fd, POLLIN, 0}); who.push_back(w); }
            poll(fds.data(), fds.size(), 1000);
            for (size_t k = 0; k < who.size(); ++k) {
                auto w = who[k]; auto& W_ = ws[w];
                if (fds[k].revents) {
                    char b[1 << 16]; auto got = read(W_.fd, b, sizeof b);
                    if (got > 0) {
                        W_.buf.append(b, size_t(got));
                        while (W_.buf.size() >= 8) {
                            uint64_t len; memcpy(&len, W_.buf.data(), 8);
                            if (W_.buf.size() < 8 + len) break;
                            std::string m = W_.buf.substr(8, len); W_.buf.erase(0, 8 + len);
                            Reader rd{m}; auto kind = Kind(rd.u()); auto idx = rd.u(); bool nt = rd.u(); auto hash = rd.u(); auto msg = rd.s(); auto desc = rd.s();
                            auto nl = rd.u(); for (uint64_t i = 0; i < nl; ++i) { auto key = rd.s(); st.labels[key] += rd.u(); }
                            auto nc = rd.u(); for (uint64_t i = 0; i < nc; ++i) { auto key = rd.s(); uint64_t v = rd.u(); double d; memcpy(&d, &v, 8); st.counts[key] += d; }
                            if (kind == Kind::Skip) { ++st.skipped; ++skipped; continue; }
                            ++st.ran; ++evaluations; hash ^= mix64(si + 1); distinct.insert(hash); if (nt) nontrivial.insert(hash);
                            if (!desc.empty() && subSamples < 3 && nt) { ++subSamples; samples.push_back(sub.name + " #" + std::to_string(idx) + ": " + desc.substr(0, 600)); }
                            if (kind == Kind::Fail) { found.push_back({si, idx, kind, msg}); sh->stop = 1; }
                        }
                    } else if (got == 0) {
                        int status = 0; waitpid(W_.pid, &status, 0); close(W_.fd); W_.alive = false; --alive;
                        const auto task = sh->slots[w].task.load();
                        if (task != UINT64_MAX) {
                            if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) ++st.killed;
                            else { ++st.ran; ++evaluations; found.push_back({si, task, Kind::Crash, "crash: " + statusText(status) + "; output: " + tail(W_.log)}); sh->stop = 1; }
                            if (!sh->stop && sh->next < count) { spawn(w); ++alive; }
                        } else if (status != 0) { std::cerr << "worker ended with " << statusText(status) << " between cases: " << tail(W_.log) << "\n"; return 2; }
                        continue;
                    }
                }
                const auto task = sh->slots[w].task.load();
                if (W_.alive && task != UINT64_MAX) {
                    const double wall = now() - sh->slots[w].start;
                    static std::map<std::pair<pid_t, uint64_t>, std::pair<double, double>> cpu0; // (time, cpu) at first look
                    bool idle = false;
                    if (wall > 2) {
                        auto key = std::make_pair(W_.pid, task); auto it = cpu0.find(key);
                        if (it == cpu0.end()) cpu0[key] = {now(), cpuSeconds(W_.pid)};
                        else if (now() - it->second.first > sub.hang_idle_s) idle = cpuSeconds(W_.pid) - it->second.second < 0.02 * (now() - it->second.first);
                    }
                    if (idle || wall > hangLimit(sub) || (sh->stop && wall > 20)) {
                        const bool real = idle || wall > hangLimit(sub);
                        kill(-W_.pid, SIGKILL); kill(W_.pid, SIGKILL); waitpid(W_.pid, nullptr, 0); close(W_.fd); W_.alive = false; --alive;
                        if (real) {
                            if (sub.hang_is_violation) { ++st.ran; ++evaluations; found.push_back({si, task, Kind::Hang, cat("no progress: the call did not return within ", int(wall), " s", idle ? " and no thread was running" : "")}); sh->stop = 1; }
                            else ++st.killed;
                            if (!sh->stop && sh->next < count) { spawn(w); ++alive; }
                        }
                    }
                }
            }
        }
        st.wall = now() - subStart;
        stats.push_back(st);
        std::cerr << "[" << prop.id << "] " << sub.name << ": " << st.ran << "/" << st.planned << " cases, " << st.skipped << " skipped" << (st.killed ? cat(", ", st.killed, " killed") : "") << ", " << int(st.wall * 10) / 10.0 << " s";
        for (auto& l : st.labels) std::cerr << "  " << l.first << "=" << l.second;
        for (auto& l : st.counts) { char b[40]; snprintf(b, sizeof b, "%.6g", l.second); std::cerr << "  " << l.first << "=" << b; }
        std::cerr << "\n";
    }

    // ---- confirm, shrink, write the replay file ----
    int exitCode = 0; std::vector<std::string> unconfirmed; uint64_t violations = 0;
    std::sort(found.begin(), found.end(), [](const Found& a, const Found& b) { return std::make_tuple(int(a.kind == Kind::Hang), a.sub, a.idx) < std::make_tuple(int(b.kind == Kind::Hang), b.sub, b.idx); });
    for (size_t fi = 0; fi < found.size() && fi < 5 && exitCode == 0; ++fi) {
        auto& f = found[fi]; const auto& sub = prop.subs[f.sub];
        std::cerr << "[" << prop.id << "] " << sub.name << " case " << f.idx << " " << kindName(f.kind) << ": " << f.msg << "\n";
        std::vector<uint64_t> seeds(3, caseSeed(seed, prop.id, sub.name, f.idx));
        g_replaying = true;
        auto outs = runBatch(sub, {}, &seeds);
        int again = 0; Outcome best;
        for (auto& o : outs) if (isFailure(o, sub)) { if (!again) best = o; ++again; }
        if (!again) { // schedule dependent? give it more attempts before calling it unconfirmed
            seeds.assign(12, seeds[0]); outs = runBatch(sub, {}, &seeds);
            for (auto& o : outs) if (isFailure(o, sub)) { if (!again) best = o; ++again; }
        }
        if (!again) { unconfirmed.push_back(sub.name + " #" + std::to_string(f.idx) + ": " + f.msg); std::cerr << "  did not happen again in 15 replays; not reported\n"; continue; }
        auto choices = best.choices; int tried = 0;
        if (again == int(outs.size()) && best.kind != Kind::Hang) { // only shrink what replays every time
            auto s = shrink(sub, choices, best, shrinkBudget); choices = s.first; tried = s.second;
        }
        // final confirmation of what goes into the replay file
        auto fin = best.kind == Kind::Hang ? outs : runBatch(sub, {choices, choices, choices}); int finFail = 0; // waiting once more for what does not end shows nothing new
        for (auto& o : fin) if (isFailure(o, sub)) { if (!finFail) best = o; ++finFail; }
        if (!finFail) { choices = outs[0].choices; }
        mkdir(replayDir.c_str(), 0755);
        char name[64]; snprintf(name, sizeof name, "%016llx", static_cast<unsigned long long>(fnv(choices)));
        const std::string path = replayDir + "/" + prop.id + "-" + sub.name + "-" + name + ".replay";
        std::ofstream o(path);
        o << "property: " << prop.id << "\nsub: " << sub.name << "\ntier: " << (g_thorough ? "thorough" : "quick") << "\nfound-with: seed " << seed << " case " << f.idx
          << "\nkind: " << kindName(best.kind) << "\nreplays-failed: " << again << "/" << outs.size() << ", after shrinking " << finFail << "/3 (" << tried << " candidates tried)"
          << "\ncase: " << best.description << "\nmessage: " << best.message << "\nchoices:";
        for (auto c : choices) o << ' ' << c;
        o << "\n"; o.close();
        std::cout << "property " << prop.id << ", sub-check " << sub.name << ": " << best.message.substr(0, 1500) << "\n  case: " << best.description.substr(0, 1500) << "\n";
        std::cout << "VIOLATION property=" << prop.id << " replay=" << path << std::endl;
        exitCode = 1; ++violations;
    }

    if (!evidence.empty()) {
        std::ofstream o(evidence);
        o << "{\"evaluations\": " << evaluations << ", \"distinct\": " << distinct.size() << ", \"distinct_nontrivial\": " << nontrivial.size() << ", \"outside_domain\": " << skipped
          << ", \"violations\": " << violations << ", \"wall_s\": " << fmt(now() - t0) << ", \"rule\": " << jsonStr(prop.rule) << ",\n \"assumptions\": [";
        for (size_t i = 0; i < prop.assumptions.size(); ++i) o << (i ? ", " : "") << jsonStr(prop.assumptions[i]);
        o << "],\n \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i) o << (i ? ",\n  " : "") << jsonStr(samples[i]);
        o << "],\n \"unconfirmed\": [";
        for (size_t i = 0; i < unconfirmed.size(); ++i) o << (i ? ", " : "") << jsonStr(unconfirmed[i].substr(0, 400));
        o << "],\n \"sub_checks\": [";
        for (size_t i = 0; i < stats.size(); ++i) {
            auto& s = stats[i];
            o << (i ? ",\n  " : "") << "{\"name\": " << jsonStr(s.name) << ", \"planned\": " << s.planned << ", \"ran\": " << s.ran << ", \"outside_domain\": " << s.skipped << ", \"killed\": " << s.killed << ", \"wall_s\": " << fmt(s.wall) << ", \"classes\": {";
            bool first = true; for (auto& l : s.labels) { o << (first ? "" : ", ") << jsonStr(l.first) << ": " << l.second; first = false; }
            o << "}, \"measured\": {"; first = true; for (auto& l : s.counts) { o << (first ? "" : ", ") << jsonStr(l.first) << ": " << (std::isfinite(l.second) ? fmt(l.second) : std::string("\"not finite\"")); first = false; }
            o << "}}";
        }
        o << "]}\n";
    }
    if (!evaluations) { std::cerr << "no case was evaluated\n"; return exitCode ? exitCode : 2; }
    return exitCode;
}

} // namespace pbt

int main(int argc, char** argv) { return pbt::main(argc, argv); }
