// Shared infrastructure of the runtime monitors: seeded workload generator helpers, event counters,
// violation reporting and process isolation (one forked child per batch of cases, so that a sanitizer
// report, an assertion or a crash inside the code under test is attributed to a single replayable case).
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>

extern "C" int __llvm_profile_write_file(void) __attribute__((weak));
namespace vf {
    struct Rng { // splitmix64
        uint64_t s;
        explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
        uint64_t next() {
            uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
            return z ^ (z >> 31);
        }
        int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
        int in(int lo, int hi) { return lo + below(hi - lo + 1); }
        bool chance(int pct) { return below(100) < pct; }
    };

    // One test family: run(rng, case) must throw Violation or call fail() when an observation contradicts the oracle.
    struct Violation : std::exception {
        std::string what_, kind;
        Violation(std::string kind, std::string w) : what_(std::move(w)), kind(std::move(kind)) {}
        const char* what() const noexcept override { return what_.c_str(); }
    };
    [[noreturn]] inline void fail(const std::string& kind, const std::string& detail) { throw Violation(kind, detail); }

    // Event counters; they are what the evidence files report.
    struct Stats {
        std::map<std::string, uint64_t> c;
        std::set<uint64_t> distinct;
        void inc(const std::string& k, uint64_t n = 1) { c[k] += n; }
        void sig(uint64_t h) { distinct.insert(h); }
    };
    inline Stats& stats() { static Stats s; return s; }
    inline uint64_t hash_str(const std::string& s) { // FNV-1a
        uint64_t h = 1469598103934665603ULL;
        for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ULL; }
        return h;
    }
    // A human readable description of the current case, printed when the process dies in it.
    inline std::string& current() { static std::string s; return s; }
    inline bool& replaying() { static bool b = false; return b; }
    inline void describe(const std::string& s) { current() = s; if (replaying()) { std::printf("case: %s\n", s.c_str()); std::fflush(stdout); } }

    struct Family {
        std::string name;
        std::function<void(Rng&, uint64_t)> run;
        int weight = 1; // share of the cases
    };

    inline void write_all(int fd, const std::string& s) {
        size_t off = 0;
        while (off < s.size()) { auto n = ::write(fd, s.data() + off, s.size() - off); if (n <= 0) return; off += (size_t)n; }
    }
    inline int& report_fd() { static int fd = 1; return fd; }
    inline std::string one_line(std::string s) {
        for (auto& ch : s) if (ch == '\n' || ch == '\r' || ch == '\t') ch = ' ';
        if (s.size() > 3000) s = s.substr(0, 3000) + "...";
        return s;
    }
    // Reports (line protocol on stdout, parsed by run.py):
    //   CASE-FAIL \t family \t seed \t index \t kind \t detail
    //   STAT \t key \t value          DISTINCT \t hash          SAMPLE \t text         DONE \t cases
    inline int main_driver(int argc, char** argv, std::vector<Family> families) {
        uint64_t seed = 1, cases = 1000, from = 0, only = UINT64_MAX, batch = 250;
        int case_timeout = 30;
        std::string only_family, replay_case;
        int jobs = 1;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto val = [&]() { return std::string(argv[++i]); };
            if (a == "--seed") seed = std::stoull(val());
            else if (a == "--cases") cases = std::stoull(val());
            else if (a == "--from") from = std::stoull(val());
            else if (a == "--only") only = std::stoull(val());
            else if (a == "--family") only_family = val();
            else if (a == "--batch") batch = std::stoull(val());
            else if (a == "--jobs") jobs = std::stoi(val());
            else if (a == "--timeout") case_timeout = std::stoi(val());
        }
        uint64_t total_w = 0;
        std::vector<Family> fams;
        for (auto& f : families) if (only_family.empty() || ("," + only_family + ",").find("," + f.name + ",") != std::string::npos) { fams.push_back(f); total_w += f.weight; }
        if (fams.empty()) { std::fprintf(stderr, "no such family\n"); return 2; }

        auto run_one = [&](const Family& f, uint64_t idx) {
            Rng rng(seed * 1000003ULL + hash_str(f.name) % 1000000007ULL + idx * 7919ULL);
            f.run(rng, idx);
        };
        if (only != UINT64_MAX) { replaying() = true; // replay in-process, all output visible
            try { run_one(fams[0], only); }
            catch (const Violation& v) { std::printf("CASE-FAIL\t%s\t%llu\t%llu\t%s\t%s\ncase: %s\n", fams[0].name.c_str(), (unsigned long long)seed, (unsigned long long)only, v.kind.c_str(), v.what(), current().c_str()); return 1; }
            catch (const std::exception& e) { std::printf("CASE-FAIL\t%s\t%llu\t%llu\texception\t%s\ncase: %s\n", fams[0].name.c_str(), (unsigned long long)seed, (unsigned long long)only, e.what(), current().c_str()); return 1; }
            std::printf("case passed: %s\n", current().c_str());
            return 0;
        }
        struct Job { const Family* f; uint64_t lo, hi; bool retry = false; };
        std::deque<Job> todo;
        uint64_t total = 0;
        for (auto& f : fams) {
            uint64_t n = std::max<uint64_t>(1, cases * f.weight / total_w);
            for (uint64_t i = from; i < from + n; i += batch) todo.push_back({&f, i, std::min(from + n, i + batch), false});
            total += n;
        }
        struct Running { Job job; int fd; int errfd; std::string errfile; std::string buf; time_t start; std::string last; };
        std::map<pid_t, Running> running;
        uint64_t failures = 0, done_cases = 0, inconclusive = 0;
        std::map<std::string, uint64_t> agg; std::set<uint64_t> distinct; std::vector<std::string> samples;
        char tmpl[] = "/tmp/vfXXXXXX"; std::string dir = mkdtemp(tmpl);
        int serial = 0;
        auto spawn = [&](Job job) {
            int p[2]; if (pipe(p)) { perror("pipe"); exit(2); }
            std::string errfile = dir + "/e" + std::to_string(serial++);
            std::fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                ::close(p[0]);
                report_fd() = p[1];
                int e = ::open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                ::dup2(e, 2);
                int dn = ::open("/dev/null", O_WRONLY); ::dup2(dn, 1);
                std::string out;
                for (uint64_t i = job.lo; i < job.hi; ++i) {
                    write_all(p[1], "B\t" + std::to_string(i) + "\n");
                    itimerval tv{{0, 0}, {case_timeout, 0}}; setitimer(ITIMER_PROF, &tv, nullptr); // CPU time: not affected by machine load
                    alarm(case_timeout * 12);
                    current().clear();
                    try { run_one(*job.f, i); }
                    catch (const Violation& v) { write_all(p[1], "F\t" + std::to_string(i) + "\t" + v.kind + "\t" + one_line(v.what()) + " || case: " + one_line(current()) + "\n"); }
                    catch (const std::exception& ex) { write_all(p[1], "F\t" + std::to_string(i) + "\texception\t" + one_line(ex.what()) + " || case: " + one_line(current()) + "\n"); }
                    if (i == job.lo) write_all(p[1], "X\t" + job.f->name + "#" + std::to_string(i) + ": " + one_line(current()) + "\n");
                }
                for (auto& [k, v] : stats().c) write_all(p[1], "S\t" + k + "\t" + std::to_string(v) + "\n");
                for (auto h : stats().distinct) write_all(p[1], "H\t" + std::to_string(h) + "\n");
                write_all(p[1], "E\n");
                ::close(p[1]);
                if (__llvm_profile_write_file) (void)__llvm_profile_write_file(); // only in coverage builds
                _exit(0);
            }
            ::close(p[1]);
            running[pid] = Running{job, p[0], -1, errfile, "", time(nullptr), ""};
        };
        auto finish = [&](pid_t pid, int status) {
            auto r = std::move(running[pid]); running.erase(pid);
            char b[65536]; ssize_t n;
            while ((n = ::read(r.fd, b, sizeof b)) > 0) r.buf.append(b, (size_t)n);
            ::close(r.fd);
            std::istringstream is(r.buf); std::string line; uint64_t last = r.job.lo; bool ended = false; uint64_t begun = 0;
            while (std::getline(is, line)) {
                if (line.size() < 1) continue;
                if (line[0] == 'B') { last = std::stoull(line.substr(2)); ++begun; }
                else if (line[0] == 'F') {
                    ++failures;
                    auto t1 = line.find('\t', 2); auto t2 = line.find('\t', t1 + 1);
                    std::printf("CASE-FAIL\t%s\t%llu\t%s\t%s\t%s\n", r.job.f->name.c_str(), (unsigned long long)seed, line.substr(2, t1 - 2).c_str(), line.substr(t1 + 1, t2 - t1 - 1).c_str(), line.substr(t2 + 1).c_str());
                } else if (line[0] == 'S') { auto t = line.find('\t', 2); agg[line.substr(2, t - 2)] += std::stoull(line.substr(t + 1)); }
                else if (line[0] == 'H') distinct.insert(std::stoull(line.substr(2)));
                else if (line[0] == 'X') { if (samples.size() < 400) samples.push_back(line.substr(2)); }
                else if (line[0] == 'E') ended = true;
            }
            if (ended && WIFEXITED(status) && WEXITSTATUS(status) == 0) { done_cases += begun; }
            else {
                std::ifstream ef(r.errfile); std::stringstream es; es << ef.rdbuf();
                std::string err = es.str();
                bool cpu_timeout = WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF;
                if (cpu_timeout && !r.job.retry) {
                    todo.push_front({r.job.f, last, last + 1, true}); // run the case once more, alone
                    --begun;
                } else if (cpu_timeout) {
                    failures += 8; // stop early: these are expensive
                    std::printf("CASE-FAIL\t%s\t%llu\t%llu\tnontermination\tthe case used %d s of CPU time, twice\n", r.job.f->name.c_str(), (unsigned long long)seed, (unsigned long long)last, case_timeout);
                } else if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGALRM || WTERMSIG(status) == SIGKILL)) {
                    ++inconclusive;
                    std::printf("INCONCLUSIVE\t%s\t%llu\t%llu\ttimeout\n", r.job.f->name.c_str(), (unsigned long long)seed, (unsigned long long)last);
                } else {
                    ++failures;
                    std::string kind = "crash", detail = "signal/exit status " + std::to_string(status);
                    auto grab = [&](const char* key) { auto p = err.find(key); if (p == std::string::npos) return std::string(); auto e = err.find('\n', p); return err.substr(p, e - p); };
                    std::string s;
                    if (!(s = grab("ERROR: AddressSanitizer")).empty()) { kind = "asan"; detail = s; }
                    else if (!(s = grab("runtime error:")).empty()) { kind = "ubsan"; auto p = err.find("runtime error:"); auto ls = err.rfind('\n', p); ls = ls == std::string::npos ? 0 : ls + 1; detail = err.substr(ls, err.find('\n', p) - ls); }
                    else if (!(s = grab("ThreadSanitizer")).empty()) { kind = "tsan"; detail = s; }
                    else if (err.find("rss limit exhausted") != std::string::npos) { kind = "memory-exhaustion"; detail = "2 GB memory bound exceeded on a tiny input"; }
                    else if (err.find("Assertion `") != std::string::npos) { kind = "assert"; auto p = err.find("Assertion `"); auto ls = err.rfind('\n', p); ls = ls == std::string::npos ? 0 : ls + 1; detail = err.substr(ls, err.find('\n', p) - ls); }
                    else if (err.find("terminate called") != std::string::npos) { kind = "terminate"; detail = err.substr(err.find("terminate called")); }
                    // the frames that matter
                    std::istringstream eis(err); std::string l2; int frames = 0;
                    while (std::getline(eis, l2) && frames < 6) if (l2.find("    #") != std::string::npos && l2.find("pdaaal") != std::string::npos) { detail += " <- " + l2.substr(l2.find('#')).substr(0, 200); ++frames; }
                    std::printf("CASE-FAIL\t%s\t%llu\t%llu\t%s\t%s\n", r.job.f->name.c_str(), (unsigned long long)seed, (unsigned long long)last, kind.c_str(), one_line(detail).c_str());
                }
                done_cases += begun;
                if (last + 1 < r.job.hi) todo.push_back({r.job.f, last + 1, r.job.hi, false});
            }
            ::unlink(r.errfile.c_str());
        };
        while (!todo.empty() || !running.empty()) {
            while (!todo.empty() && (int)running.size() < jobs && failures < 24) { auto j = todo.front(); todo.pop_front(); spawn(j); }
            if (failures >= 24 && running.empty()) break;
            // drain pipes so that children never block
            fd_set fs; FD_ZERO(&fs); int mx = 0;
            for (auto& [pid, r] : running) { FD_SET(r.fd, &fs); mx = std::max(mx, r.fd); }
            timeval tv{0, 20000};
            if (select(mx + 1, &fs, nullptr, nullptr, &tv) > 0)
                for (auto& [pid, r] : running) if (FD_ISSET(r.fd, &fs)) { char b[65536]; auto n = ::read(r.fd, b, sizeof b); if (n > 0) r.buf.append(b, (size_t)n); }
            int status; pid_t pid;
            while ((pid = waitpid(-1, &status, WNOHANG)) > 0) if (running.count(pid)) finish(pid, status);
        }
        ::rmdir(dir.c_str());
        for (auto& [k, v] : agg) std::printf("STAT\t%s\t%llu\n", k.c_str(), (unsigned long long)v);
        std::printf("DISTINCTCOUNT\t%zu\n", distinct.size());
        std::map<std::string, int> per;
        for (auto& s : samples) { auto k = s.substr(0, s.find('#')); if (per[k]++ < 3) std::printf("SAMPLE\t%s\n", s.c_str()); }
        std::printf("DONE\t%llu\t%llu\t%llu\n", (unsigned long long)done_cases, (unsigned long long)failures, (unsigned long long)inconclusive);
        return failures ? 1 : 0;
    }
}

#ifndef VERIF_NO_ASAN_DEFAULTS
extern "C" inline __attribute__((used, visibility("default"))) const char* __asan_default_options() {
    return "hard_rss_limit_mb=2500:detect_leaks=0:allocator_may_return_null=0:abort_on_error=0:handle_abort=0:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1";
}
extern "C" inline __attribute__((used, visibility("default"))) const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }
#endif
#endif
