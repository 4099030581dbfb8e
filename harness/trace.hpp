// Trace recording shared by all conformance drivers.
//
// A driver exercises the real gtl code and records one JSON line per *trace*:
//     {"cfg":"<name>","seed":S,"K":k,...,"ev":[["op",a,b,...],...]}
// TLC validates every trace against the TLA+ specification.  If the code under test crashes,
// aborts, trips a sanitizer or stops making progress, the trace recorded so far is closed with
// a ["crash",...] / ["hang"] event, which no action of any specification allows.
#pragma once
#include <algorithm>
#include <atomic>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <initializer_list>
#include <string>
#include <string_view>
#include <sys/resource.h>
#include <sys/time.h>
#include <type_traits>
#include <unistd.h>
#include <vector>

namespace vt {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0,n)
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
    int range(int lo, int hi) { return lo + below(hi - lo + 1); }
    bool chance(int pct) { return below(100) < pct; }
    // weighted choice
    int pick(const std::vector<int>& w) {
        int t = 0;
        for (int x : w) t += x;
        int r = below(t);
        for (size_t i = 0; i < w.size(); ++i) {
            if (r < w[i]) return (int)i;
            r -= w[i];
        }
        return 0;
    }
};

[[noreturn]] void bad(const char* what);
struct L {                       // a nested list of integers
    std::string s = "[";
    bool first = true;
    void cap() { if (s.size() > 300000) bad("endless_list"); }
    L& add(long long v) {
        if (!first) s += ',';
        first = false;
        s += std::to_string(v);
        cap();
        return *this;
    }
    L& add(const L& l) {
        if (!first) s += ',';
        first = false;
        s += l.s;
        s += ']';
        return *this;
    }
};

class Trace {
public:
    static Trace& get() { static Trace t; return t; }

    void open(const char* path) {
        fd_ = ::open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd_ < 0) { perror(path); _exit(3); }
    }
    void begin(const std::string& header) {       // header: "\"cfg\":\"x\",\"K\":3"
        buf_ = "{" + header + ",\"ev\":[";
        nev_ = 0;
        whole_ = buf_.size();
        active_ = true;
    }
    template<class... A>
    void ev(const char* op, const A&... a) {
        if (!active_) return;
        if (Own* o = own()) {                       // free-running thread: its own buffer, merged by ticket after the join
            uint64_t n = ticket().fetch_add(1, std::memory_order_relaxed);
            Trace x;
            x.active_ = true;
            std::swap(x.buf_, o->scratch);
            x.buf_.clear();
            x.one(op, a...);
            o->ev.emplace_back(n, x.buf_);
            std::swap(x.buf_, o->scratch);
            return;
        }
        if (nev_++) buf_ += ',';
        one(op, a...);
        whole_ = buf_.size();
        if (buf_.size() > 12000000) die("endless_trace"), _exit(8);
    }
    void warm() { if (buf_.capacity() < (1u << 20)) buf_.reserve(1u << 20); }      // the buffer is one heap block from here on
    void end() {
        if (!active_) return;
        buf_ += "]}\n";
        active_ = false;
        flush();
    }
    size_t count() const { return nev_; }
    // speculative recording: take back everything since mark(), or read it
    struct Mark { size_t len, nev; };
    Mark mark() const { return { buf_.size(), nev_ }; }
    std::string since(Mark m) const { return buf_.substr(m.len); }
    void rollback(Mark m) { buf_.resize(m.len); nev_ = m.nev; whole_ = m.len; }
    bool recording() const { return active_; }
    bool active() const { return active_; }
    // Emergency close: called from signal handlers / sanitizer death callback.
    void die(const char* what) {
        static volatile sig_atomic_t once = 0;
        if (once++) _exit(9);
        if (active_) {
            wr(buf_.data(), whole_);                  // an event being formatted when the signal came is left out
            const char* sep = whole_ && buf_[whole_ - 1] == ']' ? ",[\"" : "[\"";
            wr(sep, strlen(sep));
            wr(what, strlen(what));
            wr("\"]]}\n", 5);
        } else {
            // crash outside any trace: record a trace of its own
            const char* p = "{\"cfg\":\"outside\",\"seed\":0,\"K\":1,\"ev\":[[\"";
            wr(p, strlen(p));
            wr(what, strlen(what));
            wr("\"]]}\n", 5);
        }
    }

    struct Own { std::vector<std::pair<uint64_t, std::string>> ev; std::string scratch; };
    static Own*& own() { static thread_local Own* o = nullptr; return o; }
    void merge(std::vector<Own>& os) {
        std::vector<std::pair<uint64_t, std::string>*> all;
        for (auto& o : os) for (auto& e : o.ev) all.push_back(&e);
        std::sort(all.begin(), all.end(), [](auto* a, auto* b) { return a->first < b->first; });
        for (auto* e : all) { if (nev_++) buf_ += ','; buf_ += e->second; }
        whole_ = buf_.size();
    }

private:
    static std::atomic<uint64_t>& ticket() { static std::atomic<uint64_t> t { 0 }; return t; }
    template<class... A>
    void one(const char* op, const A&... a) {
        buf_ += "[\"";
        buf_ += op;
        buf_ += '"';
        (put(a), ...);
        buf_ += ']';
    }
    void put(const char* s) { buf_ += ",\""; buf_ += s; buf_ += '"'; }
    void put(const std::string& s) { put(s.c_str()); }
    void put(const L& l) { buf_ += ','; buf_ += l.s; buf_ += ']'; }
    template<class T, class = std::enable_if_t<std::is_integral_v<T>>>
    void put(T v) { buf_ += ','; buf_ += std::to_string((long long)v); }
    void put(const std::vector<int>& v) { L l; for (int x : v) l.add(x); put(l); }
    void wr(const char* p, size_t n) {
        while (n) {
            ssize_t k = ::write(fd_, p, n);
            if (k <= 0) return;
            p += k; n -= (size_t)k;
        }
    }
    void flush() { wr(buf_.data(), buf_.size()); buf_.clear(); }
    int fd_ = -1;
    std::string buf_;
    size_t nev_ = 0, whole_ = 0;                  // whole_: length of the complete events in buf_
    bool active_ = false;
};

inline Trace& T() { return Trace::get(); }

// An assertion of an instrumented element type failed: record and stop.
[[noreturn]] inline void bad(const char* what) {
    T().die(what);
    _exit(8);
}

inline void on_signal(int sig) {
    const char* w = sig == SIGSEGV ? "crash_segv" : sig == SIGABRT ? "crash_abort" : sig == SIGFPE ? "crash_fpe"
                  : sig == SIGBUS ? "crash_bus" : sig == SIGILL ? "crash_ill" : (sig == SIGPROF || sig == SIGALRM) ? "hang" : "crash";
    T().die(w);
    _exit(8);
}

// CPU-time budget for the current trace; an endless loop in the code under test becomes ["hang"].
inline void budget(int cpu_seconds) {
    struct itimerval t {};
    t.it_value.tv_sec = cpu_seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

} // namespace vt

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_death_callback(void (*)());
extern "C" const char* __asan_default_options();
extern "C" __attribute__((used)) const char* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=8:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:hard_rss_limit_mb=3000";
}
#endif

#if defined(__SANITIZE_THREAD__)
extern "C" void __sanitizer_set_death_callback(void (*)());
extern "C" __attribute__((used)) const char* __tsan_default_options() { return "halt_on_error=1:exitcode=8:report_signal_unsafe=0:second_deadlock_stack=0:report_thread_leaks=0:detect_deadlocks=0"; }
#endif

namespace vt {
inline void install() {
#if defined(__SANITIZE_THREAD__)
    __sanitizer_set_death_callback([] { T().die("data_race"); });
#endif
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    struct rlimit rl { 6ull << 30, 6ull << 30 };
    setrlimit(RLIMIT_AS, &rl);
#endif
#if defined(__SANITIZE_ADDRESS__)
    __asan_set_death_callback([] { T().die("crash_sanitizer"); });
#else
    static char altstack[1 << 16];
    stack_t ss {};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
#endif
    struct sigaction sa {};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    for (int s : { SIGABRT, SIGFPE, SIGILL, SIGPROF, SIGALRM
#if !defined(__SANITIZE_ADDRESS__)
                   , SIGSEGV, SIGBUS
#endif
         }) sigaction(s, &sa, nullptr);
}

struct Args {
    std::string out = "/dev/null";
    uint64_t seed = 1;
    int shard = 0, shards = 1;
    int traces = 10;     // number of traces for this shard
    int events = 200;    // approximate events per trace
    std::string profile = "std";
    std::string only;    // restrict to one configuration
    int only_trace = -1; // replay: only this trace index
};
inline Args parse(int argc, char** argv) {
    Args a;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--out") a.out = v;
        else if (k == "--seed") a.seed = strtoull(v.c_str(), 0, 10);
        else if (k == "--shard") a.shard = atoi(v.c_str());
        else if (k == "--shards") a.shards = atoi(v.c_str());
        else if (k == "--traces") a.traces = atoi(v.c_str());
        else if (k == "--events") a.events = atoi(v.c_str());
        else if (k == "--profile") a.profile = v;
        else if (k == "--only") a.only = v;
        else if (k == "--trace") a.only_trace = atoi(v.c_str());
    }
    T().open(a.out.c_str());
    install();
    return a;
}
} // namespace vt
