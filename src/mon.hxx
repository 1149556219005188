// Runtime monitor shared by all drivers: deterministic per-case randomness, flight recorder,
// violation log, coverage counters, allocation ledger with fault injection, checked iterators.
// C++11.
#ifndef MON_HXX_
#define MON_HXX_

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <iterator>
#include <new>
#include <exception>
#include <limits>
#include <algorithm>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>

#if defined(__has_feature)
#   if __has_feature(thread_sanitizer)
#       define MON_TSAN 1
#   endif
#endif

namespace mon {

    // ---------------------------------------------------------------- random

    struct Rng {
        std::uint64_t s;
        explicit Rng(std::uint64_t x = 1) : s(x) {}
        std::uint64_t next() {
            std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
        bool chance(unsigned num, unsigned den) { return below(den) < num; }
        template <typename T, std::size_t N> const T& pick(const T (&a)[N]) { return a[below(N)]; }
        template <typename T> const T& pick(const std::vector<T>& a) { return a[below(a.size())]; }
        // sizes: mostly small, often at boundaries
        std::size_t len(std::size_t max) {
            static const std::size_t b[] = {0,1,2,3,7,8,9,14,15,16,17,18,22,23,24,25,30,31,32,33,47,48,49,63,64,65,127,128,129,254,255,256,257,300};
            std::size_t n;
            switch (below(4)) {
                case 0:  n = b[below(sizeof(b)/sizeof(b[0]))]; break;
                case 1:  n = below(5); break;
                default: n = below(24); break;
            }
            return n > max ? below(max + 1) : n;
        }
        std::uint64_t bits() { // integers with interesting magnitudes
            static const std::uint64_t b[] = {0,1,9,10,0x17,0x18,0x7f,0x80,0xff,0x100,0x7fff,0x8000,0xffff,0x10000,0x7fffffff,0x80000000,0xffffffff,0x100000000ull,
                0x7fffffffffffffffull,0x8000000000000000ull,0xffffffffffffffffull,999999999,4294967295u,9007199254740991ull,9007199254740992ull,9007199254740993ull};
            switch (below(5)) {
                case 0:  return b[below(sizeof(b)/sizeof(b[0]))];
                case 1:  return b[below(sizeof(b)/sizeof(b[0]))] + below(3) - 1;
                case 2:  return below(100);
                default: return next() >> below(64);
            }
        }
    };

    inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
        a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2);
        a *= 0xFF51AFD7ED558CCDull; a ^= a >> 33;
        return a;
    }
    inline std::uint64_t fnv(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull) {
        auto b = static_cast<const unsigned char*>(p);
        for (std::size_t i = 0; i != n; ++i) h = (h ^ b[i]) * 1099511628211ull;
        return h;
    }
    inline std::uint64_t fnv(const std::string& s) { return fnv(s.data(), s.size()); }

    // ---------------------------------------------------------------- what the ledger accounts

    struct Alloc {
        bool on = false;                // account
        long long live = 0;             // blocks
        long long live_bytes = 0;
        long long peak_bytes = 0;
        std::size_t biggest = 0;        // single request
        unsigned long long n = 0;       // requests
        unsigned long long fail_at = 0; // 1-based, 0 - never
        bool failed = false;
        void reset() { live = live_bytes = peak_bytes = 0; biggest = 0; n = 0; fail_at = 0; failed = false; }
    };
    inline Alloc& al() { static thread_local Alloc a; return a; }

    struct ledger { // scope
        ledger(unsigned long long fail_at = 0) { al().reset(); al().fail_at = fail_at; al().on = true; }
        ~ledger() { al().on = false; }
    };
    struct pause { bool was; pause() : was(al().on) { al().on = false; } ~pause() { al().on = was; } };

    // ---------------------------------------------------------------- state

    struct Recorder { // survives a crash
        std::uint64_t idx;
        char site[192];
        std::uint32_t size;
        unsigned char data[1 << 16];
    };

    struct State {
        std::string mode;
        std::uint64_t seed = 1, start = 0, count = 0, only = ~0ull;
        bool single = false;
        std::FILE* out = nullptr;
        Recorder* rec = nullptr;
        Recorder local{};
        std::uint64_t idx = 0;
        std::map<std::string, std::uint64_t> counters;
        std::map<std::string, unsigned> viols;
        std::unordered_set<std::uint64_t> distinct;
        std::vector<std::string> samples;
        std::FILE* digests = nullptr;
        std::uint64_t evaluations = 0;
        bool quiet = false;
        std::string arg;
    };
    inline State& st() { static State s; return s; }

    inline std::string hex(const void* p, std::size_t n, std::size_t max = 4096) {
        static const char d[] = "0123456789abcdef";
        std::string r; auto b = static_cast<const unsigned char*>(p);
        for (std::size_t i = 0; i != n && i != max; ++i) r += d[b[i] >> 4], r += d[b[i] & 15];
        if (n > max) r += "..";
        return r;
    }
    inline std::string hex(const std::string& s, std::size_t max = 4096) { return hex(s.data(), s.size(), max); }
    inline std::string quote(const std::string& s) { // JSON string of bytes (latin-1)
        std::string r = "\""; char b[8];
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') r += '\\', r += char(c);
            else if (c < 0x20 || c >= 0x7f) std::snprintf(b, sizeof b, "\\u%04x", c), r += b;
            else r += char(c);
        }
        return r + "\"";
    }
    inline std::string clip(const std::string& s, std::size_t n = 300) { return s.size() <= n ? s : s.substr(0, n) + "..(" + std::to_string(s.size()) + ")"; }

    inline void site(const char* s) {
        auto r = st().rec;
        std::strncpy(r->site, s, sizeof r->site - 1);
    }
    inline void site(const std::string& s) { site(s.c_str()); }
    inline void input(const void* p, std::size_t n) {
        auto r = st().rec;
        r->size = std::uint32_t(n);
        std::memcpy(r->data, p, std::min(n, sizeof r->data));
    }
    inline void input(const std::string& s) { input(s.data(), s.size()); }

    inline void count(const char* c, std::uint64_t n = 1) { pause p; st().counters[c] += n; }
    inline void count(const std::string& c, std::uint64_t n = 1) { pause p; st().counters[c] += n; }
    // one oracle evaluation; d identifies what was observed (distinct, non trivial)
    inline void eval(std::uint64_t d) { pause p; ++st().evaluations; if (st().distinct.size() < (1u << 21)) st().distinct.insert(d); }
    inline void eval(const std::string& d) { eval(fnv(d)); }
    inline void sample(const std::string& s) { pause p; if (st().samples.size() < 8) st().samples.push_back(clip(s, 200)); }
    inline void digest(std::uint64_t tag, std::uint64_t d) { // for comparison between builds
        if (st().digests) std::fprintf(st().digests, "%llu %llx %llx\n", (unsigned long long)st().idx, (unsigned long long)tag, (unsigned long long)d);
    }

    inline void viol(const std::string& key, const std::string& detail) {
        pause p;
        auto& s = st();
        if (++s.viols[key] > 3) return;
        std::string l = "{\"ev\":\"viol\",\"key\":" + quote(key) + ",\"mode\":" + quote(s.mode) + ",\"idx\":" + std::to_string(s.idx) +
            ",\"seed\":" + std::to_string(s.seed) + ",\"site\":" + quote(s.rec->site) + ",\"input\":\"" + hex(s.rec->data, std::min<std::size_t>(s.rec->size, sizeof s.rec->data), 2048) +
            "\",\"detail\":" + quote(clip(detail, 1500)) + "}\n";
        std::fputs(l.c_str(), s.out); std::fflush(s.out);
    }
    inline bool check(bool ok, const std::string& key, const std::string& detail) { if (!ok) viol(key, detail); return ok; }
#   define MON_CHECK(ok, key, detail) ((ok) ? true : (mon::viol(key, detail), false))

    // ---------------------------------------------------------------- driver loop

    typedef void (*case_fn)(Rng&);

    inline void finish() {
        auto& s = st();
        std::string l = "{\"ev\":\"stats\",\"mode\":" + quote(s.mode) + ",\"cases\":" + std::to_string(s.idx - s.start) + ",\"evaluations\":" + std::to_string(s.evaluations) + ",\"distinct\":" + std::to_string(s.distinct.size()) + ",\"counters\":{";
        bool f = true;
        for (auto& c : s.counters) l += (f ? "" : ",") + quote(c.first) + ":" + std::to_string(c.second), f = false;
        l += "},\"viols\":{"; f = true;
        for (auto& c : s.viols) l += (f ? "" : ",") + quote(c.first) + ":" + std::to_string(c.second), f = false;
        l += "},\"samples\":["; f = true;
        for (auto& c : s.samples) l += (f ? "" : ",") + quote(c), f = false;
        l += "]}\n";
        std::fputs(l.c_str(), s.out); std::fflush(s.out);
        if (s.digests) std::fclose(s.digests);
    }

    inline void on_terminate() {
        if (auto e = std::current_exception()) {
            try { std::rethrow_exception(e); }
            catch (const std::exception& x) { std::fprintf(stderr, "MON: terminate: %s\n", x.what()); }
            catch (...) { std::fprintf(stderr, "MON: terminate: unknown exception\n"); }
        }
        else std::fprintf(stderr, "MON: terminate\n");
        std::abort();
    }

    struct Mode { const char* name; case_fn fn; };
    // usage: driver MODE --seed S --start A --count N [--only I] [--out F] [--rec F] [--digests F] [--arg X]
    template <std::size_t N>
        inline int run(int argc, char** argv, const Mode (&modes)[N]) {
            auto& s = st();
            std::string rec;
            s.out = stdout; s.rec = &s.local;
            if (argc < 2) return 64;
            s.mode = argv[1];
            unsigned tmo = 60;
            for (int i = 2; i + 1 < argc; i += 2) {
                std::string a = argv[i]; const char* v = argv[i + 1];
                     if (a == "--seed")     s.seed = std::strtoull(v, 0, 10);
                else if (a == "--start")    s.start = std::strtoull(v, 0, 10);
                else if (a == "--count")    s.count = std::strtoull(v, 0, 10);
                else if (a == "--only")     s.start = std::strtoull(v, 0, 10), s.count = 1, s.single = true;
                else if (a == "--out")      s.out = std::fopen(v, "w");
                else if (a == "--rec")      rec = v;
                else if (a == "--digests")  s.digests = std::fopen(v, "w");
                else if (a == "--alarm")    tmo = std::atoi(v);
                else if (a == "--arg")      s.arg = v;
            }
            if (!rec.empty()) {
                int fd = ::open(rec.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
                if (fd < 0 || ::ftruncate(fd, sizeof(Recorder)) != 0) return 65;
                void* p = ::mmap(0, sizeof(Recorder), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p == MAP_FAILED) return 65;
                s.rec = static_cast<Recorder*>(p); ::close(fd);
            }
            std::set_terminate(on_terminate);
            for (auto& m : modes) if (s.mode == m.name) {
                for (s.idx = s.start; s.idx != s.start + s.count; ++s.idx) {
                    Rng r(mix(mix(s.seed, fnv(s.mode)), s.idx)); r.next();
                    s.rec->idx = s.idx; s.rec->size = 0; s.rec->site[0] = 0;
                    ::alarm(tmo);
                    m.fn(r);
                }
                ::alarm(0);
                finish();
                return 0;
            }
            std::fprintf(stderr, "unknown mode %s\n", s.mode.c_str());
            return 64;
        }

    // ---------------------------------------------------------------- allocation ledger

#if defined(MON_LEDGER)
    static constexpr std::size_t hdr = 16;
    inline void* alloc(std::size_t n) {
        auto& a = al();
        if (a.on) {
            ++a.n;
            if (n > a.biggest) a.biggest = n;
            if (a.fail_at && a.n == a.fail_at) { a.failed = true; throw std::bad_alloc(); }
            if (n > (std::size_t(1) << 30)) throw std::bad_alloc();
        }
        char* p = static_cast<char*>(std::malloc(n + hdr));
        if (!p) throw std::bad_alloc();
        std::size_t m = a.on ? n | (std::size_t(1) << 63) : n;
        std::memcpy(p, &m, sizeof m);
        if (a.on) {
            ++a.live; a.live_bytes += (long long)n;
            if (a.live_bytes > a.peak_bytes) a.peak_bytes = a.live_bytes;
        }
        return p + hdr;
    }
    inline void dealloc(void* q) {
        if (!q) return;
        char* p = static_cast<char*>(q) - hdr;
        std::size_t m; std::memcpy(&m, p, sizeof m);
        if (m >> 63) { // allocated under a ledger
            auto& a = al();
            --a.live; a.live_bytes -= (long long)(m & ~(std::size_t(1) << 63));
        }
        std::free(p);
    }
#endif

    // ---------------------------------------------------------------- iterators

    // input iterator with shared single-pass state; flags use past the end and of stale copies
    struct stream {
        const char *p, *e;
        unsigned long long gen = 0;
    };
    struct in_iter {
        using iterator_category = std::input_iterator_tag;
        using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char*; using reference = char;
        stream* s; // null - end
        explicit in_iter(stream* s = nullptr) : s(s) {}
        char operator *() const {
            if (!s || s->p == s->e) { viol("past-end", "dereference of an input iterator at the end"); return 0; }
            return *s->p;
        }
        in_iter& operator ++() {
            if (!s || s->p == s->e) viol("past-end", "increment of an input iterator at the end");
            else ++s->p;
            return *this;
        }
        struct proxy { char c; char operator *() const { return c; } };
        proxy operator ++(int) { proxy r{**this}; ++*this; return r; }
        bool eof() const { return !s || s->p == s->e; }
        friend bool operator ==(const in_iter& a, const in_iter& b) { return a.eof() == b.eof(); }
        friend bool operator !=(const in_iter& a, const in_iter& b) { return a.eof() != b.eof(); }
    };

    // forward iterator over a range, checked
    struct fw_iter {
        using iterator_category = std::forward_iterator_tag;
        using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char*; using reference = const char&;
        const char *p = nullptr, *e = nullptr;
        fw_iter() {}
        fw_iter(const char* p, const char* e) : p(p), e(e) {}
        reference operator *() const {
            static const char z = 0;
            if (p == e) { viol("past-end", "dereference of a forward iterator at the end"); return z; }
            return *p;
        }
        fw_iter& operator ++() { if (p == e) viol("past-end", "increment of a forward iterator at the end"); else ++p; return *this; }
        fw_iter operator ++(int) { auto r = *this; ++*this; return r; }
        friend bool operator ==(const fw_iter& a, const fw_iter& b) { return a.p == b.p; }
        friend bool operator !=(const fw_iter& a, const fw_iter& b) { return a.p != b.p; }
    };

    // exact-size heap copy: the sanitizer sees any read outside of it
    struct exact {
        char* b; std::size_t n;
        exact(const std::string& s) : b(static_cast<char*>(std::malloc(s.size() ? s.size() : 1))), n(s.size()) { if (n) std::memcpy(b, s.data(), n); }
        ~exact() { std::free(b); }
        const char* begin() const { return n ? b : b + 0; }
        const char* end() const { return b + n; }
        exact(const exact&) = delete;
    };

} // mon

#if defined(MON_LEDGER)
    void* operator new(std::size_t n) { return mon::alloc(n); }
    void* operator new[](std::size_t n) { return mon::alloc(n); }
    void  operator delete(void* p) noexcept { mon::dealloc(p); }
    void  operator delete[](void* p) noexcept { mon::dealloc(p); }
    void  operator delete(void* p, std::size_t) noexcept { mon::dealloc(p); }
    void  operator delete[](void* p, std::size_t) noexcept { mon::dealloc(p); }
#endif

#endif // MON_HXX_
