// Numbers, exactly: FMT 0 - JSON (read, write, precision, buffer limit), 1 - CBOR (read, write, half precision)
#if !defined(FMT)
#   define FMT 0
#endif
#include "ref.hxx"
#include <list>
#include <forward_list>
#if FMT == 0
#   include "cxon/json.hxx"
#   include "cxon/lib/std/vector.hxx"
#   include "strict.hxx"
#else
#   include "cxon/cbor.hxx"
#   include "cxon/lib/std/vector.hxx"
    typedef cxon::CBOR<> F;
#endif

using mon::viol; using mon::Rng; using ref::i128;

namespace {

    template <typename T> struct nm;
#   define NAME(T) template <> struct nm<T> { static const char* v() { return #T; } };
    NAME(char) NAME(signed char) NAME(unsigned char) NAME(short) NAME(unsigned short) NAME(int) NAME(unsigned) NAME(long) NAME(unsigned long)
    NAME(long long) NAME(unsigned long long) NAME(char16_t) NAME(char32_t) NAME(wchar_t) NAME(float) NAME(double) NAME(long double)

    template <typename T> bool bits_same(T a, T b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
    template <typename T> std::string fs(T v) { char b[80]; std::snprintf(b, sizeof b, "%.36Lg", (long double)v); return b; }

#if FMT == 0
    float conv(const char* s, float) { return std::strtof(s, nullptr); }
    double conv(const char* s, double) { return std::strtod(s, nullptr); }
    long double conv(const char* s, long double) { return std::strtold(s, nullptr); }

    struct Res { bool ok; std::size_t end; std::string ec; };
    template <typename T> Res by(int how, const std::string& s, T& t) {
        mon::exact x(s); Res r;
        switch (how) {
            case 0: { auto q = cxon::from_bytes<F>(t, x.begin(), x.end()); r = Res{bool(q), std::size_t(q.end - x.begin()), q.ec ? q.ec.message() : ""}; break; }
            case 1: { mon::stream st; st.p = x.begin(); st.e = x.end(); auto q = cxon::from_bytes<F>(t, mon::in_iter(&st), mon::in_iter()); r = Res{bool(q), std::size_t(st.p - x.begin()), q.ec ? q.ec.message() : ""}; break; }
            case 2: { auto q = cxon::from_bytes<F>(t, mon::fw_iter(x.begin(), x.end()), mon::fw_iter(x.end(), x.end())); r = Res{bool(q), std::size_t(q.end.p - x.begin()), q.ec ? q.ec.message() : ""}; break; }
            case 3: { std::list<char> l(s.begin(), s.end()); auto q = cxon::from_bytes<F>(t, l.begin(), l.end()); r = Res{bool(q), std::size_t(std::distance(l.begin(), q.end)), q.ec ? q.ec.message() : ""}; break; }
            default: { auto q = cxon::from_bytes<F>(t, s); r = Res{bool(q), std::size_t(q.end - s.begin()), q.ec ? q.ec.message() : ""}; break; }
        }
        return r;
    }
    const char* const hows[] = {"pointers", "single-pass", "forward", "list", "string"};

    // ---- reading
    std::string int_text(Rng& r) {
        i128 v;
        static const i128 b[] = {0, 9, 10, 99, 100, 127, 128, 129, 255, 256, 999, 1000, 32767, 32768, 32769, 65535, 65536, 2147483647ll, 2147483648ll, 2147483649ll, 4294967295ll, 4294967296ll, 999999999ll, 1000000000ll,
            9223372036854775807ll, i128(9223372036854775807ll) + 1, i128(9223372036854775807ll) + 2, i128(18446744073709551615ull), i128(18446744073709551615ull) + 1, i128(18446744073709551615ull) * 10 + 9};
        switch (r.below(5)) {
            case 0: v = r.pick(b); break;
            case 1: v = r.pick(b) + i128(r.below(5)) - 2; break;
            case 2: v = r.pick(b) * 10 + i128(r.below(10)); break;
            case 3: { std::string s = r.chance(1, 2) ? "-" : ""; s += char('1' + r.below(9)); for (std::size_t n = r.below(r.chance(1, 3) ? 29 : 20); n; --n) s += char('0' + r.below(10)); return s; }
            default: v = i128(r.bits());
        }
        if (v < 0) v = -v;
        if (r.chance(1, 2)) v = -v;
        return ref::i2s(v);
    }
    bool parse_i(const std::string& s, i128& v) { // up to 30 digits
        v = 0; std::size_t i = s[0] == '-';
        for (; i < s.size(); ++i) v = v * 10 + (s[i] - '0');
        if (s[0] == '-') v = -v;
        return true;
    }
    template <typename T> void jread_int(Rng& r) {
        std::string s = int_text(r); if (s == "-0") s = "0"; i128 v; parse_i(s, v);
        bool fits = v >= i128(std::numeric_limits<T>::min()) && v <= i128(std::numeric_limits<T>::max());
        std::string d = s; static const char* sf[] = {"", "", " ", ",", "]", "\n"}; d += r.pick(sf); if (r.chance(1, 4)) d = std::string(1 + r.below(3), ' ') + d;
        mon::input(d); mon::sample(d);
        for (int h = 0; h < 5; ++h) {
            T init = T(r.next()), t = init; Res q = by(h, d, t);
            std::string w = std::string(nm<T>::v()) + ", " + hows[h] + ": ";
            if (q.ok != fits) viol(fits ? "num:refused" : "num:accepted", w + d + (q.ok ? " read as " + ref::i2s(i128(t)) : " " + q.ec));
            else if (!q.ok) { if (t != init) viol("num:touched", w + d + " changed the target to " + ref::i2s(i128(t))); if (q.ec.empty()) viol("num:ec", w + d); }
            else if (i128(t) != v) viol("num:value", w + d + " read as " + ref::i2s(i128(t)));
            else if (q.end != d.find_first_not_of(' ') + s.size()) viol("num:end", w + d + " stops at " + std::to_string(q.end));
            mon::count(fits ? "num:int-in" : "num:int-out"); mon::eval(mon::mix(mon::fnv(d), mon::mix(h, mon::fnv(nm<T>::v()))));
            mon::digest(1, mon::mix(q.ok, mon::mix(h, q.ok ? std::uint64_t(t) : 0)));
        }
        { std::vector<T> t; std::string a = "[" + s + "]"; auto q = cxon::from_bytes<F>(t, a); if (bool(q) != fits || (fits && (t.size() != 1 || i128(t[0]) != v))) viol("num:in-array", std::string(nm<T>::v()) + " " + a); }
    }
    // exact decimal expansion (long double, exactly representable)
    std::string expand(long double v) { static thread_local char b[20000]; std::snprintf(b, sizeof b, "%.12000Lf", v); std::string s = b; while (s.back() == '0') s.pop_back(); if (s.back() == '.') s.pop_back(); return s; }
    template <typename T> T rnd_fp(Rng& r) {
        T t; do {
            switch (r.below(4)) {
                case 0: { std::uint64_t u = r.next(); if (sizeof(T) == 4) { std::uint32_t x = std::uint32_t(u); float f; std::memcpy(&f, &x, 4); t = T(f); } else { double d; std::memcpy(&d, &u, 8); t = T(d); } break; }
                case 1: t = std::ldexp(T(r.next() >> 11), int(r.below(140)) - 120); break;
                case 2: t = T(r.bits()); break;
                default: t = T(ref::gen_double(r));
            }
        } while (!std::isfinite(t));
        return t;
    }
    template <typename T> void jread_fp_text(Rng& r, const std::string& s, bool known, T want, const char* what) {
        mon::input(s); mon::sample(mon::clip(s, 60));
        for (int h = 0; h < 5; ++h) {
            if (h && s.size() >= 64) continue; // the documented limit of the number buffer
            T init = T(r.below(1000)), t = init; Res q = by(h, s, t);
            std::string w = std::string(nm<T>::v()) + ", " + hows[h] + ", " + what + ": " + mon::clip(s, 200);
            T x = known ? want : conv(s.c_str(), T());
            bool fits = std::isfinite(x), tiny = std::fabs(x) < std::numeric_limits<T>::min() && s.find_first_of("123456789") < s.find_first_of("eE");
            if (!q.ok && tiny) { mon::count("num:tiny"); if (t != init) viol("num:touched", w); continue; }
            if (q.ok != fits) viol(fits ? "num:refused" : "num:accepted", w + (q.ok ? " read as " + fs(t) : " " + q.ec));
            else if (!q.ok) { if (!bits_same(t, init)) viol("num:touched", w + " changed the target to " + fs(t)); }
            else if (!bits_same(t, x)) viol("num:value", w + " read as " + fs(t) + " instead of " + fs(x));
            else if (q.end != s.size()) viol("num:end", w + " stops at " + std::to_string(q.end));
            mon::count(fits ? "num:fp-in" : "num:fp-out"); mon::eval(mon::mix(mon::fnv(s), mon::mix(h, mon::fnv(nm<T>::v()))));
            std::uint64_t b = 0; std::memcpy(&b, &t, std::min(sizeof b, sizeof t)); mon::digest(2, mon::mix(q.ok, mon::mix(h, q.ok ? b : 0)));
        }
    }
    template <typename T> void jread_fp(Rng& r) {
        std::string s; char b[200];
        switch (r.below(8)) {
            case 0: { T v = rnd_fp<T>(r); std::snprintf(b, sizeof b, "%.*Lg", int(std::numeric_limits<T>::max_digits10), (long double)v); s = b; jread_fp_text<T>(r, s, true, v, "printed"); return; }
            case 1: { // between two neighbours
                if (sizeof(T) > 8) { T v = rnd_fp<T>(r); std::snprintf(b, sizeof b, "%.25Lg", (long double)v); jread_fp_text<T>(r, b, true, v, "printed"); return; }
                T v = std::fabs(rnd_fp<T>(r)); T w = std::nextafter(v, std::numeric_limits<T>::infinity());
                if (!std::isfinite(w) || v < std::numeric_limits<T>::min()) return;
                long double m = ((long double)v + (long double)w) / 2; s = expand(m);
                std::uint64_t bits = 0; std::memcpy(&bits, &v, sizeof v); T even = bits & 1 ? w : v;
                switch (r.below(3)) {
                    case 0: jread_fp_text<T>(r, s, true, even, "midpoint"); return;
                    case 1: { std::string u = s; if (u.find('.') == std::string::npos) u += "."; u += std::string(r.below(3), '0') + "1"; jread_fp_text<T>(r, u, true, w, "above the midpoint"); return; }
                    default: { std::string u = s; if (u.find('.') == std::string::npos) return; --u.back(); u += "9"; jread_fp_text<T>(r, u, true, v, "below the midpoint"); return; }
                }
            }
            case 2: s = r.chance(1, 2) ? "-" : ""; s += char('1' + r.below(9)); for (std::size_t n = r.below(25); n; --n) s += char('0' + r.below(10));
                if (r.chance(1, 2)) { s += '.'; for (std::size_t n = 1 + r.below(25); n; --n) s += char('0' + r.below(10)); }
                if (r.chance(1, 2)) s += std::string(r.chance(1, 2) ? "e" : "E") + (r.chance(1, 3) ? "+" : r.chance(1, 2) ? "-" : "") + std::to_string(r.below(r.chance(1, 2) ? 30 : r.chance(1, 2) ? 330 : 5200)); break;
            case 3: s = r.chance(1, 2) ? "-0" : "0"; if (r.chance(2, 3)) { s += '.'; for (std::size_t n = 1 + r.below(40); n; --n) s += char(r.chance(1, 2) ? '0' : '0' + r.below(10)); } if (r.chance(1, 2)) s += "e" + std::to_string(int(r.below(60)) - 30); break;
            case 4: { static const char* k[] = {"1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1.8e308", "3.4028234663852886e38", "3.4028235677973366e38", "3.4028235677973365e38", "3.4028236e38", "1e4932", "1.18973149535723176502e4932", "1.1897314953572317651e4932", "1.2e4932", "1e309", "1e39", "1e99999", "-1e400",
                "2.2250738585072014e-308", "2.2250738585072011e-308", "1.17549435e-38", "9007199254740993", "9007199254740992", "9007199254740991", "16777217", "16777216", "0.1", "0.2", "0.3", "1e23", "8.5e22", "9.5e-7", "123456789012345678901234567890", "0e999999", "0.0e-99999", "100000000000000000000000000000000000000000000000000e-50"};
                s = k[r.below(sizeof k / sizeof *k)]; break; }
            case 5: s = std::to_string(r.bits()); break;
            case 6: s = int_text(r); break;
            default: s = ref::gen_real_lexeme(r);
        }
        jread_fp_text<T>(r, s, false, T(), "digits");
    }
    // ---- what is no number, or only begins as one, is refused or read as far as the grammar goes - never as something else
    template <typename T> void jgrammar(Rng& r) {
        std::string s; static const char* al = "0123456789+-.eE"; for (std::size_t n = 1 + r.below(8); n; --n) s += al[r.below(r.chance(1, 2) ? 15 : 3)];
        if (r.chance(1, 4)) s += r.chance(1, 2) ? "x" : " ";
        mon::input(s);
        bool fp = std::is_floating_point<T>::value;
        // the longest number at the beginning
        std::size_t i = 0, n = s.size(); auto dig = [&](std::size_t k) { return k < n && s[k] >= '0' && s[k] <= '9'; }; bool good = true, frac = false;
        if (i < n && s[i] == '-') ++i;
        if (!dig(i)) good = false; else if (s[i] == '0') ++i; else while (dig(i)) ++i;
        if (good && fp) {
            if (i < n && s[i] == '.') { ++i; frac = true; if (!dig(i)) good = false; while (dig(i)) ++i; }
            if (good && i < n && (s[i] == 'e' || s[i] == 'E')) { ++i; frac = true; if (i < n && (s[i] == '-' || s[i] == '+')) ++i; if (!dig(i)) good = false; while (dig(i)) ++i; }
        }
        (void)frac;
        if (!fp && std::is_unsigned<T>::value && s[0] == '-') good = false;
        for (int h = strict ? 0 : 1; h < (strict ? 5 : 4); ++h) { // (plain pointers are lenient unless told not to be)
            T t = 0; Res q = by(h, s, t); std::string w = std::string(nm<T>::v()) + ", " + hows[h] + ": " + s;
            if (q.ok && !good) viol("num:grammar", w + " accepted");
            else if (q.ok && q.end != i) viol("num:end", w + " stops at " + std::to_string(q.end));
            else if (q.ok && !(fp ? bits_same(T(t), T(std::strtold(s.substr(0, i).c_str(), nullptr))) || sizeof(T) < sizeof(long double) : (long double)t == std::strtold(s.substr(0, i).c_str(), nullptr))) viol("num:value", w + " read as " + fs(t));
            mon::eval(mon::mix(mon::fnv(s), mon::mix(h, q.ok))); mon::count(q.ok ? "num:grammar-in" : "num:grammar-out");
        }
    }
    // ---- the limit of the number buffer: a longer number is an error, never another number
    template <typename T> void jlimit(Rng& r) {
        std::string s = std::is_floating_point<T>::value && r.chance(1, 2) ? "0." : ""; std::size_t n = r.below(12); s += char('1' + r.below(9)); while (s.size() < n) s += char('0' + r.below(10));
        mon::input(s); T x = T(0); bool fits = true;
        if (std::is_floating_point<T>::value) x = T(std::strtold(s.c_str(), nullptr)); else { i128 v; parse_i(s, v); fits = v <= i128(std::numeric_limits<T>::max()); x = T(v); }
        mon::exact e(s);
        auto one = [&](const char* nme, std::size_t lim, bool ok, T t, bool over) {
            std::string w = std::string(nm<T>::v()) + ", limit " + std::to_string(lim) + ", " + nme + ": " + s;
            if (ok && (!fits || (!std::is_floating_point<T>::value && t != x))) viol("num:limit-value", w + " read as " + fs(t));
            if (!ok && fits && s.size() < lim) viol("num:limit-refused", w);
            if (s.size() >= lim && ok) viol("num:limit-accepted", w);
            (void)over; mon::eval(mon::mix(mon::fnv(s), mon::mix(lim, ok))); mon::count(s.size() >= lim ? "num:limit-over" : "num:limit-in");
        };
        { T t = 0; auto q = cxon::from_bytes<F>(t, mon::fw_iter(e.begin(), e.end()), mon::fw_iter(e.end(), e.end()), cxon::json::num_len_max::set<4>()); one("forward", 4, bool(q), t, false); }
        { T t = 0; mon::stream st; st.p = e.begin(); st.e = e.end(); auto q = cxon::from_bytes<F>(t, mon::in_iter(&st), mon::in_iter(), cxon::json::num_len_max::set<7>()); one("single-pass", 7, bool(q), t, false); }
        { T t = 0; std::list<char> l(s.begin(), s.end()); auto q = cxon::from_bytes<F>(t, l, cxon::json::num_len_max::set<10>()); one("list", 10, bool(q), t, false); }
    }
    // ---- writing
    bool json_number(const std::string& s) {
        ref::V v; ref::Json j(s.data(), s.data() + s.size()); return j.value(v) && j.p == s.data() + s.size() && (v.k == ref::V::Int || v.k == ref::V::Real);
    }
    template <typename T> void jwrite_int(Rng& r) {
        T t; switch (r.below(4)) { case 0: t = std::numeric_limits<T>::max(); t = T(t - T(r.below(3))); break; case 1: t = std::numeric_limits<T>::min(); t = T(t + T(r.below(3))); break; default: t = T(r.bits()); if (r.chance(1, 2)) t = T(-1 - t); }
        std::string s; auto q = cxon::to_bytes<F>(s, t); mon::input(s); mon::sample(s);
        if (!q || s != ref::i2s(i128(t))) viol("num:write", std::string(nm<T>::v()) + " " + ref::i2s(i128(t)) + " written as " + s);
        T u = 0; auto z = cxon::from_bytes<F>(u, s); if (!z || u != t) viol("num:round-trip", std::string(nm<T>::v()) + " " + s);
        mon::eval(mon::fnv(s)); mon::count("num:write-int"); mon::digest(3, mon::fnv(s));
    }
    std::size_t sig(const std::string& s) { // significant digits written
        std::string d; for (char c : s) { if (c == 'e' || c == 'E') break; if (c >= '0' && c <= '9') d += c; }
        std::size_t b = d.find_first_not_of('0'); if (b == std::string::npos) return 0;
        return d.size() - b;
    }
    template <typename T, unsigned N> void precise(T t) {
        std::string s; auto q = cxon::to_bytes<F>(s, t, cxon::json::fp_precision::set<N>()); char b[100];
        std::snprintf(b, sizeof b, sizeof(T) > 8 ? "%.*Lg" : "%.*Lg", int(N), (long double)t);
        std::string w = std::string(nm<T>::v()) + " " + fs(t) + " at precision " + std::to_string(N) + " written as " + s;
        if (!q || !json_number(s)) viol("num:precision-json", w);
        else if (!bits_same(std::strtold(s.c_str(), nullptr), std::strtold(b, nullptr))) viol("num:precision", w + " instead of " + b);
        else if (sig(s) > N && s.find('.') != std::string::npos) viol("num:precision-digits", w);
        mon::eval(mon::mix(mon::fnv(s), N)); mon::count("num:write-precision");
    }
    template <typename T> void jwrite_fp(Rng& r) {
        T t = rnd_fp<T>(r); if (r.chance(1, 8)) { static const T k[] = {T(0), T(-0.0), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::epsilon(), T(1), T(10), T(1e15), T(123456), T(1e-5), T(0.0001)}; t = r.pick(k); }
        std::string s; auto q = cxon::to_bytes<F>(s, t); mon::input(s); mon::sample(s);
        std::string w = std::string(nm<T>::v()) + " " + fs(t) + " written as " + s;
        if (!q || !json_number(s)) viol("num:write-json", w);
        else if (!bits_same(conv(s.c_str(), T()), t)) viol("num:write", w);
        T u = 0; auto z = cxon::from_bytes<F>(u, s); if (!z || !bits_same(u, t)) { if (!(std::fabs(t) < std::numeric_limits<T>::min() && !z && sizeof(T) > 8)) viol("num:round-trip", w + (z ? " reads back as " + fs(u) : " is refused")); }
        { T v = 0; std::list<char> l(s.begin(), s.end()); auto y = cxon::from_bytes<F>(v, l); if (bool(y) != bool(z) || (y && !bits_same(u, v))) viol("num:round-trip-list", w); }
        mon::eval(mon::fnv(s)); mon::count("num:write-fp"); mon::digest(4, mon::fnv(s));
        precise<T, 1>(t); precise<T, 3>(t); precise<T, 6>(t); precise<T, std::numeric_limits<T>::digits10>(t);
    }

    template <typename T> void rd(Rng& r, std::true_type) { jread_int<T>(r); }
    template <typename T> void rd(Rng& r, std::false_type) { jread_fp<T>(r); }
    template <typename T> void wr(Rng& r, std::true_type) { jwrite_int<T>(r); }
    template <typename T> void wr(Rng& r, std::false_type) { jwrite_fp<T>(r); }
    template <typename T> void m_rd(Rng& r) { rd<T>(r, std::is_integral<T>()); }
    template <typename T> void m_wr(Rng& r) { wr<T>(r, std::is_integral<T>()); }
#   define TYPES(X) X(signed char) X(unsigned char) X(short) X(unsigned short) X(int) X(unsigned) X(long) X(unsigned long) X(long long) X(unsigned long long) X(float) X(double) X(long double)
#   define ROW(T) {nm<T>::v(), m_rd<T>, m_wr<T>, jgrammar<T>, jlimit<T>},
    struct Row { const char* n; void (*f[4])(Rng&); };
    const Row rows[] = { TYPES(ROW) };
    template <int K> void m(Rng& r) {
        static const char* ks[] = {"read", "write", "grammar", "limit"};
        std::size_t n = sizeof rows / sizeof *rows; auto& o = rows[K < 2 && r.chance(1, 3) ? n - 1 - r.below(3) : r.below(n)];
        mon::site(std::string(ks[K]) + " json " + o.n); o.f[K](r);
    }
#else
    // ---- CBOR
    template <typename T> struct octet : std::integral_constant<bool, std::is_same<T, char>::value || std::is_same<T, signed char>::value || std::is_same<T, wchar_t>::value> {};
    void head(std::string& o, unsigned mt, std::uint64_t u, unsigned w) { // w: argument bytes, 0 - in the head
        if (w == 0) { o += char(mt | u); return; }
        o += char(mt | (w == 1 ? 24 : w == 2 ? 25 : w == 4 ? 26 : 27));
        for (unsigned i = w; i--; ) o += char(u >> 8 * i);
    }
    unsigned width(Rng& r, std::uint64_t u) {
        unsigned w = u <= 23 ? 0 : u <= 0xFF ? 1 : u <= 0xFFFF ? 2 : u <= 0xFFFFFFFF ? 4 : 8;
        while (w < 8 && r.chance(1, 3)) w = w ? w * 2 : 1;
        return w;
    }
    void tags(Rng& r, std::string& o) { if (r.chance(1, 8)) { std::uint64_t u = r.bits(); head(o, 0xC0, u, width(r, u)); mon::count("num:tagged"); } }

    struct Res { bool ok; std::size_t end; };
    template <typename T> Res by(int how, const std::string& s, T& t) {
        mon::exact x(s);
        switch (how) {
            case 0: { auto q = cxon::from_bytes<F>(t, x.begin(), x.end()); return Res{bool(q), std::size_t(q.end - x.begin())}; }
            case 1: { mon::stream st; st.p = x.begin(); st.e = x.end(); auto q = cxon::from_bytes<F>(t, mon::in_iter(&st), mon::in_iter()); return Res{bool(q), std::size_t(st.p - x.begin())}; }
            case 2: { auto q = cxon::from_bytes<F>(t, mon::fw_iter(x.begin(), x.end()), mon::fw_iter(x.end(), x.end())); return Res{bool(q), std::size_t(q.end.p - x.begin())}; }
            default: { std::list<char> l(s.begin(), s.end()); auto q = cxon::from_bytes<F>(t, l.begin(), l.end()); return Res{bool(q), std::size_t(std::distance(l.begin(), q.end))}; }
        }
    }
    const char* const hows[] = {"pointers", "single-pass", "forward", "list"};

    template <typename T> auto expect(i128 v, T& x) -> typename std::enable_if<std::is_integral<T>::value, bool>::type {
        using U = typename std::conditional<octet<T>::value, typename std::make_unsigned<typename std::conditional<octet<T>::value, T, int>::type>::type, T>::type;
        if (v < i128(std::numeric_limits<T>::min()) || v > i128(std::numeric_limits<U>::max())) return false;
        x = T(v); return true;
    }
    template <typename T> auto expect(i128 v, T& x) -> typename std::enable_if<std::is_floating_point<T>::value, bool>::type { x = T(v); return true; }
    template <typename T> bool eq(T a, T b, std::true_type) { return a == b; }
    template <typename T> bool eq(T a, T b, std::false_type) { return bits_same(a, b); }
    template <typename T> bool eq(T a, T b) { return eq(a, b, std::is_integral<T>()); }

    template <typename T> void verify(Rng& r, const std::string& s, bool fits, T x, const std::string& what, bool cut = false) {
        mon::input(s); mon::sample(mon::hex(s));
        std::string d = s; if (!cut && r.chance(1, 3)) for (int i = 0; i < 9; ++i) d += char(r.next());
        for (int h = 0; h < 4; ++h) {
            T init = T(r.below(100)), t = init; Res q = by(h, d, t); std::string w = std::string(nm<T>::v()) + ", " + hows[h] + ": " + what;
            if (q.ok != fits) viol(fits ? "num:refused" : "num:accepted", w + (q.ok ? " read as " + fs((long double)t) : ""));
            else if (q.ok && !eq(t, x)) viol("num:value", w + " read as " + fs((long double)t));
            else if (q.ok && q.end != s.size()) viol("num:end", w + " stops at " + std::to_string(q.end));
            else if (!q.ok && !eq(t, init)) viol("num:touched", w);
            mon::eval(mon::mix(mon::fnv(s), mon::mix(h, mon::fnv(nm<T>::v())))); mon::count(fits ? "num:in" : "num:out");
        }
        { std::vector<T> t; std::string a = "\x81" + s; auto q = cxon::from_bytes<F>(t, a); bool tg = (unsigned char)s[0] >> 5 == 6; if (!tg && (bool(q) != fits || (fits && (t.size() != 1 || !eq(T(t[0]), x))))) viol("num:in-array", std::string(nm<T>::v()) + " " + what); }
    }
    template <typename T> void cread(Rng& r) {
        std::uint64_t u = r.bits(); if (r.chance(1, 4)) { static const std::uint64_t k[] = {(std::uint64_t)std::numeric_limits<T>::max(), 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648u, 4294967295u, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, ~0ull}; u = r.pick(k) + r.below(3) - 1; }
        bool neg = r.chance(1, 2); i128 v = neg ? -1 - i128(u) : i128(u);
        std::string s; tags(r, s); head(s, neg ? 0x20 : 0, u, width(r, u));
        T x = T(); bool fits = expect<T>(v, x);
        bool cut = r.chance(1, 20); if (cut) { s.pop_back(); if (s.empty()) return; fits = false; }
        verify<T>(r, s, fits, x, ref::i2s(v) + " as " + mon::hex(s), cut);
    }
    template <typename T> auto cfloat(Rng& r) -> typename std::enable_if<std::is_integral<T>::value>::type {
        std::string s; static const unsigned char h[] = {0xF9, 0xFA, 0xFB, 0xF4, 0xF5, 0xF6, 0xF7, 0xF8, 0xE0, 0x1C, 0x1F, 0x3C, 0x3F, 0x40, 0x60, 0x80, 0xA0, 0xFF};
        s += char(r.pick(h)); for (int i = 0; i < 8; ++i) s += char(0);
        mon::input(s); T t = 7; auto q = cxon::from_bytes<F>(t, s); if (q) viol("num:not-integer", std::string(nm<T>::v()) + " from " + mon::hex(s)); else if (t != T(7)) viol("num:touched", std::string(nm<T>::v()) + " from " + mon::hex(s));
        mon::eval(mon::fnv(s)); mon::count("num:other");
    }
    template <typename T> auto cfloat(Rng& r) -> typename std::enable_if<std::is_floating_point<T>::value>::type {
        std::string s; tags(r, s); T x;
        switch (r.below(3)) {
            case 0: { std::uint16_t h = std::uint16_t(r.next()); head(s, 0xE0, h, 2); x = T(ref::half(h)); break; }
            case 1: { std::uint32_t h = r.chance(1, 4) ? 0x7f7fffff + std::uint32_t(r.below(4)) : std::uint32_t(r.next()); float f; std::memcpy(&f, &h, 4); head(s, 0xE0, h, 4); x = T(f); break; }
            default: { double f = r.chance(1, 2) ? ref::gen_double(r) : 0; std::uint64_t h = r.next(); if (f != 0) std::memcpy(&h, &f, 8); else std::memcpy(&f, &h, 8); head(s, 0xE0, h, 8); x = T(f); break; }
        }
        verify<T>(r, s, true, x, mon::hex(s));
    }
    template <typename T> auto chalf(std::uint64_t idx, Rng& r) -> typename std::enable_if<std::is_floating_point<T>::value>::type { std::string s; head(s, 0xE0, std::uint16_t(idx), 2); verify<T>(r, s, true, T(ref::half(std::uint16_t(idx))), "half " + mon::hex(s)); }
    template <typename T> T gen_t(Rng& r, std::true_type) { T t = T(r.bits()); if (r.chance(1, 2)) t = T(T(-1) - t); if (r.chance(1, 8)) t = std::numeric_limits<T>::max(); if (r.chance(1, 8)) t = std::numeric_limits<T>::min(); return t; }
    template <typename T> T gen_t(Rng& r, std::false_type) { std::uint64_t u = r.next(); if (sizeof(T) == 4) { float f; std::memcpy(&f, &u, 4); return T(f); } double d; std::memcpy(&d, &u, 8); if (r.chance(1, 2)) d = ref::gen_double(r); return T(d); }
    template <typename T> bool shows(const ref::V& v, T t, std::true_type) { using U = typename std::make_unsigned<T>::type; return v.k == ref::V::Int && v.i == (std::is_same<T, char>::value || std::is_same<T, wchar_t>::value ? i128(U(t)) : i128(t)); }
    template <typename T> bool shows(const ref::V& v, T t, std::false_type) { return v.k == ref::V::Real && ref::same_real(v.r, double(t)); }
    template <typename T> struct as_int { typedef T type; };
    template <> struct as_int<char16_t> { typedef std::uint16_t type; };
    template <> struct as_int<char32_t> { typedef std::uint32_t type; };
    template <> struct as_int<float> { typedef float type; };
    template <typename T> void cwrite(Rng& r) {
        T t = gen_t<T>(r, std::is_integral<T>()); std::string s; auto q = cxon::to_bytes<F>(s, t); mon::input(s); mon::sample(mon::hex(s));
        ref::V v; ref::Cbor c(s.data(), s.size()); bool ok = c.item(v) && c.p == c.e; using I = typename as_int<T>::type;
        std::string w = std::string(nm<T>::v()) + " " + fs((long double)t) + " written as " + mon::hex(s);
        if (!q || !ok || !shows<I>(v, I(t), std::is_integral<I>())) viol("num:write", w);
        else if (std::is_integral<T>::value && !c.shortest) viol("num:shortest", w);
        else if (std::is_floating_point<T>::value && s.size() != (sizeof(T) == 4 ? 5u : 9u)) viol("num:width", w);
        T u = T(); auto z = cxon::from_bytes<F>(u, s); if (!z || z.end != s.end() || !eq(u, T(sizeof(T) > 8 ? T(double(t)) : t))) viol("num:round-trip", w);
        mon::eval(mon::fnv(s)); mon::count("num:write"); mon::digest(5, mon::fnv(s));
    }
#   define TYPES(X) X(char) X(signed char) X(unsigned char) X(short) X(unsigned short) X(int) X(unsigned) X(long) X(unsigned long) X(long long) X(unsigned long long) X(char16_t) X(char32_t) X(wchar_t) X(float) X(double) X(long double)
#   define ROW(T) {nm<T>::v(), cread<T>, cfloat<T>, cwrite<T>},
    struct Row { const char* n; void (*f[3])(Rng&); };
    const Row rows[] = { TYPES(ROW) };
    template <int K> void m(Rng& r) {
        static const char* ks[] = {"integers", "floats", "write"};
        std::size_t n = sizeof rows / sizeof *rows; auto& o = rows[K == 1 && r.chance(3, 4) ? n - 1 - r.below(3) : r.below(n)];
        mon::site(std::string(ks[K]) + " cbor " + o.n); o.f[K](r);
    }
    void m_half(Rng& r) { mon::site("half"); auto i = mon::st().idx; chalf<float>(i, r); chalf<double>(i, r); chalf<long double>(i, r); }
#endif

}

int main(int argc, char** argv) {
#   if FMT == 0
        static const mon::Mode ms[] = {{"read", m<0>}, {"write", m<1>}, {"grammar", m<2>}, {"limit", m<3>}};
#   else
        static const mon::Mode ms[] = {{"integers", m<0>}, {"floats", m<1>}, {"write", m<2>}, {"half", m_half}};
#   endif
    return mon::run(argc, argv, ms);
}
