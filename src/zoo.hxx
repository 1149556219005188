// Type zoo: for every supported type how to generate a value, compare two values and
// what data the value denotes in each format (the documented shape). C++11.
#ifndef ZOO_HXX_
#define ZOO_HXX_

#include "ref.hxx"
#include <memory>
#include <type_traits>
#include <limits>

namespace zoo {

    using ref::V; using ref::i128; using mon::Rng;

    enum Fmt { J, C };

    // expectation: a V with looseness
    enum Flag : unsigned { UNORD = 1, PAD = 2, DEDUP = 4, NULPAD = 8, BITS = 16, CSTR = 32, MULTI = 64, WRAP = 128 };
    struct X {
        V v;                    // leaf or kind
        unsigned f = 0;
        int fw = 8;             // float width: 4, 8, 16
        long double ld = 0;     // value of a float
        std::vector<X> a;       // Arr, Map (k v k v ..)
        bool key = false;       // non-string JSON key, rendered within quotes
        X() {}
        X(V v) : v(std::move(v)) {}
    };
    inline X xarr() { return X(V::arr()); }
    inline X xmap() { return X(V::map()); }
    inline X xreal(long double d, int w) { X x(V::real(double(d))); x.ld = d; x.fw = w; return x; }
    inline std::string show(const X& x) {
        std::string s;
        if (x.v.k == V::Arr || x.v.k == V::Map) {
            s = x.v.k == V::Arr ? "[" : "{";
            for (std::size_t i = 0; i < x.a.size(); ++i) s += (i ? ", " : "") + show(x.a[i]);
            return s + (x.v.k == V::Arr ? "]" : "}");
        }
        if (x.v.k == V::Real) { char b[64]; std::snprintf(b, sizeof b, "r%.21Lg", x.ld); return b; }
        return ref::show(x.v);
    }

    inline bool real_lexeme_is(const std::string& s, long double d, int w) {
        char* e;
        if (w == 4)  { float f = std::strtof(s.c_str(), &e); return *e == 0 && f == float(d) && std::signbit(f) == std::signbit(d); }
        if (w == 8)  { double f = std::strtod(s.c_str(), &e); return *e == 0 && f == double(d) && std::signbit(f) == std::signbit(d); }
        long double f = std::strtold(s.c_str(), &e); return *e == 0 && f == d && std::signbit(f) == std::signbit(d);
    }
    inline bool nonfin(const std::string& s, long double d) {
        return d != d ? s == "nan" || s == "-nan" : s == (d < 0 ? "-inf" : "inf");
    }

    // a key that is not a string: its text, with the characters of strings as they are
    inline bool within(const X& x, const char*& p, const char* e) {
        auto lit = [&](const std::string& t) { if (std::size_t(e - p) < t.size() || std::memcmp(p, t.data(), t.size()) != 0) return false; p += t.size(); return true; };
        switch (x.v.k) {
            case V::Null: return lit("null");
            case V::Bool: return lit(x.v.b ? "true" : "false");
            case V::Int: return lit(ref::i2s(x.v.i));
            case V::Real: { const char* b = p; while (p != e && std::strchr("+-.0123456789eEinfa", *p)) ++p; std::string t(b, p); return std::isfinite(x.ld) ? real_lexeme_is(t, x.ld, x.fw) : nonfin(t, x.ld); }
            case V::Str: return lit("\"" + x.v.s + "\"");
            case V::Arr: case V::Map: {
                bool const m = x.v.k == V::Map;
                if (!lit(m ? "{" : "[")) return false;
                for (std::size_t i = 0; i < x.a.size(); ++i) { if (i && !lit(m && i % 2 ? ":" : ",")) return false; if (!within(x.a[i], p, e)) return false; }
                return lit(m ? "}" : "]"); }
            default: return false;
        }
    }
    inline void within_text(Rng& r, const X& x, std::string& s) {
        char b[64];
        switch (x.v.k) {
            case V::Null: s += "null"; break;
            case V::Bool: s += x.v.b ? "true" : "false"; break;
            case V::Int: s += ref::i2s(x.v.i); break;
            case V::Real: if (!std::isfinite(x.ld)) s += x.ld != x.ld ? "nan" : x.ld < 0 ? "-inf" : "inf"; else std::snprintf(b, sizeof b, "%.*Lg", x.fw == 4 ? 9 : x.fw == 8 ? 17 : 21, x.ld), s += b; break;
            case V::Str:
                s += "\\\"";
                for (auto u : ref::utf32(x.v.s)) {
                    if (u == '\\') s += "\\\\";
                    else if (u == '"' || u < 0x20 || (u < 0x80 && r.chance(1, 16))) std::snprintf(b, sizeof b, "\\u%04x", unsigned(u)), s += b;
                    else ref::utf8_put(s, u);
                }
                s += "\\\""; break;
            case V::Arr: case V::Map: {
                bool const m = x.v.k == V::Map; s += m ? '{' : '[';
                for (std::size_t i = 0; i < x.a.size(); ++i) { if (i) s += m && i % 2 ? ':' : ','; if (r.chance(1, 8)) s += ' '; within_text(r, x.a[i], s); if (r.chance(1, 8)) s += ' '; }
                s += m ? '}' : ']'; break; }
            default: break;
        }
    }

    // what was written (got) denotes exactly x
    inline bool denotes(const X& x, const V& g, Fmt fmt) {
        if (x.key) { // rendered as text within quotes
            if (g.k == V::Arr || g.k == V::Map) { X y = x; y.key = false; return denotes(y, g, fmt); } // not quoted
            if (g.k != V::Str) return false;
            if (x.v.k == V::Real && !std::isfinite(x.ld)) return nonfin(g.s, x.ld);
            if (x.v.k == V::Arr || x.v.k == V::Map) { const char *p = g.s.data(), *e = p + g.s.size(); return within(x, p, e) && p == e; }
            V w; ref::Json j(g.s.data(), g.s.data() + g.s.size());
            if (!j.value(w) || j.p != j.e) return false;
            X y = x; y.key = false;
            return denotes(y, w, fmt);
        }
        switch (x.v.k) {
            case V::Real:
                if (fmt == J) {
                    if (!std::isfinite(x.ld)) return g.k == V::Str && nonfin(g.s, x.ld);
                    return (g.k == V::Real || g.k == V::Int) && real_lexeme_is(g.s, x.ld, x.fw);
                }
                return g.k == V::Real && ref::same_real(double(x.ld), g.r);
            case V::Arr:
                if (g.k != V::Arr || g.a.size() != x.a.size()) return false;
                if (x.f & UNORD) {
                    std::vector<char> u(g.a.size(), 0);
                    for (auto& e : x.a) {
                        bool f = false;
                        for (std::size_t j = 0; j < g.a.size() && !f; ++j) if (!u[j] && denotes(e, g.a[j], fmt)) u[j] = 1, f = true;
                        if (!f) return false;
                    }
                    return true;
                }
                for (std::size_t i = 0; i < x.a.size(); ++i) if (!denotes(x.a[i], g.a[i], fmt)) return false;
                return true;
            case V::Map: {
                if (g.k != V::Map || g.a.size() != x.a.size()) return false;
                if (!(x.f & UNORD)) {
                    for (std::size_t i = 0; i < x.a.size(); ++i) if (!denotes(x.a[i], g.a[i], fmt)) return false;
                    return true;
                }
                std::vector<char> u(g.pairs(), 0);
                for (std::size_t i = 0; i < x.a.size(); i += 2) {
                    bool f = false;
                    for (std::size_t j = 0; j < g.a.size() && !f; j += 2) if (!u[j / 2] && denotes(x.a[i], g.a[j], fmt) && denotes(x.a[i + 1], g.a[j + 1], fmt)) u[j / 2] = 1, f = true;
                    if (!f) return false;
                }
                return true;
            }
            default: return ref::same(x.v, g, true);
        }
    }

    inline const V& untag(const V& v) { const V* p = &v; while (p->k == V::Tag) p = &p->a[0]; return *p; }

    inline bool nonfin_any(std::string s, long double d) { // any case, infinity for inf
        for (auto& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32);
        if (s == "infinity") s = "inf";
        if (s == "-infinity") s = "-inf";
        return nonfin(s, d);
    }
    inline std::string nulstrip(std::string s) { while (!s.empty() && s.back() == '\0') s.pop_back(); return s; }

    // the data of a document (in) is all there in what was read (x), nothing else is
    inline bool carried(const V& in_, const X& x, Fmt fmt) {
        const V& in = untag(in_);
        if (x.key && in.k == V::Str) { // a key such as "1" read as a number
            if (x.v.k == V::Real && !std::isfinite(x.ld)) return nonfin_any(in.s, x.ld);
            if (x.v.k == V::Arr || x.v.k == V::Map) { // a notation within the notation
                V w; ref::Json j(in.s.data(), in.s.data() + in.s.size());
                if (in.s.find('"') != std::string::npos || !j.value(w) || (j.ws(), j.p != j.e)) return true; // see rt
                X y = x; y.key = false;
                return carried(w, y, fmt);
            }
            V w; ref::Json j(in.s.data(), in.s.data() + in.s.size());
            if (!j.value(w) || (j.ws(), j.p != j.e)) { // numbers outside of the grammar (leading zeros, no digits before or after the point) are accepted
                if (in.s.empty() || in.s.find_first_not_of("0123456789-+.eE") != std::string::npos) return false;
                if (in.s.find_first_of("+.eE") == std::string::npos) {
                    std::size_t n = in.s[0] == '-'; i128 v = 0;
                    if (n == in.s.size() || in.s.size() > 36) return false;
                    for (std::size_t i = n; i != in.s.size(); ++i) { if (in.s[i] == '-') return false; v = v * 10 + (in.s[i] - '0'); }
                    w = V::integer(n ? -v : v);
                }
                else w = V::real(std::strtod(in.s.c_str(), nullptr)), w.s = in.s;
            }
            X y = x; y.key = false;
            return carried(w, y, fmt);
        }
        switch (x.v.k) {
            case V::Real: {
                if (in.k == V::Str) return fmt == J && !std::isfinite(x.ld) && nonfin_any(in.s, x.ld);
                if (in.k == V::Int || in.k == V::Real) {
                    if (fmt == J) { if (x.ld == 0 && (in.k == V::Int ? in.i == 0 : in.r == 0)) return true; return real_lexeme_is(in.s.empty() ? (in.k == V::Int ? ref::i2s(in.i) : ref::d2s(in.r)) : in.s, x.ld, x.fw); }
                    if (in.k == V::Real) return x.fw == 4 ? ref::same_real(double(float(in.r)), double(x.ld)) : ref::same_real(in.r, double(x.ld));
                    long double e = in.i; // exact up to 64 bits
                    return x.fw == 4 ? float(in.i) == float(x.ld) : x.fw == 8 ? double(in.i) == double(x.ld) : e == x.ld;
                }
                return false;
            }
            case V::Str:
                if (fmt == C && in.k == V::Arr) { // characters given one by one
                    V w = V::str("");
                    for (auto& e_ : in.a) { auto& e = untag(e_); if (e.k != V::Int || e.i < -128 || e.i > 255) return false; w.s += char(int(e.i)); }
                    return carried(w, x, fmt);
                }
                if (in.k != V::Str && !(fmt == C && in.k == V::Bytes)) return false;
                if (x.f & CSTR) return std::strcmp(x.v.s.c_str(), in.s.c_str()) == 0;
                if (x.f & NULPAD) return nulstrip(x.v.s) == nulstrip(in.s);
                return x.v.s == in.s;
            case V::Bytes:
                if (x.f & (DEDUP | UNORD)) { // sets of octets
                    std::string i, o = x.v.s;
                    if (in.k == V::Arr) for (auto& e_ : in.a) { auto& e = untag(e_); if (e.k != V::Int || e.i < -128 || e.i > 255) return false; i += char(int(e.i)); }
                    else if (in.k == V::Bytes || in.k == V::Str) i = in.s;
                    else return false;
                    std::sort(i.begin(), i.end()); std::sort(o.begin(), o.end());
                    if (x.f & DEDUP) i.erase(std::unique(i.begin(), i.end()), i.end());
                    return i == o;
                }
                if (in.k == V::Arr) { // octets given one by one
                    if (in.a.size() > x.v.s.size()) return false;
                    for (std::size_t i = 0; i < in.a.size(); ++i) { auto& e = untag(in.a[i]); if (e.k != V::Int || e.i < -128 || e.i > 255 || (unsigned char)x.v.s[i] != (unsigned char)(long long)e.i) return false; }
                    return in.a.size() == x.v.s.size() || (x.f & NULPAD);
                }
                if (in.k != V::Bytes && in.k != V::Str) return false;
                if (x.f & BITS) { // unused bits do not count
                    if (in.s.size() != x.v.s.size()) return false;
                    for (std::size_t i = 0; i < in.s.size(); ++i) { unsigned m = 0xFF; if (i == 1) m = 0xFFu >> (unsigned char)x.v.s[0]; if (((in.s[i] ^ x.v.s[i]) & m) != 0) return false; }
                    return true;
                }
                if (x.f & NULPAD) return nulstrip(x.v.s) == nulstrip(in.s);
                return x.v.s == in.s;
            case V::Arr: {
                if (fmt == C && (in.k == V::Bytes || in.k == V::Str)) { // a byte string read as an array of numbers
                    if (in.s.size() == x.a.size() && !x.a.empty() && x.a[0].v.k == V::Arr) { // types constructible from numbers (variants)
                        for (std::size_t i = 0; i < in.s.size(); ++i) if (x.a[i].a.size() != 2 || !carried(V::integer((unsigned char)in.s[i]), x.a[i].a[1], fmt)) return false;
                        return true;
                    }
                    V w = V::arr(); for (char c : in.s) w.a.push_back(V::integer((unsigned char)c));
                    return carried(w, x, fmt);
                }
                if (in.k != V::Arr) return false;
                if (x.f & CSTR) { // up to the terminator
                    for (std::size_t i = 0; i < x.a.size(); ++i) {
                        bool z = i >= in.a.size() || (untag(in.a[i]).k == V::Int && untag(in.a[i]).i == 0);
                        if (x.a[i].v.i == 0 || z) return z && x.a[i].v.i == 0;
                        if (!carried(in.a[i], x.a[i], fmt)) return false;
                    }
                    return false;
                }
                if (x.f & DEDUP) {
                    for (auto& e : in.a) { bool f = false; for (auto& y : x.a) f = f || carried(e, y, fmt); if (!f) return false; }
                    return x.a.size() <= in.a.size();
                }
                if (x.f & UNORD) {
                    if (in.a.size() != x.a.size()) return false;
                    std::vector<char> u(in.a.size(), 0);
                    for (auto& y : x.a) { bool f = false; for (std::size_t j = 0; j < in.a.size() && !f; ++j) if (!u[j] && carried(in.a[j], y, fmt)) u[j] = 1, f = true; if (!f) return false; }
                    return true;
                }
                if (in.a.size() > x.a.size() || (in.a.size() != x.a.size() && !(x.f & PAD))) return false;
                for (std::size_t i = 0; i < in.a.size(); ++i) if (!carried(in.a[i], x.a[i], fmt)) return false;
                return true;
            }
            case V::Map: {
                if (in.k != V::Map) return false;
                for (std::size_t i = 0; i < in.a.size(); i += 2) for (std::size_t j = 0; j < i; j += 2) if (ref::same(untag(in.a[i]), untag(in.a[j]))) { if (!(x.f & MULTI)) return true; } // repeated keys
                if ((x.f & MULTI) ? in.a.size() != x.a.size() : in.a.size() < x.a.size()) return false;
                std::vector<char> u(x.a.size(), 0);
                for (std::size_t i = 0; i < in.a.size(); i += 2) {
                    bool f = false;
                    for (std::size_t j = 0; j < x.a.size() && !f; j += 2) if (!u[j] && carried(in.a[i], x.a[j], fmt)) { if (carried(in.a[i + 1], x.a[j + 1], fmt)) f = true, u[j] = 1; }
                    if (!f) return !(x.f & MULTI) && x.a.size() < in.a.size() && [&] { // equal keys spelled differently ("1", "1.0")
                        std::size_t n = 0; for (std::size_t j = 0; j < in.a.size(); j += 2) for (std::size_t k = 0; k < x.a.size(); k += 2) if (carried(in.a[j], x.a[k], fmt)) { ++n; break; }
                        return n * 2 == in.a.size(); }();
                }
                return true;
            }
            case V::Int:
                if (fmt == J && in.k == V::Str && x.key) return false;
                if (in.k == V::Int && (x.f & WRAP) && in.i != x.v.i) { // an octet or a character may be given signed or unsigned
                    i128 m = i128(1) << (8 * x.fw);
                    return in.i >= -m / 2 && in.i < m && (in.i - x.v.i) % m == 0;
                }
                return in.k == V::Int && in.i == x.v.i;
            default: return ref::same(x.v, in, true);
        }
    }

    // ------------------------------------------------------------ Z

    template <typename T, typename E = void> struct Z;
    // static void gen(T&, Rng&, unsigned d); static bool eq(const T&, const T&); static X x(const T&, Fmt); static void clear(T&);

    template <typename T> struct base { static void clear(T&) {} };

    template <typename T> X key(const T& t, Fmt f) { X x = Z<T>::x(t, f); if (f == J && x.v.k != V::Str) x.key = true; return x; }

    template <> struct Z<std::nullptr_t> : base<std::nullptr_t> {
        static void gen(std::nullptr_t& t, Rng&, unsigned) { t = nullptr; }
        static bool eq(const std::nullptr_t&, const std::nullptr_t&) { return true; }
        static X x(const std::nullptr_t&, Fmt) { return V::null(); }
    };
    template <> struct Z<bool> : base<bool> {
        static void gen(bool& t, Rng& r, unsigned) { t = r.chance(1, 2); }
        static bool eq(bool a, bool b) { return a == b; }
        static X x(bool t, Fmt) { return V::boolean(t); }
    };

    template <typename T> struct is_chr : std::integral_constant<bool,
        std::is_same<T, char>::value || std::is_same<T, wchar_t>::value || std::is_same<T, char16_t>::value || std::is_same<T, char32_t>::value
#       if defined(__cpp_char8_t)
            || std::is_same<T, char8_t>::value
#       endif
    > {};

    template <typename T>
        struct Z<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value && !is_chr<T>::value>::type> : base<T> {
            static void gen(T& t, Rng& r, unsigned) {
                switch (r.below(6)) {
                    case 0: t = std::numeric_limits<T>::max(); break;
                    case 1: t = std::numeric_limits<T>::min(); break;
                    default: t = T(r.bits()); if (r.chance(1, 2)) t = T(-1 - t); break;
                }
            }
            static bool eq(T a, T b) { return a == b; }
            static X x(T t, Fmt) { X x(V::integer(i128(t))); if (std::is_same<T, signed char>::value) x.f |= WRAP, x.fw = 1; return x; }
        };
    template <typename T>
        struct Z<T, typename std::enable_if<std::is_floating_point<T>::value>::type> : base<T> {
            static void gen(T& t, Rng& r, unsigned) {
                switch (r.below(12)) {
                    case 0: t = std::numeric_limits<T>::infinity(); break;
                    case 1: t = -std::numeric_limits<T>::infinity(); break;
                    case 2: t = std::numeric_limits<T>::quiet_NaN(); break;
                    case 3: t = std::numeric_limits<T>::max(); break;
                    case 4: t = std::numeric_limits<T>::min(); break;
                    default: t = T(ref::gen_double(r)); if (!std::isfinite(t)) t = T(1.25); if (t != 0 && std::fabs(t) < std::numeric_limits<T>::min()) t = T(0.375); break;
                }
                if (r.chance(1, 12)) t = std::numeric_limits<T>::lowest();
                if (sizeof(T) == 4 && r.chance(1, 3)) { std::uint32_t u = std::uint32_t(r.next()); float f; std::memcpy(&f, &u, 4); if (std::isfinite(f) && (f == 0 || std::fabs(f) >= std::numeric_limits<float>::min())) t = T(f); }
                if (sizeof(T) == 16) t = T(double(t)); // written as a double in CBOR
                if (sizeof(T) == 16 && !std::isfinite(double(t)) && std::isfinite(t)) t = T(1.5);
            }
            static bool eq(T a, T b) { return a != a ? b != b : a == b && std::signbit(a) == std::signbit(b); }
            static X x(T t, Fmt) { return xreal(t, int(sizeof(T))); }
        };

    template <typename T> std::uint32_t code(T c) { return std::uint32_t(typename std::make_unsigned<T>::type(c)); }
#   if defined(__cpp_char8_t)
        inline std::uint32_t code(char8_t c) { return c; }
#   endif

    template <typename T>
        struct Z<T, typename std::enable_if<is_chr<T>::value>::type> : base<T> {
            static void gen(T& t, Rng& r, unsigned) {
                std::uint32_t c;
                do c = ref::gen_cp(r); while (sizeof(T) == 1 ? c > 0x7F : sizeof(T) == 2 ? c > 0xFFFF : false);
                t = T(c);
            }
            static bool eq(T a, T b) { return a == b; }
            static X x(T t, Fmt f) { if (f == J) return V::str(ref::utf8(code(t))); X x(V::integer(code(t))); x.f |= WRAP; x.fw = sizeof(T); return x; }
        };

    // strings

    template <typename T> std::string to_utf8(const T* b, const T* e) {
        if (sizeof(T) == 1) { std::string s; for (; b != e; ++b) s += char(*b); return s; }
        std::string s;
        for (; b != e; ++b) {
            std::uint32_t c = code(*b);
            if (sizeof(T) == 2 && c >= 0xD800 && c <= 0xDBFF && b + 1 != e && code(b[1]) >= 0xDC00 && code(b[1]) <= 0xDFFF) { ++b; c = 0x10000 + ((c - 0xD800) << 10) + (code(*b) - 0xDC00); }
            ref::utf8_put(s, c);
        }
        return s;
    }
    template <typename S> void from_utf8(const std::string& u, S& s) { // any push_back
        using T = typename S::value_type;
        if (sizeof(T) == 1) { for (char c : u) s.push_back(T(c)); return; }
        for (auto c : ref::utf32(u)) {
            if (sizeof(T) == 2 && c > 0xFFFF) { s.push_back(T(0xD800 + ((c - 0x10000) >> 10))); s.push_back(T(0xDC00 + ((c - 0x10000) & 0x3FF))); }
            else s.push_back(T(c));
        }
    }
    template <typename T> X text(const T* b, const T* e, Fmt f) {
        if (f == J || sizeof(T) == 1) return V::str(to_utf8(b, e));
        X x = xarr(); for (; b != e; ++b) { X y(V::integer(code(*b))); y.f |= WRAP; y.fw = int(sizeof(T)); x.a.push_back(y); } return x;
    }
    template <typename S> struct ZString : base<S> {
        static void gen(S& t, Rng& r, unsigned d) { t = S(); from_utf8(ref::gen_text(r, d > 2 ? 300 : 24), t); }
        static bool eq(const S& a, const S& b) { return a == b; }
        static X x(const S& t, Fmt f) { return text(t.data(), t.data() + t.size(), f); }
    };
    template <typename T, typename A> struct Z<std::basic_string<T, std::char_traits<T>, A>> : ZString<std::basic_string<T, std::char_traits<T>, A>> {};

    // character arrays
    template <typename T, std::size_t N>
        struct Z<T[N], typename std::enable_if<is_chr<T>::value>::type> {
            static void clear(T(&)[N]) {}
            static void gen(T(&t)[N], Rng& r, unsigned) {
                std::basic_string<T> s;
                do { s.clear(); from_utf8(ref::gen_text(r, N), s); } while (s.size() > N);
                for (std::size_t i = 0; i < N; ++i) t[i] = i < s.size() ? s[i] : T(0);
            }
            static bool eq(const T(&a)[N], const T(&b)[N]) { return std::equal(a, a + N, b); }
            static X x(const T(&t)[N], Fmt f) { auto n = N; if (f == J && t[N - 1] == T(0)) --n; X x = text(t, t + n, f); x.f |= NULPAD | PAD; return x; }
        };

    // sequences: S::value_type, iteration and push_back
    template <typename T, bool Oct = sizeof(T) == 1 && !std::is_same<T, bool>::value> struct seq_x {
        template <typename S> static X x(const S& s, Fmt f) { X x = xarr(); for (auto i = s.begin(); i != s.end(); ++i) x.a.push_back(Z<T>::x(*i, f)); return x; }
    };
    template <typename T> struct seq_x<T, true> { // CBOR strings
        template <typename S> static X x(const S& s, Fmt f) {
            if (f == J) { X x = xarr(); for (auto i = s.begin(); i != s.end(); ++i) x.a.push_back(Z<T>::x(*i, f)); return x; }
            V v = is_chr<T>::value ? V::str("") : V::bytes(""); for (auto i = s.begin(); i != s.end(); ++i) v.s += char(*i); return v;
        }
    };
    template <typename S, typename F> void fill(S& s, Rng& r, unsigned d, F push, std::size_t max = 300) {
        std::size_t n = d ? (r.chance(1, 10) ? r.len(max) : r.below(6)) : r.below(3);
        if (n > max) n = max;
        for (; n; --n) push(s);
    }
    template <typename S> struct ZSeq : base<S> {
        using T = typename S::value_type;
        static void gen(S& t, Rng& r, unsigned d) { t = S(); fill(t, r, d, [&](S& s) { T x{}; Z<T>::gen(x, r, d ? d - 1 : 0); s.push_back(std::move(x)); }); }
        static bool eq(const S& a, const S& b) {
            auto i = a.begin(); auto j = b.begin();
            for (; i != a.end() && j != b.end(); ++i, ++j) if (!Z<T>::eq(*i, *j)) return false;
            return i == a.end() && j == b.end();
        }
        static X x(const S& t, Fmt f) { return seq_x<T>::x(t, f); }
        static void clear(S& s) { for (auto i = s.begin(); i != s.end(); ++i) clear_(*i); }
        template <typename U> static void clear_(U&& u) { Z<typename std::decay<U>::type>::clear(u); }
    };
    template <typename S> struct ZFwd : ZSeq<S> { // insert at the front, reversed order does not matter
        using T = typename S::value_type;
        static void gen(S& t, Rng& r, unsigned d) { t = S(); fill(t, r, d, [&](S& s) { T x{}; Z<T>::gen(x, r, d ? d - 1 : 0); s.push_front(std::move(x)); }); }
    };
    template <typename S, unsigned F = 0> struct ZSet : base<S> {
        using T = typename S::value_type;
        static void gen(S& t, Rng& r, unsigned d) { t = S(); fill(t, r, d, [&](S& s) { T x{}; Z<T>::gen(x, r, d ? d - 1 : 0); if (Z<T>::eq(x, x) && ok(x)) s.insert(std::move(x)); }, 80); }
        template <typename U> static typename std::enable_if<std::is_floating_point<U>::value, bool>::type ok(const U& u) { return u == u; }
        template <typename U> static typename std::enable_if<!std::is_floating_point<U>::value, bool>::type ok(const U&) { return true; }
        static bool eq(const S& a, const S& b) { return a == b || (std::is_floating_point<T>::value && ZSeq<S>::eq(a, b)); }
        static X x(const S& t, Fmt f) { X x = xs(t, f); x.f |= F; return x; }
        static X xs(const S& t, Fmt f) { return seq_x<T>::x(t, f); }
    };
    inline bool has_nan(const X& x) { if (x.v.k == V::Real && x.ld != x.ld) return true; for (auto& y : x.a) if (has_nan(y)) return true; return false; }
    template <typename M, unsigned F = 0> struct ZMap : base<M> {
        using K = typename M::key_type; using T = typename M::mapped_type;
        static void gen(M& t, Rng& r, unsigned d) { t = M(); fill(t, r, d, [&](M& m) { K k{}; Z<K>::gen(k, r, d ? d - 1 : 0); T x{}; Z<T>::gen(x, r, d ? d - 1 : 0); if (okk(k)) m.emplace(std::move(k), std::move(x)); }, 60); }
        template <typename U> static typename std::enable_if<std::is_floating_point<U>::value, bool>::type okk(const U& u) { return u == u; }
        template <typename U> static typename std::enable_if<!std::is_floating_point<U>::value, bool>::type okk(const U& u) { return !has_nan(Z<U>::x(u, J)); }
        static bool eq(const M& a, const M& b) {
            if (a.size() != b.size()) return false;
            if (F & UNORD) { // pairs matched up
                std::vector<typename M::const_iterator> u; for (auto i = b.begin(); i != b.end(); ++i) u.push_back(i);
                for (auto i = a.begin(); i != a.end(); ++i) {
                    bool f = false;
                    for (std::size_t j = 0; j < u.size() && !f; ++j) if (u[j] != b.end() && Z<K>::eq(i->first, u[j]->first) && Z<T>::eq(i->second, u[j]->second)) u[j] = b.end(), f = true;
                    if (!f) return false;
                }
                return true;
            }
            auto j = b.begin();
            for (auto i = a.begin(); i != a.end(); ++i, ++j) if (!Z<K>::eq(i->first, j->first) || !Z<T>::eq(i->second, j->second)) return false;
            return true;
        }
        static X x(const M& t, Fmt f) { X x = xmap(); x.f |= F; for (auto i = t.begin(); i != t.end(); ++i) x.a.push_back(key(i->first, f)), x.a.push_back(Z<T>::x(i->second, f)); return x; }
        static void clear(M& m) { for (auto i = m.begin(); i != m.end(); ++i) Z<T>::clear(i->second); }
    };

    // arrays
    template <typename T, std::size_t N>
        struct Z<T[N], typename std::enable_if<!is_chr<T>::value>::type> {
            static void clear(T(&t)[N]) { for (auto& x : t) Z<T>::clear(x); }
            static void gen(T(&t)[N], Rng& r, unsigned d) { for (auto& x : t) Z<T>::gen(x, r, d ? d - 1 : 0); }
            static bool eq(const T(&a)[N], const T(&b)[N]) { for (std::size_t i = 0; i < N; ++i) if (!Z<T>::eq(a[i], b[i])) return false; return true; }
            struct range { const T *b, *e; const T* begin() const { return b; } const T* end() const { return e; } };
            static X x(const T(&t)[N], Fmt f) { X x = seq_x<T>::x(range{t, t + N}, f); x.f |= PAD | NULPAD; return x; }
        };

    // pointers
    template <typename T> struct Z<T*, typename std::enable_if<!is_chr<typename std::remove_cv<T>::type>::value>::type> {
        static void clear(T*& t) { if (t) Z<T>::clear(*t), t->~T(), ::operator delete(t), t = nullptr; }
        static void gen(T*& t, Rng& r, unsigned d) { clear(t); if (r.chance(3, 4)) { t = ::new (::operator new(sizeof(T))) T(); Z<T>::gen(*t, r, d ? d - 1 : 0); } }
        static bool eq(T* const& a, T* const& b) { return a && b ? Z<T>::eq(*a, *b) : !a && !b; }
        static X x(T* const& t, Fmt f) { return t ? Z<T>::x(*t, f) : X(V::null()); }
    };
    template <typename T> struct Z<const T*, typename std::enable_if<is_chr<T>::value>::type> {
        static void clear(const T*& t) { ::operator delete(const_cast<T*>(t)); t = nullptr; }
        static void gen(const T*& t, Rng& r, unsigned d) {
            clear(t);
            if (r.chance(1, 8)) return;
            std::basic_string<T> s; Z<std::basic_string<T>>::gen(s, r, d);
            s.erase(std::remove(s.begin(), s.end(), T(0)), s.end());
            T* p = static_cast<T*>(::operator new((s.size() + 1) * sizeof(T)));
            for (std::size_t i = 0; i <= s.size(); ++i) p[i] = i < s.size() ? s[i] : T(0);
            t = p;
        }
        static std::size_t len(const T* t) { std::size_t n = 0; while (t[n] != T(0)) ++n; return n; }
        static bool eq(const T* const& a, const T* const& b) { if (!a || !b) return !a && !b; auto n = len(a); return n == len(b) && std::equal(a, a + n, b); }
        static X x(const T* const& t, Fmt f) { if (!t) return V::null(); X x = text(t, t + len(t) + (f == C), f); x.f |= CSTR; return x; }
    };

} // zoo

#endif // ZOO_HXX_
