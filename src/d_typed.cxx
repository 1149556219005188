// Typed reading and writing: every type of the zoo, one format (FMT 0 - JSON, 1 - CBOR), one GROUP of types,
// PART 0 - pointer ranges, 1 - other kinds of iterators, 2 - allocations accounted for and made to fail.
// Oracles: the reference parser/decoder (ref.hxx), the documented shape of each type (zoo*.hxx), checked ranges.
#if !defined(FMT)
#   define FMT 0
#endif
#if !defined(PART)
#   define PART 0
#endif
#if PART == 2
#   define MON_LEDGER 1
#endif
#include "types.hxx"
#include <list>
#include <valarray>

#if FMT == 0
#   include "strict.hxx"
    static const zoo::Fmt fmt = zoo::J;
#else
    typedef cxon::CBOR<> F;
    static const zoo::Fmt fmt = zoo::C;
#endif

using namespace zoo;
using mon::viol;

namespace {

    template <typename T> struct Box {
        T t;
        Box() : t() {}
        ~Box() { Z<T>::clear(t); }
        Box(const Box&) = delete;
    };

    // data of an expectation, to be spelled out in any way
    V value(const X& x, Rng& r) {
        V v = x.v; v.a.clear();
        if (x.v.k == V::Real) {
            v.r = double(x.ld);
            if (fmt == J) {
                if (!std::isfinite(x.ld)) v = V::str(x.ld != x.ld ? "nan" : x.ld < 0 ? "-inf" : "inf");
                else { char b[64]; std::snprintf(b, sizeof b, "%.*Lg", x.fw == 4 ? 9 : x.fw == 8 ? 17 : 21, x.ld); v.s = b; V w; ref::Json j(b, b + std::strlen(b)); j.value(w); v = w; }
            }
        }
        if (x.key && (v.k == V::Arr || v.k == V::Map)) { v = V::str(""); v.tag = ref::VERBATIM; within_text(r, x, v.s); return v; }
        for (auto& y : x.a) v.a.push_back(value(y, r));
        if (x.key && v.k != V::Str) { std::string s; Rng q(1); ref::json_text(q, ref::JsonSpell(), v, s); v = V::str(s); if (r.chance(7, 8)) v.tag = ref::VERBATIM; }
        return v;
    }
    std::string spell(const V& v, Rng& r, bool plain) {
        std::string s;
#       if FMT == 0
            ref::json_text(r, plain ? ref::JsonSpell() : ref::JsonSpell(unsigned(r.below(4)), unsigned(r.below(6))), v, s);
#       else
            ref::cbor_text(r, plain ? ref::CborSpell() : ref::CborSpell(unsigned(r.below(5)), unsigned(r.below(5)), r.chance(1, 2)), v, s);
#       endif
        return s;
    }
    bool parse(const std::string& s, V& v) {
#       if FMT == 0
            return ref::json_parse(s, v);
#       else
            return ref::cbor_parse(s, v);
#       endif
    }
    V gen_any(Rng& r, unsigned d) {
#       if FMT == 0
            return ref::gen_json(r, d);
#       else
            return ref::gen_cbor(r, d, true);
#       endif
    }
    void restructure(V& v, Rng& r) { // more, fewer, other elements
        if (v.a.empty() || r.chance(1, 3)) {
            switch (r.below(6)) {
                case 0: v = gen_any(r, 1); return;
                case 1: { V w = V::arr(); w.a.push_back(v); v = w; return; }
                case 2: if (fmt == C) { V w = V::tagged(r.bits(), v); v = w; return; } v = V::null(); return;
                case 3:
                    if (v.k == V::Str || v.k == V::Bytes) { if (r.chance(1, 2)) v.s += r.chance(1, 2) ? "0" : "1"; else v.s = v.s.substr(0, v.s.size() / 2); if (v.k == V::Str && !ref::utf8_valid(v.s)) v.s = "x"; }
                    else if (v.k == V::Int) v = V::integer(v.i + (r.chance(1, 2) ? 1 : 256));
                    else if (v.k == V::Arr) v.a.push_back(gen_any(r, 1));
                    return;
                case 4: v = V::integer(i128(r.bits())); return;
                default: v = r.chance(1, 2) ? V::null() : V::str(""); return;
            }
        }
        std::size_t i = r.below(v.a.size()), st = v.k == V::Map ? 2 : 1; i -= i % st;
        if (v.k == V::Tag) { restructure(v.a[0], r); return; }
        switch (r.below(6)) {
            case 0: for (std::size_t n = 0; n < st; ++n) v.a.erase(v.a.begin() + long(i)); return;
            case 1: { std::vector<V> x(v.a.begin() + long(i), v.a.begin() + long(i + st)); v.a.insert(v.a.end(), x.begin(), x.end()); return; }
            case 2: for (std::size_t n = 1 + r.below(3); n; --n) { if (v.k == V::Map) { v.a.push_back(V::str(ref::gen_text(r, 5))); v.a.push_back(gen_any(r, 1)); } else v.a.push_back(v.a[i]); } return;
            default: restructure(v.a[i + st - 1], r);
        }
    }

    struct Out { // outcome of a read
        bool ok = false; std::size_t end = 0; std::string ec;
    };

    template <typename T> Out read_ptr(T& t, const char* b, const char* e) {
        auto q = cxon::from_bytes<F>(t, b, e);
        Out o; o.ok = bool(q);
        if (q.end < b || q.end > e) { viol("end-outside", "the reported position is outside of the range"); o.end = 0; } else o.end = std::size_t(q.end - b);
        if (o.ok != !q.ec) viol("ec-mismatch", "the result converts to " + std::string(o.ok ? "true" : "false") + " with error " + std::to_string(q.ec.value()));
        if (!o.ok && std::string(q.ec.category().name()).compare(0, 4, "cxon") != 0) viol("ec-category", q.ec.category().name());
        return o;
    }

    template <typename T> std::string written(const T& t, bool& ok) {
        std::string s; ok = bool(cxon::to_bytes<F>(s, t)); return s;
    }

    struct Ops {
        const char* name;
        X (*genx)(Rng&);
        void (*safety)(Rng&, const std::string&);
        void (*stop)(Rng&, const std::string&);
        void (*carry)(Rng&, const V&, const std::string&);
        void (*rt)(Rng&);
        void (*bounded)(Rng&);
        void (*iters)(Rng&, const std::string&);
        void (*seq)(Rng&, const std::string&, const std::string&);
        void (*out)(Rng&);
        void (*leak)(Rng&, const std::string&);
        void (*oomr)(Rng&, const std::string&);
        void (*oomw)(Rng&);
    };

    template <typename T> struct is_fixed : std::integral_constant<bool, std::is_arithmetic<T>::value> {};
    template <std::size_t N> struct is_fixed<std::bitset<N>> : std::true_type {};
    template <typename T> struct is_fixed<std::complex<T>> : std::true_type {};
    template <typename R, typename P> struct is_fixed<std::chrono::duration<R, P>> : std::true_type {};

    // a CBOR array read into a pointer becomes an array followed by a default value: its size cannot be told
    template <typename T> struct sentinel : std::false_type {};
    template <typename T> struct sentinel<T*> : std::integral_constant<bool, fmt == C && !std::is_class<T>::value && !is_chr<typename std::remove_cv<T>::type>::value> {};

    // libstdc++'s std::valarray::resize sets the size before the allocation that may fail, even destruction is undefined then
    template <typename T> struct lib_broken : std::false_type {};
    template <typename T> struct lib_broken<std::valarray<T>> : std::true_type {};

    template <typename T> void dirty(T& t, Rng& r, std::true_type) { if (r.chance(1, 2)) Z<T>::gen(t, r, 2); }
    template <typename T> void dirty(T&, Rng&, std::false_type) {}

    template <typename T> struct impl {
        static X genx(Rng& r) { Box<T> b; Z<T>::gen(b.t, r, 2); return Z<T>::x(b.t, fmt); }

#       if PART == 0
        static void safety(Rng& r, const std::string& s) {
            mon::exact e(s);
            Out o; std::string w; bool wok = false;
            {
                Box<T> b; o = read_ptr(b.t, e.begin(), e.end());
                if (o.ok) { w = written(b.t, wok); mon::count("safety:accepted"); } else mon::count("safety:refused");
            }
            if (r.chance(1, 8)) { // the same again
                Box<T> b; Out p = read_ptr(b.t, e.begin(), e.end());
                if (o.ok != p.ok || o.end != p.end) viol("safety:unstable", "two reads of the same bytes differ");
                if (o.ok) { bool k; auto v = written(b.t, k); if (k != wok || v != w) viol("safety:unstable-value", "two reads of the same bytes give " + mon::clip(w) + " and " + mon::clip(v)); }
            }
            mon::eval(mon::mix(mon::fnv(s), o.ok));
            mon::digest(1, mon::mix(mon::fnv(w), o.ok * 2 + wok));
        }
        static void stop(Rng& r, const std::string& s) {
            mon::exact e(s); Box<T> b;
            Out o = read_ptr(b.t, e.begin(), e.end());
            if (!o.ok) { mon::count("stop:refused"); mon::eval(mon::fnv(s)); return; }
            mon::count(o.end == s.size() ? "stop:whole" : "stop:part");
            { // what follows does not matter
                mon::exact p(s.substr(0, o.end)); Box<T> c;
                Out q = read_ptr(c.t, p.begin(), p.end());
                if (!q.ok || q.end != o.end) viol("stop:prefix", "reading only the bytes said to be consumed (" + std::to_string(o.end) + ") gives " + std::to_string(q.ok) + "/" + std::to_string(q.end));
                else if (!Z<T>::eq(b.t, c.t)) viol("stop:prefix-value", "reading only the bytes said to be consumed gives another value: " + show(Z<T>::x(b.t, fmt)) + " vs " + show(Z<T>::x(c.t, fmt)));
            }
            for (int i = 0; i < 3; ++i) {
                static const char* sf[] = {" ", ",", "]", "}", "\n1", ",2", "]]", "\"", "[1]", "{}", " x", "\xff", "\xff\xff", "null", "\"a\"", "0", "e1", ".5", "\x00", "\x80", "\xf6", "\x61", "\x01", "\xc1"};
                std::string S = r.chance(1, 4) ? std::string(1, char(r.next())) + char(r.next()) : sf[r.below(sizeof sf / sizeof *sf)];
                std::size_t ws = 0; while (ws < o.end && std::strchr(" \t\r\n", s[ws])) ++ws;
                if (fmt == J && ws < o.end && s[ws] != '"' && s[ws] != '[' && s[ws] != '{' && !std::strchr(" \t\r\n,]}\"[{:", S[0])) continue; // could extend a number or a name
                std::string d = s.substr(0, o.end) + S;
                mon::input(d);
                mon::exact p(d); Box<T> c;
                Out q = read_ptr(c.t, p.begin(), p.end());
                if (!q.ok || q.end != o.end) viol("stop:suffix", "followed by " + mon::quote(S) + " the read gives " + std::to_string(q.ok) + "/" + std::to_string(q.end) + " instead of 1/" + std::to_string(o.end) + " " + q.ec);
                else if (!Z<T>::eq(b.t, c.t)) viol("stop:suffix-value", "followed by " + mon::quote(S) + " the value is another one");
                mon::eval(mon::fnv(d));
            }
        }
        static void carry(Rng& r, const V& v, const std::string& s) {
            mon::exact e(s); Box<T> b; dirty(b.t, r, is_fixed<T>());
            Out o = read_ptr(b.t, e.begin(), e.end());
            if (!o.ok || o.end != s.size()) { mon::count(o.ok ? "carried:part" : "carried:refused"); return; }
            auto k = untag(v).k;
            if (sentinel<T>::value && (k == V::Arr || k == V::Str || k == V::Bytes)) { mon::count("carried:array-of-unknown-size"); return; }
            X x = Z<T>::x(b.t, fmt);
            mon::count("carried:accepted");
            mon::eval(mon::fnv(s));
            if (!carried(v, x, fmt)) viol("carried", "read as " + show(x) + " from " + ref::show(v));
        }
        static void rt(Rng& r) {
            Box<T> b; Z<T>::gen(b.t, r, 3);
            bool ok; std::string s = written(b.t, ok); mon::input(s);
            X x = Z<T>::x(b.t, fmt);
            if (!ok) { viol("rt:write", "writing fails: " + show(x)); return; }
            V v;
#           if FMT == 0
                bool good = ref::json_parse(s, v);
#           else
                ref::Cbor c(s.data(), s.size()); bool good = c.item(v) && c.p == c.e;
                if (good && !c.shortest) viol("rt:shortest", "integers or lengths not in shortest form");
                if (good && c.badutf) viol("rt:utf8", "text string is not UTF-8");
#           endif
            if (!good) viol("rt:malformed", "written is malformed: " + show(x));
            else if (!denotes(x, v, fmt)) viol("rt:shape", "written " + ref::show(v) + " for " + show(x));
            mon::exact e(s); Box<T> u;
            Out o = read_ptr(u.t, e.begin(), e.end());
            if (!o.ok) viol("rt:read", "cannot be read back");
            else if (o.end != s.size()) viol("rt:stop", "reading back stops at " + std::to_string(o.end) + " of " + std::to_string(s.size()));
            else if (!Z<T>::eq(b.t, u.t)) viol("rt:value", "reads back as " + show(Z<T>::x(u.t, fmt)) + " instead of " + show(x));
            mon::eval(mon::fnv(s)); mon::sample(fmt == J ? s : mon::hex(s)); mon::count("rt:bytes", s.size());
            mon::digest(2, mon::fnv(s));
        }
        static void bounded(Rng& r) {
            Box<T> b; Z<T>::gen(b.t, r, 2);
            bool ok; std::string s = written(b.t, ok); mon::input(s);
            if (!ok) { viol("bounded:write", "writing to a string fails"); return; }
            { std::string o; auto w = cxon::to_bytes<F>(std::back_inserter(o), b.t); if (!w || o != s) viol("bounded:outit", "through an output iterator: " + mon::clip(o)); }
            { std::vector<char> o; auto w = cxon::to_bytes<F>(o, b.t); if (!w || std::string(o.begin(), o.end()) != s) viol("bounded:vector", "to a vector"); }
            std::vector<std::size_t> n;
            if (s.size() <= 48) for (std::size_t i = 0; i <= s.size() + 1; ++i) n.push_back(i);
            else { for (int i = 0; i < 12; ++i) n.push_back(r.below(s.size())); n.push_back(0); n.push_back(s.size() - 1); n.push_back(s.size()); n.push_back(s.size() + 1 + r.below(9)); }
            for (auto k : n) {
                char* p = static_cast<char*>(std::malloc(k ? k : 1));
                for (std::size_t i = 0; i < k; ++i) p[i] = i < s.size() ? char(~s[i]) : '#';
                auto w = cxon::to_bytes<F>(p, p + k, b.t);
                std::string at = std::to_string(k) + " of " + std::to_string(s.size());
                if (bool(w) != !w.ec) viol("ec-mismatch", "write");
                if (bool(w) != (k >= s.size())) viol(w ? "bounded:false-success" : "bounded:false-failure", at);
                if (!w && !(w.ec == std::error_code(int(FERR), w.ec.category()))) viol("bounded:ec", at + ": " + w.ec.message());
                if (w.end < p || w.end > p + k) viol("bounded:end", at);
                else if (w && std::size_t(w.end - p) != s.size()) viol("bounded:size", at + ": " + std::to_string(w.end - p));
                else if (w && std::memcmp(p, s.data(), s.size()) != 0) viol("bounded:bytes", at);
                bool un = false;
                for (std::size_t i = 0; i < k; ++i) {
                    char f = i < s.size() ? char(~s[i]) : '#';
                    if (p[i] == f) un = true;
                    else if (un || i >= s.size() || p[i] != s[i]) { viol("bounded:prefix", "what is written in a range of " + at + " is not a prefix of the output, at " + std::to_string(i)); break; }
                }
                std::free(p);
                mon::eval(mon::mix(mon::fnv(s), k));
                mon::count(k >= s.size() ? "bounded:fits" : "bounded:short");
            }
        }
#       if FMT == 0
            static constexpr int FERR = int(cxon::json::write_error::output_failure);
#       else
            static constexpr int FERR = int(cxon::cbor::write_error::output_failure);
#       endif
#       elif PART == 1
        static bool may_nan(const std::string& s) { // a NaN may be in
            if (fmt == J) return s.find("nan") != std::string::npos || s.find("NaN") != std::string::npos;
            auto u = [&](std::size_t i) { return i < s.size() ? unsigned((unsigned char)s[i]) : 0; };
            for (std::size_t i = 0; i < s.size(); ++i) {
                if (u(i) == 0xf9 && (u(i + 1) & 0x7c) == 0x7c) return true;
                if (u(i) == 0xfa && (u(i + 1) & 0x7f) == 0x7f && u(i + 2) & 0x80) return true;
                if (u(i) == 0xfb && (u(i + 1) & 0x7f) == 0x7f && (u(i + 2) & 0xf0) == 0xf0) return true;
            }
            return false;
        }
        static bool lenient(const std::string& s) { // numbers (or what could be one) outside of the grammar
            if (fmt == C) return false;
#           if defined(STRICT) // only too long for a buffer
                return long_number(s);
#           endif
            auto num = [](const std::string& t) { V v; ref::Json j(t.data(), t.data() + t.size()); return t.size() <= 28 && j.number(v) && j.p == j.e; };
            for (std::size_t i = 0; i < s.size(); ) {
                if (s[i] == '"') {
                    std::size_t b = ++i; while (i < s.size() && s[i] != '"') i += s[i] == '\\' ? 2 : 1;
                    if (i > s.size()) i = s.size();
                    std::string t = s.substr(b, i - b); ++i;
                    if (!t.empty() && (t[0] == '[' || t[0] == '{')) { std::string u; for (auto c : t) if (c != '\\') u += c; if (lenient(u)) return true; continue; }
                    std::size_t w = t.find_first_not_of(" \t\r\n\v\f"); if (w != std::string::npos) t.erase(0, w);
                    if (!t.empty() && t.find_first_not_of("0123456789+-.eE") == std::string::npos && !num(t)) return true;
                    std::string l = t.substr(0, 4); for (auto& c : l) c = char(c | 32); if (l[0] == '-') l.erase(0, 1); l.resize(3); // c | 32 keeps '-'
                    if ((l == "inf" || l == "nan") && t != "inf" && t != "-inf" && t != "nan" && t != "-nan") return true;
                    continue;
                }
                if (std::strchr(" \t\r\n,:[]{}", s[i])) { ++i; continue; }
                std::size_t b = i; while (i < s.size() && !std::strchr(" \t\r\n,:[]{}\"", s[i])) ++i;
                std::string t = s.substr(b, i - b);
                { std::size_t w = t.find_first_not_of("\v\f"); if (w && w != std::string::npos) return true; } // space to strtod only
                if (t == "true" || t == "false" || t == "null" || num(t)) continue;
                std::string l = t.substr(0, 3); for (auto& c : l) c = char(c | 32);
                if (std::strchr("0123456789+-.", t[0]) || l == "inf" || l == "nan") return true;
            }
            return false;
        }
        template <typename I> static void other(const char* nm, I b, I e, std::size_t size, const std::string& s, bool skip, Out& o, T& t) {
            auto q = cxon::from_bytes<F>(const_cast<T&>(t), b, e);
            (void)nm; (void)s; (void)skip;
            o.ok = bool(q); o.end = size - std::size_t(std::distance(q.end, e));
        }
        static void iters(Rng&, const std::string& s) {
            bool skip = lenient(s);
            Box<T> b; Out o;
            { mon::exact e(s); o = read_ptr(b.t, e.begin(), e.end()); }
            auto cmp = [&](const char* nm, const Out& p, const T& t) {
                if (skip) return;
                if (o.ok != p.ok) viol(std::string("iters:outcome:") + nm, "pointers: " + std::to_string(o.ok) + ", " + nm + ": " + std::to_string(p.ok));
                else if (o.ok && o.end != p.end) viol(std::string("iters:end:") + nm, "pointers: " + std::to_string(o.end) + ", " + nm + ": " + std::to_string(p.end));
                else if (o.ok && !Z<T>::eq(b.t, t)) viol(std::string("iters:value:") + nm, "pointers: " + show(Z<T>::x(b.t, fmt)) + ", " + nm + ": " + show(Z<T>::x(t, fmt)));
            };
            mon::count(skip ? "iters:lenient" : o.ok ? "iters:accepted" : "iters:refused");
            { Box<T> c; mon::exact e(s); mon::stream st; st.p = e.begin(); st.e = e.end();
              auto q = cxon::from_bytes<F>(c.t, mon::in_iter(&st), mon::in_iter()); Out p; p.ok = bool(q); p.end = std::size_t(st.p - e.begin()); cmp("input", p, c.t); }
            { Box<T> c; mon::exact e(s); Out p; other("forward", mon::fw_iter(e.begin(), e.end()), mon::fw_iter(e.end(), e.end()), s.size(), s, skip, p, c.t); cmp("forward", p, c.t); }
            { Box<T> c; const std::list<char> l(s.begin(), s.end()); auto q = cxon::from_bytes<F>(c.t, l); Out p; p.ok = bool(q); p.end = s.size() - std::size_t(std::distance(q.end, l.end())); cmp("list", p, c.t); }
            { Box<T> c; const std::string l(s); auto q = cxon::from_bytes<F>(c.t, l); Out p; p.ok = bool(q); p.end = s.size() - std::size_t(std::distance(q.end, l.end())); cmp("string", p, c.t); }
            mon::eval(mon::mix(mon::fnv(s), o.ok));
            if (GROUP == 6 && may_nan(s)) skip = true; // containers with NaNs are ordered one way by `<`, another by `<=>`
            mon::digest(3, skip ? 0 : o.ok ? mon::mix(mon::fnv(show(Z<T>::x(b.t, fmt))), o.end) : 1);
        }
        // values one after another, from a single-pass stream
        static void seq(Rng& r, const std::string& a, const std::string& b) {
            Box<T> x, y;
            { mon::exact e(a); Out o = read_ptr(x.t, e.begin(), e.end()); if (!o.ok || o.end != a.size()) { mon::count("seq:not"); return; } }
            { mon::exact e(b); Out o = read_ptr(y.t, e.begin(), e.end()); if (!o.ok || o.end != b.size()) { mon::count("seq:not"); return; } }
            if (lenient(a) || lenient(b)) return;
            bool num = fmt == J && !a.empty() && !std::strchr("\"[{", a[0]);
            std::string s = a + (num ? std::string(1 + r.below(2), " \n\t\r"[r.below(4)]) : "") + b + (fmt == J ? "]" : "\xff");
            mon::input(s);
            mon::exact e(s); mon::stream st; st.p = e.begin(); st.e = e.end();
            Box<T> p, q;
            auto f = cxon::from_bytes<F>(p.t, mon::in_iter(&st), mon::in_iter());
            if (!f) { viol("seq:first", "fails"); return; }
            if (std::size_t(st.p - e.begin()) != a.size()) viol("seq:position", "after the first value at " + std::to_string(st.p - e.begin()) + " instead of " + std::to_string(a.size()));
            auto g = cxon::from_bytes<F>(q.t, f.end, mon::in_iter());
            if (!g) { viol("seq:second", "fails"); return; }
            if (std::size_t(st.p - e.begin()) != s.size() - 1) viol("seq:position", "after the second value");
            if (!Z<T>::eq(x.t, p.t) || !Z<T>::eq(y.t, q.t)) viol("seq:value", "another value");
            mon::eval(mon::fnv(s)); mon::count("seq:pairs");
        }
        // all kinds of output
        static void out(Rng& r) {
            Box<T> b; Z<T>::gen(b.t, r, 3);
            std::string s; auto w0 = cxon::to_bytes<F>(s, b.t); mon::input(s);
            if (!w0) { viol("out:write", "fails"); return; }
            { std::list<char> o; auto w = cxon::to_bytes<F>(o, b.t); if (!w || std::string(o.begin(), o.end()) != s) viol("out:list", "differs"); }
            { std::string o; auto w = cxon::to_bytes<F>(std::back_inserter(o), b.t); if (!w || o != s) viol("out:inserter", "differs"); }
            { std::string o(s.size(), '#'); auto w = cxon::to_bytes<F>(o.begin(), o.end(), b.t); if (!w || o != s || w.end != o.end()) viol("out:range", "differs"); }
            { std::list<char> o(s.size(), '#'); auto w = cxon::to_bytes<F>(o.begin(), o.end(), b.t); if (!w || std::string(o.begin(), o.end()) != s || w.end != o.end()) viol("out:forward-range", "differs"); }
            mon::eval(mon::fnv(s)); mon::digest(4, mon::fnv(s));
        }
#       else
        static void none_left(const char* key, const char* what, unsigned long long k = 0, unsigned long long n = 0) {
            mon::pause g; auto& a = mon::al();
            if (a.live || a.live_bytes) viol(key, std::to_string(a.live) + " blocks (" + std::to_string(a.live_bytes) + " bytes) left after " + what + " with allocation " + std::to_string(k) + " of " + std::to_string(n) + " failing");
        }
        static void leak(Rng&, const std::string& s) {
            mon::exact e(s);
            mon::ledger l;
            bool ok, again;
            {
                Box<T> b;
                ok = bool(cxon::from_bytes<F>(b.t, e.begin(), e.end()));
                mon::stream st; st.p = e.begin(); st.e = e.end();
                Box<T> c;
                again = bool(cxon::from_bytes<F>(c.t, mon::in_iter(&st), mon::in_iter()));
            }
            none_left("leak", ok && again ? "reading" : "a failed reading");
            mon::count(ok ? "leak:accepted" : "leak:refused"); mon::count("leak:allocations", mon::al().n);
            mon::eval(mon::mix(mon::fnv(s), ok));
        }
        static void oomr(Rng& r, const std::string& s) {
            if (lib_broken<T>::value) return;
            mon::exact e(s);
            unsigned long long n = 0; bool ok0; bool const stream = r.chance(1, 3);
            { mon::ledger l; Box<T> b; n = mon::al().n; ok0 = read(b.t, e, stream); n = mon::al().n; }
            if (!ok0) mon::count("oom:refused");
            for (unsigned long long k = 1; k <= n; k += k < 12 ? 1 : 1 + r.below(n / 8 + 1)) {
                mon::ledger l;
                bool threw = false, ok = false;
                {
                    Box<T> b;
                    mon::al().fail_at = k;
                    try { ok = read(b.t, e, stream); } catch (const std::bad_alloc&) { threw = true; }
                    if (mon::al().failed && !threw) viol("oom:swallowed", "allocation " + std::to_string(k) + " of " + std::to_string(n) + " failed and the reading returned " + std::to_string(ok));
                    if (!mon::al().failed) { if (threw) viol("oom:thrown", "without a failed allocation"); mon::count("oom:not-reached"); }
                    else mon::count("oom:read-failed");
                    mon::al().fail_at = 0;
                    std::string o; bool w = false; // what is there can be written, cleared (Box) and read again
                    o = written(b.t, w);
                }
                {
                    Box<T> b;
                    if (read(b.t, e, stream) != ok0) viol("oom:again", "the outcome of reading again is another one");
                }
                none_left("oom:left", "reading", k, n);
                mon::eval(mon::mix(mon::fnv(s), k));
            }
        }
        static bool read(T& t, const mon::exact& e, bool stream) {
            if (!stream) return bool(cxon::from_bytes<F>(t, e.begin(), e.end()));
            mon::stream st; st.p = e.begin(); st.e = e.end();
            return bool(cxon::from_bytes<F>(t, mon::in_iter(&st), mon::in_iter()));
        }
        static void oomw(Rng& r) {
            Box<T> b; Z<T>::gen(b.t, r, 2);
            bool ok; std::string s = written(b.t, ok); mon::input(s);
            unsigned const how = unsigned(r.below(3));
            unsigned long long n;
            { mon::ledger l; write(b.t, how, s, true); n = mon::al().n; }
            for (unsigned long long k = 1; k <= n; k += k < 12 ? 1 : 1 + r.below(n / 8 + 1)) {
                mon::ledger l(k);
                bool threw = false;
                try { write(b.t, how, s, false); } catch (const std::bad_alloc&) { threw = true; }
                if (mon::al().failed && !threw) viol("oom:swallowed", "allocation " + std::to_string(k) + " of " + std::to_string(n) + " failed in writing and nothing was thrown");
                mon::al().fail_at = 0;
                write(b.t, how, s, true);
                none_left("oom:left", "writing", k, n);
                mon::eval(mon::mix(mon::fnv(s), k)); mon::count("oom:write-failed");
            }
        }
        static void write(const T& t, unsigned how, const std::string& s, bool must) {
            switch (how) {
                case 0: { std::string o; auto w = cxon::to_bytes<F>(o, t); check(bool(w), o == s, must); break; }
                case 1: { std::list<char> o; auto w = cxon::to_bytes<F>(o, t); check(bool(w), o.size() == s.size() && std::equal(o.begin(), o.end(), s.begin()), must); break; }
                default: { std::vector<char> o; auto w = cxon::to_bytes<F>(std::back_inserter(o), t); check(bool(w), o.size() == s.size() && std::equal(o.begin(), o.end(), s.begin()), must); }
            }
        }
        static void check(bool ok, bool eq, bool must) {
            if (must && (!ok || !eq)) viol("oom:altered", "the written value was altered or cannot be written");
            if (ok && !eq) viol("oom:output", "success reported with another output");
        }
#       endif

        static Ops ops(const char* n) {
#           if PART == 0
                return {n, genx, safety, stop, carry, rt, bounded, 0, 0, 0, 0, 0, 0};
#           elif PART == 1
                return {n, genx, 0, 0, 0, 0, 0, iters, seq, out, 0, 0, 0};
#           else
                return {n, genx, 0, 0, 0, 0, 0, 0, 0, 0, leak, oomr, oomw};
#           endif
        }
    };

    const std::vector<Ops>& table() {
#       define ROW(...) impl<__VA_ARGS__>::ops(#__VA_ARGS__),
        static const std::vector<Ops> t = { TYPES_(ROW) };
        return t;
    }

    const Ops& pick(Rng& r, const char* m) { auto& o = table()[r.below(table().size())]; mon::site(std::string(m) + (fmt == J ? " json " : " cbor ") + o.name); return o; }

    // a document: how close to what the type expects varies
    std::string doc(Rng& r, const Ops& o, unsigned k) {
        static const char ja[] = "{}[]\":,\\/0123456789+-.eEtrufalsn \n\x80\xc3\xe2\xf0\xa9\xff\x01\x7f";
        static const char ca[] = "\x01\x17\x18\x19\x1a\x1b\x1f\x20\x38\x3b\x40\x41\x42\x58\x5f\x5b\x60\x61\x62\x78\x7b\x7f\x80\x81\x82\x98\x9b\x9f\xa0\xa1\xb8\xbf\xc0\xc1\xd8\xdb\xf4\xf5\xf6\xf7\xf8\xf9\xfa\xfb\xff";
        const char* al = fmt == J ? ja : ca;
        switch (k) {
            case 0: { std::string s; for (std::size_t n = r.below(r.chance(1, 4) ? 60 : 12); n; --n) s += r.chance(3, 4) ? al[r.below(std::strlen(al))] : char(r.next()); return s; }
            case 1: case 2: return spell(value(o.genx(r), r), r, false);
            case 3: { auto s = spell(value(o.genx(r), r), r, r.chance(1, 2)); ref::mutate(r, s, al); return s; }
            case 4: { auto& p = table()[r.below(table().size())]; return spell(value(p.genx(r), r), r, r.chance(1, 2)); }
            case 5: { auto s = spell(value(o.genx(r), r), r, r.chance(1, 2)); s.resize(r.below(s.size() + 1)); return s; }
            case 6: { V v = value(o.genx(r), r); for (std::size_t n = 1 + r.below(3); n; --n) restructure(v, r); return spell(v, r, r.chance(1, 2)); }
            case 7: { auto s = spell(value(o.genx(r), r), r, true); ref::mutate(r, s, al); ref::mutate(r, s, al); return s; }
            default: return spell(gen_any(r, 3), r, false);
        }
    }

#   if PART == 0
    void m_safety(Rng& r) { auto& o = pick(r, "safety"); auto s = doc(r, o, unsigned(r.below(9))); mon::input(s); o.safety(r, s); mon::sample(fmt == J ? s : mon::hex(s)); }
    void m_stop(Rng& r) { auto& o = pick(r, "stop"); static const unsigned k[] = {1, 2, 1, 3, 4, 5, 6, 0, 1}; auto s = doc(r, o, r.pick(k)); mon::input(s); o.stop(r, s); mon::sample(fmt == J ? s : mon::hex(s)); }
    bool nan_in(const V& v) {
        if (v.k == V::Real && v.r != v.r) return true;
        for (auto& e : v.a) if (nan_in(e)) return true;
        return false;
    }
    bool nan_key(const V& v) { // breaks the order of ordered containers
        if (v.k == V::Map) for (std::size_t i = 0; i < v.a.size(); i += 2) { auto& k = v.a[i]; if (nan_in(k) || (k.k == V::Str && k.s.find_first_of("nN") != std::string::npos && (k.s.size() < 5 || k.s[0] == '[' || k.s[0] == '{'))) return true; if (k.k == V::Tag) return true; }
        for (auto& e : v.a) if (nan_key(e)) return true;
        return false;
    }
    void m_carried(Rng& r) {
        auto& o = pick(r, "carried"); static const unsigned k[] = {1, 4, 6, 6, 6, 8, 3};
        auto s = doc(r, o, r.pick(k)); mon::input(s);
        V v;
#       if FMT == 0
            ref::Json j(s.data(), s.data() + s.size());
            if (!j.document(v) || j.lone_surrogate || j.longnum) return;
#       else
            ref::Cbor c(s.data(), s.size());
            if (!c.item(v) || c.p != c.e || c.low_simple) return;
#       endif
        if (nan_key(v)) { mon::count("carried:nan-key"); return; }
        o.carry(r, v, s); mon::sample(fmt == J ? s : mon::hex(s));
    }
    void m_rt(Rng& r) { pick(r, "rt").rt(r); }
    void m_bounded(Rng& r) { pick(r, "bounded").bounded(r); }
#   elif PART == 1
    void m_iters(Rng& r) { auto& o = pick(r, "iters"); auto s = doc(r, o, unsigned(r.below(9))); mon::input(s); o.iters(r, s); mon::sample(fmt == J ? s : mon::hex(s)); }
    void m_seq(Rng& r) { auto& o = pick(r, "seq"); auto a = doc(r, o, 1), b = doc(r, o, 1); mon::input(a + b); o.seq(r, a, b); mon::sample(fmt == J ? a + b : mon::hex(a + b)); }
    void m_out(Rng& r) { pick(r, "out").out(r); }
#   else
    void m_leak(Rng& r) { auto& o = pick(r, "leak"); auto s = doc(r, o, unsigned(r.below(9))); mon::input(s); o.leak(r, s); mon::sample(fmt == J ? s : mon::hex(s)); }
    void m_oom(Rng& r) {
        auto& o = pick(r, "oom");
        if (r.chance(1, 4)) { o.oomw(r); return; }
        static const unsigned k[] = {1, 2, 1, 3, 4, 5, 6}; auto s = doc(r, o, r.pick(k)); mon::input(s); o.oomr(r, s); mon::sample(fmt == J ? s : mon::hex(s));
    }
#   endif

}

int main(int argc, char** argv) {
#   if PART == 0
        static const mon::Mode m[] = {{"safety", m_safety}, {"stop", m_stop}, {"carried", m_carried}, {"rt", m_rt}, {"bounded", m_bounded}};
#   elif PART == 1
        static const mon::Mode m[] = {{"iters", m_iters}, {"seq", m_seq}, {"out", m_out}};
#   else
        static const mon::Mode m[] = {{"leak", m_leak}, {"oom", m_oom}};
#   endif
    return mon::run(argc, argv, m);
}
