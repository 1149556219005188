// Text in JSON strings, in every character type. PART 0 - containers, 1 - arrays, pointers, characters, keys, nodes
#if !defined(PART)
#   define PART 0
#endif
#include "nodes.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/vector.hxx"
#include <list>
typedef cxon::JSON<> F;
using mon::viol; using mon::Rng;

namespace {

    typedef std::vector<std::uint32_t> U; // code points
    std::string u8(const U& u) { std::string s; for (auto c : u) ref::utf8_put(s, c); return s; }

    // to and from code units
    template <typename C, std::size_t S> struct units;
    template <typename C> struct units<C, 1> {
        static std::vector<C> to(const U& u) { std::string s = u8(u); return std::vector<C>(s.begin(), s.end()); }
        static std::string from(const C* b, const C* e) { return std::string(b, e); }
    };
    template <typename C> struct units<C, 2> {
        static std::vector<C> to(const U& u) { std::vector<C> r; for (auto c : u) if (c >= 0x10000) r.push_back(C(0xD800 + ((c - 0x10000) >> 10))), r.push_back(C(0xDC00 + ((c - 0x10000) & 0x3FF))); else r.push_back(C(c)); return r; }
        static std::string from(const C* b, const C* e) { return nodes::text_of(std::u16string(b, e)); }
    };
    template <typename C> struct units<C, 4> {
        static std::vector<C> to(const U& u) { return std::vector<C>(u.begin(), u.end()); }
        static std::string from(const C* b, const C* e) { std::string s; for (; b != e; ++b) ref::utf8_put(s, std::uint32_t(*b)); return s; }
    };
    template <typename C> using un = units<C, sizeof(C)>;

    // a type holding text: whether a text fits, making it, its text as utf-8
    template <typename T> struct X;
    template <typename C> struct X<std::basic_string<C>> {
        typedef std::basic_string<C> T; T t; static bool fits(const U&, bool) { return true; } static bool can(const U&) { return true; }
        void set(const U& u) { auto v = un<C>::to(u); t.assign(v.begin(), v.end()); }
        std::string text() const { return un<C>::from(t.data(), t.data() + t.size()); }
        static std::string wrap(const std::string& s) { return s; }
    };
    template <typename C, std::size_t N> struct X<C[N]> {
        typedef C T[N]; T t; X() { for (auto& c : t) c = C(); }
        static bool fits(const U& u, bool) { return un<C>::to(u).size() <= N; }
        static bool can(const U& u) { for (auto c : u) if (!c) return false; auto n = un<C>::to(u).size(); return n > 0 && n <= N; } // zero ends the text
        void set(const U& u) { auto v = un<C>::to(u); for (std::size_t i = 0; i < N; ++i) t[i] = i < v.size() ? v[i] : C(); }
        std::string text() const { std::size_t n = 0; while (n < N && t[n]) ++n; return un<C>::from(t, t + n); }
        static std::string wrap(const std::string& s) { return s; }
    };
    template <typename C> struct X<C*> {
        typedef C* T; C* t = nullptr; bool mine = false;
        ~X() { clear(); } void clear() { if (mine) delete[] t; else ::operator delete(t); t = nullptr; }
        static bool fits(const U&, bool) { return true; } static bool can(const U& u) { for (auto c : u) if (!c) return false; return true; }
        void set(const U& u) { clear(); auto v = un<C>::to(u); mine = true; t = new C[v.size() + 1]; std::copy(v.begin(), v.end(), t); t[v.size()] = C(); }
        std::string text() const { if (!t) return "<null>"; auto e = t; while (*e) ++e; return un<C>::from(t, e); }
        static std::string wrap(const std::string& s) { return s; }
    };
    template <typename C> struct one { };
    template <typename C> struct X<one<C>> {
        typedef C T; C t = C();
        static bool fits(const U& u, bool reading) { return u.size() == 1 && (sizeof(C) == 1 ? u[0] <= (reading ? 0xFFu : 0x7Fu) : sizeof(C) == 2 ? u[0] <= 0xFFFF : true); }
        static bool can(const U& u) { return fits(u, false); }
        void set(const U& u) { t = C(u[0]); }
        std::string text() const { std::string s; ref::utf8_put(s, sizeof(C) == 1 ? (unsigned char)t : std::uint32_t(t)); return s; }
        static std::string wrap(const std::string& s) { return s; }
    };
    template <typename C> struct key { };
    template <typename C> struct X<key<C>> {
        typedef std::map<std::basic_string<C>, int> T; T t; static bool fits(const U&, bool) { return true; } static bool can(const U&) { return true; }
        void set(const U& u) { auto v = un<C>::to(u); t.clear(); t[std::basic_string<C>(v.begin(), v.end())] = 1; }
        std::string text() const { return t.size() == 1 ? un<C>::from(t.begin()->first.data(), t.begin()->first.data() + t.begin()->first.size()) : "<" + std::to_string(t.size()) + ">"; }
        static std::string wrap(const std::string& s) { return "{" + s + ":1}"; }
    };
    template <typename N> struct X_node {
        typedef N T; N t; static bool fits(const U&, bool) { return true; } static bool can(const U&) { return true; }
        void set(const U& u) { nodes::make(ref::V::str(u8(u)), t); }
        std::string text() const { auto v = nodes::to_v(t); return v.k == ref::V::Str ? v.s : "<" + ref::show(v) + ">"; }
        static std::string wrap(const std::string& s) { return s; }
    };
    template <> struct X<cxon::json::node> : X_node<cxon::json::node> {};
    template <> struct X<cxon::cbor::node> : X_node<cxon::cbor::node> {};
    template <> struct X<nodes::node16> : X_node<nodes::node16> {};

    U gen(Rng& r, std::size_t max) {
        U u;
        if (r.chance(1, 3)) { // one special character among plain ones
            std::size_t n = r.below(std::min<std::size_t>(max, 70)); while (u.size() < n) u.push_back(std::uint32_t('a' + r.below(26)));
            for (std::size_t k = 1 + r.below(3); k; --k) { std::size_t at = r.below(u.size() + 1); u.insert(u.begin() + long(at), ref::gen_cp(r)); }
            for (std::size_t k = r.below(40); k; --k) u.push_back('z');
            return u;
        }
        return ref::utf32(ref::gen_text(r, max));
    }

    template <typename T> struct pad { static std::size_t n(const U&) { return 0; } };
    template <typename C, std::size_t N> struct pad<C[N]> { static std::size_t n(const U& u) { auto k = un<C>::to(u).size(); return k < N ? N - k - 1 : 0; } };

    template <typename K> struct impl {
        typedef X<K> H; typedef typename H::T T;
        // every way of supplying it
        template <typename Fn> static void read_all(const std::string& s, Fn f) {
            mon::exact e(s);
            { H h; auto q = cxon::from_bytes<F>(h.t, e.begin(), e.end()); f("pointers", bool(q), std::size_t(q.end - e.begin()), h, !q.ec); }
            { H h; mon::stream st; st.p = e.begin(); st.e = e.end(); auto q = cxon::from_bytes<F>(h.t, mon::in_iter(&st), mon::in_iter()); f("single-pass", bool(q), std::size_t(st.p - e.begin()), h, !q.ec); }
            { H h; auto q = cxon::from_bytes<F>(h.t, mon::fw_iter(e.begin(), e.end()), mon::fw_iter(e.end(), e.end())); f("forward", bool(q), std::size_t(q.end.p - e.begin()), h, !q.ec); }
            { H h; auto q = cxon::from_bytes<F>(h.t, s); f("string", bool(q), std::size_t(q.end - s.begin()), h, !q.ec); }
        }
        static void write(Rng& r, std::size_t max) {
            U u = gen(r, max); if (!H::can(u)) return;
            H h; h.set(u); std::string s; auto q = cxon::to_bytes<F>(s, h.t); mon::input(s); mon::sample(s);
            std::string t = u8(u), wt = t + std::string(pad<T>::n(u), '\0'); // arrays are written but for one trailing zero
            if (!q) { viol("text:write", "writing fails: " + mon::quote(t)); return; }
            ref::V v; if (!ref::utf8_valid(s)) viol("text:output-utf8", mon::quote(s));
            if (!ref::json_parse(s, v)) { viol("text:output-json", mon::quote(s)); return; }
            const ref::V& x = v.k == ref::V::Map && v.a.size() == 2 ? v.a[0] : v;
            if (x.k != ref::V::Str || x.s != wt) viol("text:written", mon::quote(t) + " written as " + mon::quote(s));
            read_all(s, [&](const char* n, bool ok, std::size_t end, const H& g, bool) {
                if (!ok) viol("text:round-trip", std::string(n) + ": refused " + mon::quote(s)); else if (end != s.size()) viol("text:end", std::string(n) + ": " + std::to_string(end) + " of " + mon::quote(s)); else if (g.text() != t) viol("text:round-trip", std::string(n) + ": " + mon::quote(s) + " read as " + mon::quote(g.text()));
            });
            { std::list<char> l; cxon::to_bytes<F>(std::back_inserter(l), h.t); if (std::string(l.begin(), l.end()) != s) viol("text:output-iterator", mon::quote(s)); }
            mon::eval(mon::fnv(s)); mon::count("text:written", u.size()); mon::digest(1, mon::fnv(s));
        }
        static void read(Rng& r, std::size_t max) {
            U u = gen(r, max); std::string b; ref::json_str(r, ref::JsonSpell(0, unsigned(r.below(3) * 5)), u8(u), b);
            if (r.chance(2, 3)) { // something wrong in it
                static const std::string bad[] = {"\xC0\x80", "\xC1\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xF0\x80\x80\x80", "\xF0\x8F\xBF\xBF", "\xED\xA0\x80", "\xED\xBF\xBF", "\xED\xA0\xBD\xED\xB8\x80", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xF8\x88\x80\x80\x80", "\xFF", "\xFE", "\x80", "\xBF", "\xC2", "\xDF", "\xE2\x82", "\xE1", "\xF0\x9F\x98", "\xF0\x9F", "\xF1", "\xF4", "\xE2\x28\xA1", "\xE2\x82\x28", "\xF0\x28\x8C\xBC", "\xF0\x90\x28\xBC", "\xF0\x90\x8C\x28", "\xC3\x28",
                    std::string(1, '\0'), "\x01", "\x08", "\t", "\n", "\r", "\x1f", "\\x", "\\a", "\\0", "\\'", "\\ ", "\\:", "\\=", "\\v", "\\U0041", "\\u", "\\u1", "\\u12", "\\u123", "\\u12G4", "\\uG234", "\\u 123", "\\u+123", "\\u-123", "\\u123\xff", "\\uD800", "\\uDBFF", "\\uDC00", "\\uDFFF", "\\uD800x", "\\uD800\\n", "\\uD800\\uD800", "\\uD800\\u0041", "\\uDBFF\\uE000", "\\uD83D\\", "\\uD83D\\uDE0", "\\uDE00\\uD83D", "\\ud800\\udbff", "\x7f", "\xEF\xBB\xBF", "\\u0000", "\\uFFFF", "\xE2\x80\xA8", "/", "'"};
                if (r.chance(1, 8)) ref::mutate(r, b);
                else { // between characters
                    std::size_t at = 1; { auto cut = r.below(u.size() + 1); std::string p, x; Rng c(r); ref::json_str(c, ref::JsonSpell(), u8(U(u.begin(), u.begin() + long(cut))), p); ref::json_str(c, ref::JsonSpell(), u8(U(u.begin() + long(cut), u.end())), x); p.pop_back(); at = p.size(); b = p + x.substr(1); }
                    b.insert(at, bad[r.below(sizeof bad / sizeof *bad)]);
                    if (r.chance(1, 10)) b.resize(r.below(b.size()) + 1);
                }
                if (b.empty() || b[0] != '"') return;
            }
            std::string s = H::wrap(b); 
            ref::V v; ref::Json j(s.data(), s.data() + s.size()); bool good = j.value(v) && !j.lone_surrogate; std::size_t at = std::size_t(j.p - s.data());
            std::string t; if (good) { if (v.k == ref::V::Map) { if (v.a.size() != 2) return; t = v.a[0].s; } else if (v.k == ref::V::Str) t = v.s; else return; }
            bool fit = good && H::fits(ref::utf32(t), true);
            // texts with zeros cannot be seen in zero-terminated types
            bool zero = t.find('\0') != std::string::npos; bool see = !zero || H::can(ref::utf32(t));
            mon::input(s); mon::sample(s);
            read_all(s, [&](const char* n, bool ok, std::size_t end, const H& g, bool noec) {
                if (ok != fit) viol(ok ? "text:accepted" : "text:refused", std::string(n) + ": " + mon::quote(s) + (ok ? " read as " + mon::quote(g.text()) : ""));
                else if (ok && end != at) viol("text:end", std::string(n) + ": " + std::to_string(end) + " of " + mon::quote(s));
                else if (ok && see && g.text() != t) viol("text:value", std::string(n) + ": " + mon::quote(s) + " read as " + mon::quote(g.text()));
                if (ok != noec) viol("text:ec", s);
                mon::eval(mon::mix(mon::fnv(s), mon::mix(mon::fnv(n, 2), ok)));
            });
            mon::count(fit ? "text:well-formed" : good ? "text:too-long" : "text:ill-formed");
        }
        static void wbad(Rng&, std::size_t) {}
    };
    // unpaired high surrogates are not written
    template <typename C> void wbad(Rng& r) {
        U u = gen(r, 60); std::basic_string<C> t; auto v = un<C>::to(u);
        std::size_t at = r.below(u.size() + 1); auto a = un<C>::to(U(u.begin(), u.begin() + long(at))), b = un<C>::to(U(u.begin() + long(at), u.end()));
        t.assign(a.begin(), a.end()); C h = C(0xD800 + r.below(0x400)); t += h; if (r.chance(1, 4)) t += C(0xD800 + r.below(0x400)); if (r.chance(1, 4)) t += C(0xE000 + r.below(0x100)); if (r.chance(1, 3) && !b.empty()) b.clear(); t.append(b.begin(), b.end());
        std::string d = u8(U(t.begin(), t.end())); mon::input(d);
        std::string s; auto q = cxon::to_bytes<F>(s, t); if (q) viol("text:surrogate-written", mon::quote(d) + " written as " + mon::quote(s)); else if (q.ec.value() != int(cxon::json::write_error::argument_invalid)) viol("text:surrogate-ec", q.ec.message());
        { std::vector<std::basic_string<C>> l(2); l[1] = t; std::string z; if (cxon::to_bytes<F>(z, l)) viol("text:surrogate-written", "in a list: " + mon::quote(z)); }
        { std::map<std::basic_string<C>, int> l; l[t] = 1; std::string z; if (cxon::to_bytes<F>(z, l)) viol("text:surrogate-written", "as a key: " + mon::quote(z)); }
        { C c = h; std::string z; if (cxon::to_bytes<F>(z, c)) viol("text:surrogate-written", "as a character: " + mon::quote(z)); }
        if (std::find(t.begin(), t.end(), C()) == t.end()) { const C* p = t.c_str(); std::string z; if (cxon::to_bytes<F>(z, p)) viol("text:surrogate-written", "by pointer: " + mon::quote(z)); }
        { char buf[64]; if (cxon::to_bytes<F>(buf, buf + sizeof buf, t)) viol("text:surrogate-written", "to a range"); }
        mon::eval(mon::fnv(d)); mon::count("text:surrogates");
    }

    struct Row { const char* n; void (*w)(Rng&, std::size_t); void (*r)(Rng&, std::size_t); std::size_t max; };
#   define ROW(T, M) {#T, impl<T>::write, impl<T>::read, M},
    typedef char c60[60]; typedef char16_t h60[60]; typedef char32_t w60[60]; typedef wchar_t l60[60];
    typedef one<char> ch; typedef one<char16_t> ch16; typedef one<char32_t> ch32; typedef one<wchar_t> chw;
    typedef key<char> k8; typedef key<char16_t> k16; typedef key<char32_t> k32;
    typedef char* p8; typedef char16_t* p16; typedef char32_t* p32; typedef wchar_t* pw; typedef cxon::json::node jn; typedef cxon::cbor::node cn; typedef nodes::node16 jn16;
    const Row rows[] = {
#   if PART == 0
        ROW(std::string, 300) ROW(std::u16string, 300) ROW(std::u32string, 300) ROW(std::wstring, 300)
#       if __cplusplus >= 202002L
            ROW(std::u8string, 300)
#       endif
        ROW(jn, 300) ROW(cn, 300) ROW(jn16, 300)
#   else
        ROW(c60, 70) ROW(h60, 70) ROW(w60, 70) ROW(l60, 70) ROW(p8, 200) ROW(p16, 200) ROW(p32, 200) ROW(pw, 200) ROW(k8, 100) ROW(k16, 100) ROW(k32, 100) ROW(ch, 2) ROW(ch16, 2) ROW(ch32, 2) ROW(chw, 2)
#   endif
    };
    void m_write(Rng& r) { auto& o = rows[r.below(sizeof rows / sizeof *rows)]; mon::site(std::string("write ") + o.n); o.w(r, o.max); }
    void m_read(Rng& r) { auto& o = rows[r.below(sizeof rows / sizeof *rows)]; mon::site(std::string("read ") + o.n); o.r(r, o.max); }
    void m_wbad(Rng& r) { mon::site("surrogates"); switch (r.below(3)) { case 0: wbad<char16_t>(r); break; case 1: wbad<char32_t>(r); break; default: wbad<wchar_t>(r); } }
}

int main(int argc, char** argv) {
    static const mon::Mode ms[] = {{"write", m_write}, {"read", m_read}, {"surrogates", m_wbad}};
    return mon::run(argc, argv, ms);
}
