// Generic nodes read from and written to one format (FMT 0 - JSON, 1 - CBOR); PART 0 - acceptance, values, stop, round trips, bounds; 1 - iterators, between formats
#if !defined(FMT)
#   define FMT 0
#endif
#if !defined(PART)
#   define PART 0
#endif
#include "nodes.hxx"
#include <list>

using namespace nodes;
using mon::viol;

#if FMT == 0
    typedef cxon::JSON<> F;
    static constexpr int FERR = int(cxon::json::write_error::output_failure);
#else
    typedef cxon::CBOR<> F;
    static constexpr int FERR = int(cxon::cbor::write_error::output_failure);
#endif

namespace {

    struct Out { bool ok = false; std::size_t end = 0; std::string ec; };
    template <typename N> Out read_ptr(N& n, const char* b, const char* e) {
        auto q = cxon::from_bytes<F>(n, b, e);
        Out o; o.ok = bool(q); o.ec = q.ec ? q.ec.message() : "";
        if (q.end < b || q.end > e) viol("end-outside", "the reported position is outside of the range"); else o.end = std::size_t(q.end - b);
        if (o.ok != !q.ec) viol("ec-mismatch", "conversion to bool");
        return o;
    }

    struct Doc { // what the reference says
        bool ok = false; std::size_t end = 0; V v;
        bool skip = false;      // not decided
        unsigned depth = 0;
        Doc(const std::string& s) {
#           if FMT == 0
                ref::Json j(s.data(), s.data() + s.size());
                ok = j.value(v); end = std::size_t(j.p - s.data()); depth = j.max_depth;
                if (j.lone_surrogate || j.huge) ok = false;
                skip = j.tiny;
                if (ok) v = of_json(v);
#           else
                ref::Cbor c(s.data(), s.size());
                ok = c.item(v); end = s.size() - std::size_t(c.e - c.p); depth = c.max_depth;
                skip = c.low_simple;
                if (ok && any_of(v, too_negative)) ok = false;
#           endif
        }
    };
    template <typename N> V expected(const V& v) { return FMT == 1 && is_json<N>::value ? to_json(v) : v; }

    std::string spell(Rng& r, const V& v, bool plain) {
        std::string s;
#       if FMT == 0
            ref::json_text(r, plain ? ref::JsonSpell() : ref::JsonSpell(unsigned(r.below(4)), unsigned(r.below(6))), v, s);
#       else
            ref::cbor_text(r, plain ? ref::CborSpell() : ref::CborSpell(unsigned(r.below(5)), unsigned(r.below(5)), r.chance(1, 2)), v, s);
#       endif
        return s;
    }
    void widen(Rng& r, V& v) { // integers around and over the limits
        if (v.k == V::Int && r.chance(1, 4)) {
            typedef ref::i128 i128;
            static const int sh[] = {62, 63, 64, 64, 64, 65, 66, 80};
            i128 x = i128(1) << r.pick(sh);
            switch (r.below(4)) { case 0: x = i128(r.bits() | (1ull << 63)) * i128(1 + r.below(40)); break; case 1: x += i128(r.below(30)) - 15; break; case 2: x = x / 10 * 10 + i128(r.below(10)); break; default: x = x * i128(1 + r.below(10)) + i128(r.below(20)) - 10; }
            v.i = r.chance(1, 3) ? -x : x;
        }
        for (auto& e : v.a) if (v.k != V::Map || &e != &v.a[std::size_t(&e - &v.a[0]) & ~std::size_t(1)]) widen(r, e);
    }
    V gen(Rng& r, unsigned d) {
        if (FMT != 0) return ref::gen_cbor(r, d, r.chance(1, 2));
        V v = ref::gen_json(r, d, r.chance(1, 4));
        if (r.chance(1, 3)) widen(r, v);
        return v;
    }

    const char ja[] = "{}[]\":,\\/0123456789+-.eEtrufalsn \n\x80\xc3\xe2\xf0\xa9\xff\x01\x7f'INi;#=";
    const char ca[] = "\x01\x17\x18\x19\x1a\x1b\x1c\x1f\x20\x38\x3b\x3f\x40\x41\x42\x58\x5f\x5b\x60\x61\x62\x78\x7b\x7f\x80\x81\x82\x98\x9b\x9f\xa0\xa1\xb8\xbf\xc0\xc1\xd8\xdb\xe0\xf3\xf4\xf5\xf6\xf7\xf8\xf9\xfa\xfb\xfc\xfe\xff";
    std::string doc(Rng& r) {
        const char* al = FMT == 0 ? ja : ca;
        switch (r.below(9)) {
            case 0: { std::string s; for (std::size_t n = r.below(r.chance(1, 4) ? 60 : 12); n; --n) s += r.chance(7, 8) ? al[r.below(std::strlen(al))] : char(r.next()); return s; }
            case 1: { auto s = spell(r, gen(r, 3), r.chance(1, 2)); ref::mutate(r, s, al); ref::mutate(r, s, al); return s; }
            case 2: case 3: { auto s = spell(r, gen(r, 3), r.chance(1, 2)); ref::mutate(r, s, al); return s; }
            case 4: { auto s = spell(r, gen(r, 2), r.chance(1, 2)); s.resize(r.below(s.size() + 1)); return s; }
            case 5: return spell(r, gen(r, 0), false);
            case 6: { // deep
                V v = gen(r, 1);
                for (std::size_t n = r.below(90); n; --n) { V w; switch (r.below(3)) { case 0: w = V::arr(); if (r.chance(1, 4)) w.a.push_back(gen(r, 0)); w.a.push_back(v); break; case 1: w = V::map(); w.add(V::str("k"), v); break; default: if (FMT == 1) w = V::tagged(r.bits(), v); else { w = V::arr(); w.a.push_back(v); } } v = w; }
                return spell(r, v, r.chance(1, 2));
            }
            default: return spell(r, gen(r, 4), false);
        }
    }

    template <typename N> struct impl {
        // accepted if and only if well-formed, exact value, exact end
        static void accept(Rng&, const std::string& s) {
            Doc d(s);
            mon::exact e(s); N n; Out o = read_ptr(n, e.begin(), e.end());
            mon::count(o.ok ? "accept:accepted" : "accept:refused");
            mon::eval(mon::mix(mon::fnv(s), o.ok));
            if (d.depth >= 64 || d.depth > 1000) { if (o.ok) viol("accept:depth", "nesting " + std::to_string(d.depth) + " accepted"); mon::count("accept:deep"); return; }
            if (d.skip && !o.ok) return;
            if (o.ok && !d.ok) { viol("accept:malformed", "accepted, " + std::to_string(o.end) + " bytes read as " + ref::show(to_v(n))); return; }
            if (!o.ok) { if (d.ok) viol("accept:wellformed", "refused: " + ref::show(d.v) + ": " + o.ec); return; }
            if (o.end != d.end) { viol("accept:end", "stops at " + std::to_string(o.end) + " instead of " + std::to_string(d.end)); return; }
            V x = expected<N>(d.v); bool u = dups(x);
            if (u && !is_ordered<N>::value) { mon::count("accept:repeated-names"); return; }
            V g = to_v(n);
            if (!ref::same(x, g, is_ordered<N>::value)) viol(is_ordered<N>::value && (u || ref::same(x, g, false)) ? "accept:order" : "accept:value", "read as " + ref::show(g) + " instead of " + ref::show(x));
            mon::digest(1, mon::fnv(ref::show(g)));
        }
        static void safety(Rng& r, const std::string& s) {
            mon::exact e(s); N n; Out o = read_ptr(n, e.begin(), e.end());
            std::string w; bool wok = false;
            if (o.ok) {
                wok = bool(cxon::to_bytes<F>(w, n)); std::string w2;
#               if FMT == 0
                    cxon::to_bytes<cxon::CBOR<>>(w2, n);
#               else
                    cxon::to_bytes<cxon::JSON<>>(w2, n);
#               endif
            }
            mon::count(o.ok ? "safety:accepted" : "safety:refused");
            if (r.chance(1, 2)) { auto q = cxon::from_bytes<F>(n, e.begin(), e.end()); if (bool(q) != o.ok || std::size_t(q.end - e.begin()) != o.end) viol("safety:unstable", "reading into a used node differs"); }
            mon::eval(mon::mix(mon::fnv(s), o.ok)); mon::digest(2, mon::mix(mon::fnv(w), o.ok * 2 + wok));
        }
        static void stop(Rng& r, const std::string& s) {
            mon::exact e(s); N n; Out o = read_ptr(n, e.begin(), e.end());
            if (!o.ok) { mon::count("stop:refused"); if (o.ec.empty()) viol("stop:ec", "no error condition"); return; }
            mon::count(o.end == s.size() ? "stop:whole" : "stop:part");
            std::string a = s.substr(0, o.end); V v = to_v(n);
            for (int i = 0; i < 4; ++i) {
                static const char* sf[] = {"", " ", ",", "]", "}", "\n1", ",2", "]]", "\"", "[1]", "{}", " x", "\xff", "\xff\xff", "null", "\"a\"", "0", "e1", ".5", "\x80", "\xf6", "\x61", "\x01", "\xc1"};
                std::string S = i == 0 ? "" : r.chance(1, 4) ? std::string(1, char(r.next())) + char(r.next()) : sf[r.below(sizeof sf / sizeof *sf)];
                if (FMT == 0 && !S.empty()) { char l = a.empty() ? 0 : a.back(); if (ref::Json::dig(l) && !std::strchr(" \t\r\n,]}\"[{:", S[0])) continue; }
                std::string d = a + S; mon::input(d);
                mon::exact p(d); N m; Out q = read_ptr(m, p.begin(), p.end());
                if (!q.ok || q.end != o.end) viol(i ? "stop:suffix" : "stop:prefix", "followed by " + mon::quote(S) + " gives " + std::to_string(q.ok) + "/" + std::to_string(q.end) + " instead of 1/" + std::to_string(o.end));
                else if (!ref::same(v, to_v(m), true)) viol("stop:value", "followed by " + mon::quote(S) + " the value is another one");
                mon::eval(mon::fnv(d));
            }
        }
        static V genv(Rng& r, unsigned d) {
            V v = FMT == 0 ? ref::gen_json(r, d) : ref::gen_cbor(r, d);
            if (FMT == 1 && is_json<N>::value) v = to_json(v);
            return v;
        }
        static void rt(Rng& r) {
            V v = genv(r, 4); if (dups(v) && !is_ordered<N>::value) return;
            N n; make(v, n);
            std::string s; auto w = cxon::to_bytes<F>(s, n); mon::input(s);
            if (!w) { viol("rt:write", "writing fails: " + ref::show(v)); return; }
            V g;
#           if FMT == 0
                bool good = ref::json_parse(s, g);
#           else
                ref::Cbor c(s.data(), s.size()); bool good = c.item(g) && c.p == c.e;
                if (good && !c.shortest) viol("rt:shortest", "not in shortest form");
#           endif
            if (!good) { viol("rt:malformed", ref::show(v)); return; }
            bool ord = is_ordered<N>::value;
            if (FMT == 0 ? !near(v, g, ord) : !ref::same(v, g, ord)) viol("rt:shape", "written " + ref::show(g) + " for " + ref::show(v));
            mon::exact e(s); N m; Out o = read_ptr(m, e.begin(), e.end());
            if (!o.ok || o.end != s.size()) viol("rt:read", "cannot be read back: " + o.ec);
            else if (FMT == 0 ? !near(to_v(n), to_v(m), ord) : !any_of(v, is_nan) && !(n == m)) viol("rt:value", "reads back as " + ref::show(to_v(m)) + " instead of " + ref::show(v));
            mon::eval(mon::fnv(s)); mon::sample(FMT == 0 ? s : mon::hex(s)); mon::count("rt:bytes", s.size()); mon::digest(3, mon::fnv(s));
        }
        static void bounded(Rng& r) {
            V v = genv(r, 3); N n; make(v, n);
            std::string s; auto w = cxon::to_bytes<F>(s, n); mon::input(s);
            if (!w) { viol("bounded:write", "writing to a string fails"); return; }
            std::vector<std::size_t> ns;
            if (s.size() <= 40) for (std::size_t i = 0; i <= s.size() + 1; ++i) ns.push_back(i);
            else { for (int i = 0; i < 12; ++i) ns.push_back(r.below(s.size())); ns.push_back(0); ns.push_back(s.size() - 1); ns.push_back(s.size()); ns.push_back(s.size() + 1); }
            for (auto k : ns) {
                char* p = static_cast<char*>(std::malloc(k ? k : 1));
                for (std::size_t i = 0; i < k; ++i) p[i] = i < s.size() ? char(~s[i]) : '#';
                auto q = cxon::to_bytes<F>(p, p + k, n);
                std::string at = std::to_string(k) + " of " + std::to_string(s.size());
                if (bool(q) != (k >= s.size())) viol(q ? "bounded:false-success" : "bounded:false-failure", at);
                if (!q && q.ec.value() != FERR) viol("bounded:ec", at + ": " + q.ec.message());
                if (q.end < p || q.end > p + k) viol("bounded:end", at);
                else if (q && (std::size_t(q.end - p) != s.size() || std::memcmp(p, s.data(), s.size()) != 0)) viol("bounded:bytes", at);
                bool un = false;
                for (std::size_t i = 0; i < k; ++i) {
                    char f = i < s.size() ? char(~s[i]) : '#';
                    if (p[i] == f) un = true; else if (un || i >= s.size() || p[i] != s[i]) { viol("bounded:prefix", at + ", at " + std::to_string(i)); break; }
                }
                std::free(p); mon::eval(mon::mix(mon::fnv(s), k)); mon::count(k >= s.size() ? "bounded:fits" : "bounded:short");
            }
        }
#       if PART == 1
        static void iters(Rng& r, const std::string& s) {
            bool lng = false;
#           if FMT == 0
                for (std::size_t i = 0, n = 0; i < s.size(); ++i) { n = std::strchr("0123456789+-.eE", s[i]) && s[i] ? n + 1 : 0; if (n > 60) lng = true; }
#           endif
            N n; Out o; { mon::exact e(s); o = read_ptr(n, e.begin(), e.end()); }
            auto cmp = [&](const char* nm, bool ok, std::size_t end, const N& m) {
                if (lng) return;
                if (o.ok != ok) viol(std::string("iters:outcome:") + nm, "pointers: " + std::to_string(o.ok) + ", " + nm + ": " + std::to_string(ok));
                else if (ok && o.end != end) viol(std::string("iters:end:") + nm, "pointers: " + std::to_string(o.end) + ", " + nm + ": " + std::to_string(end));
                else if (ok && !ref::same(to_v(n), to_v(m), true)) viol(std::string("iters:value:") + nm, "pointers: " + ref::show(to_v(n)) + ", " + nm + ": " + ref::show(to_v(m)));
            };
            mon::count(lng ? "iters:lenient" : o.ok ? "iters:accepted" : "iters:refused");
            { N c; mon::exact e(s); mon::stream st; st.p = e.begin(); st.e = e.end(); auto q = cxon::from_bytes<F>(c, mon::in_iter(&st), mon::in_iter()); cmp("input", bool(q), std::size_t(st.p - e.begin()), c); }
            { N c; mon::exact e(s); auto q = cxon::from_bytes<F>(c, mon::fw_iter(e.begin(), e.end()), mon::fw_iter(e.end(), e.end())); cmp("forward", bool(q), std::size_t(q.end.p - e.begin()), c); }
            if (r.chance(1, 2)) { N c; const std::list<char> l(s.begin(), s.end()); auto q = cxon::from_bytes<F>(c, l); cmp("list", bool(q), s.size() - std::size_t(std::distance(q.end, l.end())), c); }
            { N c; const std::string l(s); auto q = cxon::from_bytes<F>(c, l); cmp("string", bool(q), std::size_t(q.end - l.begin()), c); }
            mon::eval(mon::mix(mon::fnv(s), o.ok)); mon::digest(4, mon::mix(o.ok, o.ok ? mon::fnv(ref::show(to_v(n))) : 0));
        }
        // the same text in any two kinds of nodes; out through the other format and back
        static void cross(Rng& r, const std::string& s) {
            typedef typename std::conditional<is_json<N>::value, typename std::conditional<is_ordered<N>::value, cxon::cbor::ordered_node, cxon::cbor::node>::type,
                typename std::conditional<is_ordered<N>::value, cxon::json::ordered_node, cxon::json::node>::type>::type M;
            (void)r;
            bool ord = is_ordered<N>::value;
            mon::exact e(s); N n; Out o = read_ptr(n, e.begin(), e.end());
            M m; Out p = read_ptr(m, e.begin(), e.end());
            if (o.ok != p.ok || (o.ok && o.end != p.end)) { viol("cross:outcome", std::string(name_of<N>::v()) + ": " + std::to_string(o.ok) + "/" + std::to_string(o.end) + ", " + name_of<M>::v() + ": " + std::to_string(p.ok) + "/" + std::to_string(p.end)); return; }
            if (!o.ok) { mon::count("cross:refused"); return; }
            V a = to_v(n), b = to_v(m), ja = to_json(a), jb = to_json(b);
            Doc d(s); if (d.skip) { mon::count("cross:reserved"); return; }
            bool u = !ord && (dups(d.v) || dups(to_json(d.v)) || dups(ja) || dups(jb));
            if (u) mon::count("cross:repeated-names");
            else if (FMT == 0 ? !ref::same(a, b, ord) : !ref::same(ja, jb, ord)) viol("cross:kinds", ref::show(a) + " vs " + ref::show(b));
            mon::count("cross:accepted"); mon::eval(mon::fnv(s));
            // through CBOR: exactly
            { std::string w; auto q = cxon::to_bytes<cxon::CBOR<>>(w, n); mon::input(w); N x;
              if (!q) viol("cross:to-cbor", "fails: " + ref::show(a));
              else { auto z = cxon::from_bytes<cxon::CBOR<>>(x, w); if (!z || z.end != w.end()) viol("cross:from-cbor", "fails: " + ref::show(a)); else if (!ref::same(a, to_v(x), ord) || (!any_of(a, is_nan) && !(FMT == 0 && s.find("-0") != std::string::npos) && !(n == x))) viol("cross:cbor-value", ref::show(a) + " came back as " + ref::show(to_v(x))); }
              M y; auto z = cxon::from_bytes<cxon::CBOR<>>(y, w); if (q && !z) viol("cross:other-from-cbor", "fails: " + ref::show(a)); else if (q && !u && !ref::same(ja, to_json(to_v(y)), ord)) viol("cross:other-cbor-value", ref::show(a) + " came as " + ref::show(to_v(y)));
            }
            // through JSON: what JSON can express (keys as strings, finite numbers)
            struct no { static bool f(const V& v) { if (v.k == V::Real && !std::isfinite(v.r)) return true; if (v.k == V::Str && !ref::utf8_valid(v.s)) return true; if (v.k == V::Map) for (std::size_t i = 0; i < v.a.size(); i += 2) if (v.a[i].k != V::Str) return true; return false; } };
            if (!any_of(a, no::f)) {
                std::string w; auto q = cxon::to_bytes<cxon::JSON<>>(w, n); mon::input(w); N x;
                mon::count("cross:json");
                if (!q) viol("cross:to-json", "fails: " + ref::show(a));
                else {
                    V g; if (!ref::json_parse(w, g)) viol("cross:json-malformed", ref::show(a));
                    else if (!near(ja, g, ord) && !u) viol("cross:json-shape", ref::show(a) + " written as " + w);
                    auto z = cxon::from_bytes<cxon::JSON<>>(x, w); if (!z || z.end != w.end()) viol("cross:from-json", "fails: " + ref::show(a)); else if (!u && !near(ja, to_v(x), ord)) viol("cross:json-value", ref::show(a) + " came back as " + ref::show(to_v(x)));
                    // copies
                    N c(n), d; d = c; std::string t; cxon::to_bytes<cxon::JSON<>>(t, d); if (t != w) viol("cross:copy", "a copy is written differently");
                }
            }
        }
#       endif
    };

    struct Ops {
        const char* name;
        void (*accept)(Rng&, const std::string&); void (*safety)(Rng&, const std::string&); void (*stop)(Rng&, const std::string&); void (*rt)(Rng&); void (*bounded)(Rng&);
        void (*iters)(Rng&, const std::string&); void (*cross)(Rng&, const std::string&);
    };
    template <typename N> Ops ops() {
        Ops o = {name_of<N>::v(), 0, 0, 0, 0, 0, 0, 0};
#       if PART == 0
            o.accept = impl<N>::accept; o.safety = impl<N>::safety; o.stop = impl<N>::stop; o.rt = impl<N>::rt; o.bounded = impl<N>::bounded;
#       else
            o.iters = impl<N>::iters; o.cross = impl<N>::cross;
#       endif
        return o;
    }
    const std::vector<Ops>& table() { static const std::vector<Ops> t = {ops<cxon::json::node>(), ops<cxon::json::ordered_node>(), ops<cxon::cbor::node>(), ops<cxon::cbor::ordered_node>()}; return t; }
    const Ops& pick(Rng& r, const char* m) { auto& o = table()[r.below(table().size())]; mon::site(std::string(m) + (FMT == 0 ? " json " : " cbor ") + o.name); return o; }
    void smp(const std::string& s) { mon::input(s); mon::sample(FMT == 0 ? s : mon::hex(s)); }

#   if PART == 0
    void m_accept(Rng& r) { auto& o = pick(r, "accept"); auto s = doc(r); smp(s); o.accept(r, s); }
    void m_safety(Rng& r) { auto& o = pick(r, "safety"); auto s = doc(r); smp(s); o.safety(r, s); }
    void m_stop(Rng& r) { auto& o = pick(r, "stop"); auto s = doc(r); smp(s); o.stop(r, s); }
    void m_rt(Rng& r) { pick(r, "rt").rt(r); }
    void m_bounded(Rng& r) { pick(r, "bounded").bounded(r); }
#   else
    void m_iters(Rng& r) { auto& o = pick(r, "iters"); auto s = doc(r); smp(s); o.iters(r, s); }
    void m_cross(Rng& r) { auto& o = pick(r, "cross"); auto s = r.chance(1, 5) ? doc(r) : spell(r, gen(r, 4), false); smp(s); o.cross(r, s); }
#   endif

}

int main(int argc, char** argv) {
#   if PART == 0
        static const mon::Mode m[] = {{"accept", m_accept}, {"safety", m_safety}, {"stop", m_stop}, {"rt", m_rt}, {"bounded", m_bounded}};
#   else
        static const mon::Mode m[] = {{"iters", m_iters}, {"cross", m_cross}};
#   endif
    return mon::run(argc, argv, m);
}
