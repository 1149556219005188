// Comparison and hashing of generic nodes (FMT 0 - JSON, 1 - CBOR): equality is the equality of the model, ordering is a strict weak order that agrees with it, equal nodes hash equally
#if !defined(FMT)
#   define FMT 0
#endif
#include "nodes.hxx"
#include <list>
#include <unordered_set>
#include <unordered_map>

using namespace nodes;
using mon::viol;

#if FMT == 0
    typedef cxon::json::node N0; typedef cxon::json::ordered_node N1; typedef cxon::JSON<> F;
#   define MAPT object_type
    typedef cxon::json::node_traits<> NT;
    template <typename T> struct base_of { typedef cxon::json::basic_node<T> t; };
#else
    typedef cxon::cbor::node N0; typedef cxon::cbor::ordered_node N1; typedef cxon::CBOR<> F;
#   define MAPT map_type
    typedef cxon::cbor::node_traits<> NT;
    template <typename T> struct base_of { typedef cxon::cbor::basic_node<T> t; };
#endif
struct unordered_traits : NT { template <typename K, typename V> using MAPT = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, std::allocator<std::pair<const K, V>>>; };
struct multi_traits : NT { template <typename K, typename V> using MAPT = std::multimap<K, V>; };
struct list_traits : NT { template <typename T> using array_type = std::list<T>; };
typedef base_of<unordered_traits>::t N2; typedef base_of<multi_traits>::t N3; typedef base_of<list_traits>::t N4;
namespace nodes {
    template <> struct name_of<N2> { static const char* v() { return "node of unordered maps"; } };
    template <> struct name_of<N3> { static const char* v() { return "node of multimaps"; } };
    template <> struct name_of<N4> { static const char* v() { return "node of lists"; } };
}
template <typename N> struct unord : std::integral_constant<bool, std::is_same<N, N2>::value> {};

namespace {

    enum K { Null, Undef, Bool, Sint, Uint, Real, Str, Bytes, Simple, Tag, Arr, Map };
    struct M { K k = Null; long long i = 0; unsigned long long u = 0; double r = 0; std::string s; std::vector<M> a; explicit M(K k = Null) : k(k) {} };

    bool same(const M& a, const M& b, bool ordered) {
        if (a.k != b.k || a.i != b.i || a.u != b.u || a.r != b.r || a.s != b.s || a.a.size() != b.a.size()) return false;
        if (a.k == Map && !ordered) {
            std::vector<char> used(b.a.size(), 0);
            for (std::size_t i = 0; i < a.a.size(); i += 2) { bool f = false; for (std::size_t j = 0; j < b.a.size() && !f; j += 2) if (!used[j] && same(a.a[i], b.a[j], ordered) && same(a.a[i + 1], b.a[j + 1], ordered)) used[j] = 1, f = true; if (!f) return false; }
            return true;
        }
        for (std::size_t i = 0; i < a.a.size(); ++i) if (!same(a.a[i], b.a[i], ordered)) return false;
        return true;
    }
    void show(const M& m, std::string& o) {
        char b[40];
        switch (m.k) {
            case Null: o += "null"; break; case Undef: o += "undefined"; break; case Bool: o += m.u ? "true" : "false"; break;
            case Sint: o += "s" + std::to_string(m.i); break; case Uint: o += "u" + std::to_string(m.u); break;
            case Real: std::snprintf(b, sizeof b, "%.17g", m.r); o += b; break;
            case Str: o += mon::quote(m.s); break; case Bytes: o += "h'" + mon::hex(m.s) + "'"; break; case Simple: o += "simple" + std::to_string(m.u); break;
            case Tag: o += std::to_string(m.u) + "("; show(m.a[0], o); o += ")"; break;
            case Arr: o += "["; for (auto& e : m.a) show(e, o), o += ","; o += "]"; break;
            case Map: o += "{"; for (std::size_t i = 0; i < m.a.size(); i += 2) show(m.a[i], o), o += ":", show(m.a[i + 1], o), o += ","; o += "}"; break;
        }
    }
    std::string show(const M& m) { std::string o; show(m, o); return o; }

    std::string text(Rng& r) {
        static const char* const c[] = {"", "a", "b", "A", "aa", "ab", "a\0b", "\x80", "\xff", "\x7f", "abc", "abd", "a b", "z"};
        if (r.chance(2, 3)) { auto p = r.below(14); return p == 6 ? std::string("a\0b", 3) : std::string(c[p]); }
        std::string s; for (std::size_t n = r.len(40); n; --n) s += char(r.chance(1, 2) ? 'a' + r.below(3) : r.next()); return s;
    }
    double real(Rng& r) {
        static const double d[] = {0., -0., 1., -1., 0.5, 1e300, -1e300, 1e-310, -1e-310, 4.9e-324, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 9007199254740992., 2.};
        if (r.chance(2, 3)) return r.pick(d);
        for (;;) { std::uint64_t u = r.next(); double x; std::memcpy(&x, &u, 8); if (x == x) return x; }
    }
    M gen(Rng& r, unsigned d) {
        static const K js[] = {Null, Bool, Sint, Uint, Real, Str, Sint, Uint, Arr, Map, Arr, Map};
        static const K cs[] = {Null, Undef, Bool, Sint, Uint, Real, Str, Bytes, Simple, Tag, Arr, Map, Arr, Map, Tag};
        M m(FMT == 0 ? r.pick(js) : r.pick(cs));
        if (!d && (m.k == Arr || m.k == Map || m.k == Tag) && r.chance(3, 4)) m.k = Str;
        switch (m.k) {
            case Bool: m.u = r.below(2); break;
            case Sint: m.i = (long long)r.bits(); if (r.chance(1, 2)) m.i = (long long)r.below(7) - 3; break;
            case Uint: m.u = r.chance(1, 2) ? r.below(4) : r.bits(); break;
            case Real: m.r = real(r); break;
            case Str: m.s = text(r); break;
            case Bytes: m.s = text(r); break;
            case Simple: m.u = r.below(256); break;
            case Tag: m.u = r.chance(1, 2) ? r.below(3) : r.bits(); m.a.push_back(gen(r, d ? d - 1 : 0)); break;
            case Arr: for (std::size_t n = r.below(5); n; --n) m.a.push_back(gen(r, d ? d - 1 : 0)); break;
            case Map: for (std::size_t n = r.below(5); n; --n) {
                M k = r.chance(3, 4) ? M(Str) : gen(r, d ? d - 1 : 0); if (k.k == Str) k.s = text(r);
                bool dup = false; for (std::size_t i = 0; i < m.a.size(); i += 2) if (same(m.a[i], k, false)) dup = true;
                if (dup) continue;
                m.a.push_back(k); m.a.push_back(gen(r, d ? d - 1 : 0));
            } break;
            default: break;
        }
        return m;
    }
    bool dup_keys(const M& m) {
        if (m.k == Map) for (std::size_t i = 0; i < m.a.size(); i += 2) for (std::size_t j = i + 2; j < m.a.size(); j += 2) if (same(m.a[i], m.a[j], false)) return true;
        for (auto& e : m.a) if (dup_keys(e)) return true;
        return false;
    }
    void vary(Rng& r, M& m, unsigned d = 0) { // one small difference somewhere (or none)
        if (!m.a.empty() && r.chance(3, 4)) { vary(r, m.a[r.below(m.a.size())], d + 1); return; }
        switch (r.below(8)) {
            case 0: m = gen(r, 1); return;
            case 1: if (m.k == Sint) { auto i = m.i; m = M(Uint); m.u = (unsigned long long)i; return; } if (m.k == Uint) { auto u = m.u; m = M(Sint); m.i = (long long)u; return; } break;
            case 2: if (m.k == Sint || m.k == Uint) { double x = m.k == Sint ? double(m.i) : double(m.u); m = M(Real); m.r = x; return; } break;
            case 3: if (m.k == Str && FMT == 1) { m.k = Bytes; return; } if (m.k == Bytes) { m.k = Str; return; } break;
            default: break;
        }
        switch (m.k) {
            case Bool: m.u = !m.u; break;
            case Sint: m.i = r.chance(1, 2) ? (long long)(0 - (unsigned long long)m.i) : r.chance(1, 2) ? (long long)((unsigned long long)m.i + 1) : (long long)((unsigned long long)m.i - 1); break;
            case Uint: m.u += r.chance(1, 2) ? 1 : r.chance(1, 2) ? -1 : (1ull << 63); break;
            case Simple: m.u = (m.u + (r.chance(1, 2) ? 1 : 255)) & 255; break;
            case Real: m.r = r.chance(1, 2) ? -m.r : r.chance(1, 2) ? std::nextafter(m.r, 1e308) : real(r); break;
            case Str: case Bytes: if (m.s.empty() || r.chance(1, 3)) m.s += char(r.next()); else if (r.chance(1, 2)) m.s[r.below(m.s.size())] ^= char(1 << r.below(8)); else m.s.pop_back(); break;
            case Tag: m.u += r.chance(1, 2) ? 1 : -1; break;
            case Arr: if (m.a.empty() || r.chance(1, 2)) m.a.insert(m.a.begin() + r.below(m.a.size() + 1), gen(r, 0)); else if (r.chance(1, 2)) m.a.erase(m.a.begin() + r.below(m.a.size())); else std::swap(m.a[0], m.a[r.below(m.a.size())]); break;
            case Map: if (m.a.empty() || r.chance(1, 3)) { m.a.push_back(gen(r, 0)); m.a.push_back(gen(r, 0)); } else if (r.chance(1, 2)) { std::size_t i = 2 * r.below(m.a.size() / 2); m.a.erase(m.a.begin() + i, m.a.begin() + i + 2); }
                      else { std::size_t i = 2 * r.below(m.a.size() / 2); std::swap(m.a[0], m.a[i]); std::swap(m.a[1], m.a[i + 1]); } break;
            default: break;
        }
    }

    template <typename N> struct X;
    template <typename Tr> struct X<cxon::json::basic_node<Tr>> {
        typedef cxon::json::basic_node<Tr> N; typedef typename N::object map; typedef typename N::string str;
        static void special(const M&, N&) {}
    };
    template <typename Tr> struct X<cxon::cbor::basic_node<Tr>> {
        typedef cxon::cbor::basic_node<Tr> N; typedef typename N::map map; typedef typename N::text str;
        static void special(const M& m, N& n);
    };
    template <typename N> void put(Rng& r, const M& m, N& n) { // by assignment, construction, imbue
        switch (m.k) {
            case Null: n = nullptr; break;
            case Bool: if (r.chance(1, 2)) n = (m.u != 0); else n.template imbue<bool>() = m.u != 0; break;
            case Sint: if (r.chance(1, 2)) n = m.i; else n.template imbue<typename N::sint>() = m.i; break;
            case Uint: if (r.chance(1, 2)) n = m.u; else n.template imbue<typename N::uint>() = m.u; break;
            case Real: if (r.chance(1, 2)) n = m.r; else n = N(m.r); break;
            case Str: if (r.chance(1, 2)) n = typename X<N>::str(m.s.data(), m.s.size()); else n.template imbue<typename X<N>::str>() = m.s; break;
            case Arr: { n.template imbue<typename N::array>(); std::vector<N> t; for (auto& e : m.a) { N x; put(r, e, x); t.push_back(r.chance(1, 2) ? N(x) : std::move(x)); } typename N::array a(t.begin(), t.end()); n = std::move(a); break; }
            case Map: {
                auto& o = n.template imbue<typename X<N>::map>(); std::vector<std::size_t> ix; for (std::size_t i = 0; i < m.a.size(); i += 2) ix.push_back(i);
                if (!is_ordered<N>::value) for (std::size_t i = ix.size(); i > 1; --i) std::swap(ix[i - 1], ix[r.below(i)]);
                for (auto i : ix) { N k, v; put(r, m.a[i], k); put(r, m.a[i + 1], v); nodes::put(o, std::move(k), std::move(v), is_seq<typename X<N>::map>()); }
                break;
            }
            default: X<N>::special(m, n);
        }
    }
    template <typename Tr> void X<cxon::cbor::basic_node<Tr>>::special(const M& m, N& n) {
        Rng r(m.u + 7);
        switch (m.k) {
            case Undef: n.template imbue<typename N::undefined>(); break;
            case Bytes: { auto& b = n.template imbue<typename N::bytes>(); for (char c : m.s) b.push_back((unsigned char)c); break; }
            case Simple: n.template imbue<typename N::simple>() = typename N::simple((unsigned char)m.u); break;
            case Tag: { auto& t = n.template imbue<typename N::tag>(); t.tag = m.u; put(r, m.a[0], t.value); break; }
            default: break;
        }
    }

    template <typename N> std::size_t h(const N& n) { return cxon::make_hash(n); }

    template <typename N> bool less(const N& a, const N& b, std::false_type) { return a < b; }
    template <typename N> bool less(const N&, const N&, std::true_type) { return false; }
    template <typename N> struct sorted { // std::set for what has an order
        std::set<N> s; template <typename I> sorted(I b, I e) : s(b, e) {} std::size_t size(std::size_t) const { return s.size(); } bool has(const N& n) const { return s.count(n) != 0; }
    };
    template <> struct sorted<N2> { template <typename I> sorted(I, I) {} std::size_t size(std::size_t n) const { return n; } bool has(const N2&) const { return true; } };
    template <typename N> void relations(Rng& r) {
        mon::site(name_of<N>::v());
        M b = gen(r, r.below(4));
        std::vector<M> ms; ms.push_back(b);
        for (std::size_t n = 3 + r.below(4); n; --n) { M m = r.chance(1, 6) ? gen(r, 2) : r.pick(ms); for (unsigned c = r.below(3); c; --c) vary(r, m); ms.push_back(m); }
        if (!is_ordered<N>::value) { std::vector<M> t; for (auto& m : ms) if (!dup_keys(m)) t.push_back(m); ms.swap(t); if (ms.empty()) return; }
        std::string in; for (auto& m : ms) show(m, in), in += "\n"; mon::input(in);
        std::vector<N> ns(ms.size());
        for (std::size_t i = 0; i < ms.size(); ++i) put(r, ms[i], ns[i]);
        std::size_t n = ns.size();
        std::vector<std::vector<char>> lt(n, std::vector<char>(n)), eq(n, std::vector<char>(n));
        auto what = [&](std::size_t i, std::size_t j) { return show(ms[i]) + " and " + show(ms[j]); };
        for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) {
            const N &x = ns[i], &y = ns[j];
            bool e = same(ms[i], ms[j], is_ordered<N>::value);
            eq[i][j] = x == y; lt[i][j] = less(x, y, unord<N>());
            if (bool(eq[i][j]) != e) viol("cmp:equality", what(i, j) + (e ? " compare not equal" : " compare equal"));
            if ((x != y) == bool(eq[i][j])) viol("cmp:inequality", what(i, j));
            if (e && h(x) != h(y)) viol("cmp:hash", what(i, j) + " have different hashes");
            if (e && std::hash<N>()(x) != std::hash<N>()(y)) viol("cmp:hash", what(i, j) + " have different hashes (std)");
            if (!e && i != j) mon::count(h(x) == h(y) ? "cmp:collisions" : "cmp:different-hashes");
            mon::count(e ? "cmp:equal-pairs" : "cmp:unequal-pairs");
            if (i != j) mon::eval(mon::fnv(show(ms[i]) + "|" + show(ms[j])));
        }
        if (!unord<N>::value) for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) {
            int s = lt[i][j] + lt[j][i] + eq[i][j];
            if (s != 1) viol("cmp:trichotomy", what(i, j) + ": <, > and == hold " + std::to_string(s) + " times");
            for (std::size_t k = 0; k < n; ++k) if (lt[i][j] && lt[j][k] && !lt[i][k]) viol("cmp:transitivity", show(ms[i]) + " < " + show(ms[j]) + " < " + show(ms[k]));
            mon::count("cmp:triples", n);
        }
        // equal after a copy, a move, another construction
        {
            std::size_t i = r.below(n); N c(ns[i]); if (!(c == ns[i]) || less(c, ns[i], unord<N>()) || h(c) != h(ns[i])) viol("cmp:copy", show(ms[i]));
            N d(std::move(c)); if (d != ns[i] || less(ns[i], d, unord<N>()) || h(d) != h(ns[i])) viol("cmp:move", show(ms[i]));
            N f; put(r, ms[i], f); if (f != ns[i] || less(f, ns[i], unord<N>()) || h(f) != h(ns[i])) viol("cmp:rebuilt", show(ms[i]));
        }
        // as keys
        std::vector<M> u; for (auto& m : ms) { bool f = false; for (auto& x : u) if (same(x, m, is_ordered<N>::value)) f = true; if (!f) u.push_back(m); }
        sorted<N> os(ns.begin(), ns.end()); std::unordered_set<N> us(ns.begin(), ns.end());
        if (os.size(u.size()) != u.size()) viol("cmp:set", std::to_string(os.size(0)) + " elements instead of " + std::to_string(u.size()));
        if (us.size() != u.size()) viol("cmp:unordered-set", std::to_string(us.size()) + " elements instead of " + std::to_string(u.size()));
        for (auto& m : ms) { N x; put(r, m, x); if (!os.has(x)) viol("cmp:set", "not found: " + show(m)); if (!us.count(x)) viol("cmp:unordered-set", "not found: " + show(m)); }
        mon::digest(1, us.size());
        if (r.chance(1, 500)) mon::sample(mon::clip(in, 150));
    }

    // n op v is n op node(v)
    template <typename T> const T& made(const T& v) { return v; }
    inline double made(float v) { return v; }
    inline double made(long double v) { return double(v); }
    template <typename N, typename T> void plain(const std::vector<N>& ns, const std::vector<M>& ms, const T& v, const char* t) {
        N m(made(v));
        if (!(m == v) || !(v == m) || m != v || v != m) viol("cmp:plain-self", std::string(t) + ": a node made from the value is not equal to it");
        for (std::size_t i = 0; i < ns.size(); ++i) {
            const N& n = ns[i]; bool e = n == m;
            if ((n == v) != e || (v == n) != e) viol("cmp:plain", std::string(t) + ": " + show(ms[i]) + (e ? " is equal to the node made from the value, not to the value" : " is equal to the value, not to the node made from it"));
            if ((n != v) == e || (v != n) == e) viol("cmp:plain-not", std::string(t) + ": " + show(ms[i]));
            mon::count(e ? "cmp:plain-equal" : "cmp:plain-unequal");
        }
        mon::eval(mon::fnv(std::string(t) + show(ms[0])));
    }
    template <typename T, typename N> void ints(Rng& r, std::vector<N>& ns, std::vector<M>& ms, const char* t) {
        T v = T(r.bits()); if (r.chance(1, 4)) v = T(0 - (unsigned long long)v);
        std::vector<N> n2(ns.begin(), ns.begin() + 4); std::vector<M> m2(ms.begin(), ms.begin() + 4);
        M a(Sint), b(Uint), c(Real); a.i = (long long)v; b.u = (unsigned long long)v; c.r = double(v);
        for (auto& m : {a, b, c}) { N n; put(r, m, n); n2.push_back(n); m2.push_back(m); }
        plain(n2, m2, v, t);
    }
    template <typename N> void cbor_plain(Rng&, std::vector<N>&, std::vector<M>&, std::false_type) {}
    template <typename N> void cbor_plain(Rng& r, std::vector<N>& ns, std::vector<M>& ms, std::true_type) {
        for (std::size_t i = 0; i < ns.size(); ++i) { auto n = ns[i];
            if (auto* p = n.template get_if<typename N::bytes>()) plain(ns, ms, *p, "bytes");
            if (auto* p = n.template get_if<typename N::tag>()) plain(ns, ms, *p, "tag");
            if (auto* p = n.template get_if<typename N::simple>()) plain(ns, ms, *p, "simple");
        }
        typename N::undefined u{};
        N m(u); for (std::size_t i = 0; i < ns.size(); ++i) { bool e = ns[i] == m; if ((ns[i] == u) != e || (u == ns[i]) != e || (ns[i] != u) == e) viol("cmp:plain", "undefined: " + show(ms[i])); }
    }
    template <typename N> void plains(Rng& r) {
        mon::site(name_of<N>::v());
        std::vector<M> ms; for (unsigned i = 0; i < 4; ++i) ms.push_back(gen(r, r.below(3)));
        static const K ks[] = {Null, Bool, Str, Real, Sint, Uint};
        for (K k : ks) { M m(k); if (k == Str) m.s = text(r); if (k == Real) m.r = real(r); m.u = k == Bool ? r.below(2) : k == Uint ? r.below(3) : 0; if (k == Sint) m.i = (long long)r.below(3) - 1; ms.push_back(m); }
        if (!is_ordered<N>::value) for (auto& m : ms) if (dup_keys(m)) m = M(Null);
        std::string in; for (auto& m : ms) show(m, in), in += "\n"; mon::input(in);
        std::vector<N> ns(ms.size()); for (std::size_t i = 0; i < ms.size(); ++i) put(r, ms[i], ns[i]);
        ints<signed char>(r, ns, ms, "signed char"); ints<unsigned char>(r, ns, ms, "unsigned char"); ints<short>(r, ns, ms, "short"); ints<unsigned short>(r, ns, ms, "unsigned short");
        ints<int>(r, ns, ms, "int"); ints<unsigned>(r, ns, ms, "unsigned"); ints<long>(r, ns, ms, "long"); ints<unsigned long>(r, ns, ms, "unsigned long"); ints<long long>(r, ns, ms, "long long"); ints<unsigned long long>(r, ns, ms, "unsigned long long");
        ints<char>(r, ns, ms, "char"); ints<wchar_t>(r, ns, ms, "wchar_t"); ints<char16_t>(r, ns, ms, "char16_t"); ints<char32_t>(r, ns, ms, "char32_t");
        plain(ns, ms, true, "true"); plain(ns, ms, false, "false");
        double d = real(r); plain(ns, ms, d, "double");
        float f = float(d); plain(ns, ms, f, "float");
        long double l = d; plain(ns, ms, l, "long double");
        plain(ns, ms, nullptr, "nullptr");
        std::string s = ms[6].s; plain(ns, ms, typename X<N>::str(s.data(), s.size()), "string");
        const char* p = s.c_str(); plain(ns, ms, p, "const char*");
        for (std::size_t i = 0; i < 4; ++i) {
            auto n = ns[i];
            if (auto* a = n.template get_if<typename N::array>()) plain(ns, ms, *a, "array");
            if (auto* a = n.template get_if<typename X<N>::map>()) plain(ns, ms, *a, "map");
        }
        cbor_plain(r, ns, ms, std::integral_constant<bool, FMT == 1>());
    }

}

int main(int argc, char** argv) {
    static const mon::Mode m[] = {
        {"relations", [](Rng& r) { switch (r.below(6)) { case 0: relations<N2>(r); break; case 1: relations<N3>(r); break; case 2: relations<N4>(r); break; case 3: relations<N0>(r); break; default: relations<N1>(r); } }},
        {"plain", [](Rng& r) { if (r.chance(1, 2)) plains<N0>(r); else plains<N1>(r); }},
    };
    return mon::run(argc, argv, m);
}
