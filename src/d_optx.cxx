// Formats derived from JSON by options: generic nodes and classes in one format (OPT).
#define FMT 0
#include "nodes.hxx"
#include "opt.hxx"
#include "cxon/lib/node.ordered.hxx"

using ref::V; using zoo::X; using mon::Rng; using mon::viol;
using opt::cfg;
typedef cxon::JSON<opt::traits> F;
typedef cxon::JSON<> D;

// ----------------------------------------------------------------------------- classes

namespace oc {
    struct P { int x; double y; bool z; std::string a; P() : x(0), y(0), z(false) {} bool operator ==(const P& o) const { return x == o.x && y == o.y && z == o.z && a == o.a; } };
    struct S { int a; std::string b; std::vector<int> list; std::map<std::string, int> m; P p; std::vector<P> ps; std::map<int, P> mp; S() : a(0) {}
        bool operator ==(const S& o) const { return a == o.a && b == o.b && list == o.list && m == o.m && p == o.p && ps == o.ps && mp == o.mp; } };
    struct B : S {}; // no braces
    struct N { int a, b, c, d; std::string e; std::vector<P> f; N() : a(0), b(0), c(0), d(0) {} bool operator ==(const N& o) const { return a == o.a && b == o.b && c == o.c && d == o.d && e == o.e && f == o.f; } }; // names in need of escapes
}
CXON_JSON_CLS(oc::P, CXON_JSON_CLS_FIELD_ASIS(x), CXON_JSON_CLS_FIELD_SKIP("skip"), CXON_JSON_CLS_FIELD_ASIS(y), CXON_JSON_CLS_FIELD_ASIS(z), CXON_JSON_CLS_FIELD_ASIS(a))
CXON_JSON_CLS(oc::S, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(b), CXON_JSON_CLS_FIELD_ASIS(list), CXON_JSON_CLS_FIELD_ASIS(m), CXON_JSON_CLS_FIELD_ASIS(p), CXON_JSON_CLS_FIELD_SKIP("skip"), CXON_JSON_CLS_FIELD_ASIS(ps), CXON_JSON_CLS_FIELD_ASIS(mp))
CXON_JSON_CLS(oc::B, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(b), CXON_JSON_CLS_FIELD_ASIS(list), CXON_JSON_CLS_FIELD_ASIS(m), CXON_JSON_CLS_FIELD_ASIS(p), CXON_JSON_CLS_FIELD_SKIP("skip"), CXON_JSON_CLS_FIELD_ASIS(ps), CXON_JSON_CLS_FIELD_ASIS(mp))
CXON_JSON_CLS_BARE(oc::B)
CXON_JSON_CLS_NONTRIVIAL_KEY(oc::N)
CXON_JSON_CLS(oc::N, CXON_JSON_CLS_FIELD_NAME("a b", a), CXON_JSON_CLS_FIELD_NAME("\xE2\x82\xAC:=", b), CXON_JSON_CLS_FIELD_NAME("/}\"'", c), CXON_JSON_CLS_FIELD_NAME("}", d), CXON_JSON_CLS_FIELD_NAME("e\t\\n", e), CXON_JSON_CLS_FIELD_SKIP("f f"), CXON_JSON_CLS_FIELD_NAME("f", f))

namespace {

    static bool const plain = cfg.div == ':' && cfg.msep == ',' && cfg.lsep == ',' && cfg.del == '"';

    template <typename T> bool from_ptr(T& t, const std::string& s, std::size_t& end, std::string& ec) { mon::exact e(s); auto const c = cxon::from_bytes<F>(t, e.begin(), e.end()); end = std::size_t(c.end - e.begin()); ec = c.ec.message(); return bool(c); }
    template <typename T> bool from_stream(T& t, const std::string& s, std::size_t& end, std::string& ec) { mon::exact e(s); mon::stream st; st.p = e.begin(); st.e = e.end(); auto const c = cxon::from_bytes<F>(t, mon::in_iter(&st), mon::in_iter()); end = std::size_t(st.p - e.begin()); ec = c.ec.message(); return bool(c); }

    void uses(const opt::Text& w) {
        if (w.used & opt::Comments) mon::count("opt:comments");
        if (w.used & opt::Trailing) mon::count("opt:trailing");
        if (w.used & opt::RawKeys) mon::count("opt:raw-keys");
        if (w.used & opt::BareKeys) mon::count("opt:bare-keys");
        if (w.used & opt::Nans) mon::count("opt:nans");
    }

    // ------------------------------------------------------------------------- nodes

    opt::Opt node_cfg() { opt::Opt o = cfg; if (!o.qu) o.uq = false; return o; } // keys are values
    bool nonfin(const V& v) { return v.k == V::Real && !std::isfinite(v.r); }
    bool numlike(const V& v) { return v.k == V::Str && (v.s == "inf" || v.s == "-inf" || v.s == "nan" || v.s == "-nan"); }
    void keys(V& v, Rng& r, bool in_key = false) { // other kinds of keys, where the notation has them
        if (v.k == V::Map) for (std::size_t i = 0; i < v.a.size(); i += 2) {
            if (!in_key && r.chance(1, 3) && (!cfg.qu || cfg.uq)) {
                V k = ref::gen_json(r, 1);
                if ((cfg.qu && k.k != V::Arr && k.k != V::Map) || ref::V::Null == k.k) continue;
                v.a[i] = k; keys(v.a[i], r, true);
            }
        }
        for (std::size_t i = v.k == V::Map; i < v.a.size(); i += v.k == V::Map ? 2 : 1) keys(v.a[i], r, in_key);
    }
    V gen(Rng& r) {
        V v;
        do { v = ref::gen_json(r, 3); keys(v, r); v = nodes::of_json(v); } while (nodes::dups(v) || nodes::any_of(v, nonfin));
        if (cfg.nans && r.chance(1, 4)) { V* p = &v; while ((p->k == V::Arr || p->k == V::Map) && !p->a.empty()) p = &p->a.back(); if (p->k != V::Arr && p->k != V::Map) { static const double d[] = {INFINITY, -INFINITY, NAN}; *p = V::real(r.pick(d)); } }
        return v;
    }
    template <typename N> void node(Rng& r) {
        using namespace nodes;
        mon::site(std::string(opt::name) + ": " + name_of<N>::v());
        V v = gen(r);
        opt::Opt const o = node_cfg();
        auto check = [&](const char* key, const std::string& s, bool ordered) {
            for (int k = 0; k < 2; ++k) {
                N n; std::size_t end; std::string ec; bool const ok = k ? from_stream(n, s, end, ec) : from_ptr(n, s, end, ec);
                if (!ok) { viol(std::string(key) + ":refused", (k ? "from a stream: " : "") + ec + " at " + std::to_string(end) + ": " + s); return; }
                if (end != s.size()) { viol(std::string(key) + ":end", "ends at " + std::to_string(end) + " of " + std::to_string(s.size()) + ": " + s); return; }
                V w = to_v(n);
                if (!near(v, w, ordered)) { viol(std::string(key) + ":value", "expected " + ref::show(v) + "\n  read " + ref::show(w) + "\n  from " + s); return; }
            }
        };
        { opt::Text w(r, o); w.node = true; w.document(opt::of(v)); if (opt::no_way(w.s)) return; mon::input(w.s); mon::eval(mon::fnv(w.s)); mon::sample(w.s); mon::count("opt:node-read"); uses(w); check("opt:node-text", w.s, is_ordered<N>::value); }
        N n; make(v, n); std::string s; if (OPT == 11) { cxon::to_bytes<D>(s, n); if (opt::no_way(s)) return; s.clear(); } auto const c = cxon::to_bytes<F>(s, n); mon::input(s); mon::eval(mon::fnv(s)); mon::count("opt:node-written");
        if (!c) { viol("opt:node-write", c.ec.message()); return; }
        X x = opt::of(v); V g; opt::Reader p(o, s);
        if (is_ordered<N>::value && !p.document(g, &x)) { viol("opt:node-notation", p.err + " at " + std::to_string(s.size() - std::size_t(p.e - p.p)) + ": " + s); return; }
        check("opt:node-back", s, is_ordered<N>::value);
    }

    // ------------------------------------------------------------------------- classes

    template <typename K, typename T> void put(X& x, const K& k, const X& v, T) { X y(k); y.key = T::value; x.a.push_back(y); x.a.push_back(v); }
    void field(X& x, const char* k, const X& v) { X y(V::str(k)); y.f |= opt::Text::NAME; x.a.push_back(y); x.a.push_back(v); }
    X of(int i) { return X(V::integer(i)); }
    X of(bool b) { return X(V::boolean(b)); }
    X of(double d) { return zoo::xreal(d, 8); }
    X of(const std::string& s) { return X(V::str(s)); }
    X benign(Rng& r, unsigned d) { // skipped content, without unquoted keys that look like something else
        V v = ref::gen_json(r, d);
        struct fix { static void up(V& v, Rng& r) { if (v.k == V::Map) for (std::size_t i = 0; i < v.a.size(); i += 2) if (cfg.uq) { v.a[i].s.clear(); for (std::size_t n = 1 + r.below(4); n; --n) v.a[i].s += char('a' + r.below(26)); } for (auto& e : v.a) up(e, r); } };
        fix::up(v, r);
        X x = opt::of(v); struct pl { static void ain(X& x) { x.f |= opt::Text::NAME; for (auto& y : x.a) ain(y); } };
        if (cfg.uq) for (auto& y : x.a) pl::ain(y);
        return x;
    }
    struct Pick { Rng& r; bool all; bool operator ()() { return all || r.chance(3, 4); } };
    X of(oc::P& p, Rng& r, bool skip) {
        struct E { const char* n; X x; }; std::vector<E> v;
        p = oc::P();
        if (r.chance(3, 4)) { p.x = int(r.next()); v.push_back({"x", of(p.x)}); }
        if (r.chance(3, 4)) { p.y = double(int(r.next())) / 64; v.push_back({"y", of(p.y)}); }
        if (r.chance(3, 4)) { p.z = r.chance(1, 2); v.push_back({"z", of(p.z)}); }
        if (r.chance(3, 4)) { p.a = ref::gen_text(r, 12); v.push_back({"a", of(p.a)}); }
        if (skip && r.chance(1, 2)) v.push_back({"skip", benign(r, 2)});
        X x = zoo::xmap(); while (!v.empty()) { std::size_t i = r.below(v.size()); field(x, v[i].n, v[i].x); v.erase(v.begin() + long(i)); }
        return x;
    }
    X of(oc::S& s, Rng& r, bool skip) {
        struct E { const char* n; X x; }; std::vector<E> v;
        if (r.chance(3, 4)) { s.a = int(r.next()); v.push_back({"a", of(s.a)}); }
        if (r.chance(3, 4)) { s.b = ref::gen_text(r, 12); v.push_back({"b", of(s.b)}); }
        if (r.chance(3, 4)) { X x = zoo::xarr(); for (std::size_t n = r.below(4); n; --n) { int i = int(r.next()) >> r.below(31); s.list.push_back(i); x.a.push_back(of(i)); } v.push_back({"list", x}); }
        if (r.chance(3, 4)) { X x = zoo::xmap(); for (std::size_t n = r.below(4); n; --n) { auto k = ref::gen_text(r, 9); int i = int(r.next()); if (s.m.emplace(k, i).second) put(x, V::str(k), of(i), std::false_type()); } v.push_back({"m", x}); }
        if (r.chance(3, 4)) { v.push_back({"p", of(s.p, r, skip)}); }
        if (r.chance(3, 4)) { X x = zoo::xarr(); for (std::size_t n = r.below(4); n; --n) { oc::P p; x.a.push_back(of(p, r, skip)); s.ps.push_back(p); } v.push_back({"ps", x}); }
        if (r.chance(3, 4)) { X x = zoo::xmap(); for (std::size_t n = r.below(4); n; --n) { oc::P p; X y = of(p, r, skip); int k = int(r.next()); if (s.mp.emplace(k, p).second) put(x, V::integer(k), y, std::true_type()); } v.push_back({"mp", x}); }
        if (skip && r.chance(1, 2)) v.push_back({"skip", benign(r, 3)});
        X x = zoo::xmap(); while (!v.empty()) { std::size_t i = r.below(v.size()); field(x, v[i].n, v[i].x); v.erase(v.begin() + long(i)); }
        return x;
    }
    X of(oc::N& s, Rng& r, bool skip) {
        struct E { const char* n; X x; }; std::vector<E> v;
        if (r.chance(3, 4)) { s.a = int(r.next()); v.push_back({"a b", of(s.a)}); }
        if (r.chance(3, 4)) { s.b = int(r.next()); v.push_back({"\xE2\x82\xAC:=", of(s.b)}); }
        if (r.chance(3, 4)) { s.c = int(r.next()); v.push_back({"/}\"'", of(s.c)}); }
        if (r.chance(3, 4)) { s.d = int(r.next()); v.push_back({"}", of(s.d)}); }
        if (r.chance(3, 4)) { s.e = ref::gen_text(r, 12); v.push_back({"e\t\\n", of(s.e)}); }
        if (r.chance(3, 4)) { X x = zoo::xarr(); for (std::size_t n = r.below(4); n; --n) { oc::P p; x.a.push_back(of(p, r, skip)); s.f.push_back(p); } v.push_back({"f", x}); }
        if (skip && r.chance(1, 2)) v.push_back({"f f", benign(r, 3)});
        X x = zoo::xmap(); while (!v.empty()) { std::size_t i = r.below(v.size()); field(x, v[i].n, v[i].x); if (v[i].n[1] && v[i].n[0] != 'f') x.a[x.a.size() - 2].f = 0; x.a[x.a.size() - 2].f = 0; v.erase(v.begin() + long(i)); }
        return x;
    }
    template <typename T> struct is_bare : std::is_same<T, oc::B> {};

    template <typename T> void klass(Rng& r, const char* nm) {
        mon::site(std::string(opt::name) + ": class " + nm);
        T t; X x = of(t, r, true);
        auto check = [&](const char* key, const std::string& s) {
            for (int k = 0; k < 2; ++k) {
                T b; std::size_t end; std::string ec; bool const ok = k ? from_stream(b, s, end, ec) : from_ptr(b, s, end, ec);
                if (!ok) { viol(std::string(key) + ":refused", (k ? "from a stream: " : "") + ec + " at " + std::to_string(end) + ": " + s); return; }
                if (end != s.size()) { viol(std::string(key) + ":end", "ends at " + std::to_string(end) + " of " + std::to_string(s.size()) + ": " + s); return; }
                if (!(t == b)) { viol(std::string(key) + ":value", "another value from " + s); return; }
            }
        };
        {
            opt::Text w(r, cfg);
            if (is_bare<T>::value) w.bare(x); else w.document(x);
            if (opt::no_way(w.s)) return;
            mon::input(w.s); mon::eval(mon::fnv(w.s)); mon::sample(w.s); mon::count(is_bare<T>::value ? "opt:bare-class-read" : "opt:class-read"); uses(w); check("opt:class-text", w.s);
        }
        std::string s; if (OPT == 11) { cxon::to_bytes<D>(s, t); if (opt::no_way(s)) return; s.clear(); }
        auto const c = cxon::to_bytes<F>(s, t); mon::input(s); mon::eval(mon::fnv(s)); mon::count("opt:class-written");
        if (!c) { viol("opt:class-write", c.ec.message()); return; }
        check("opt:class-back", s);
    }

    void m_nodes(Rng& r) { if (r.chance(1, 2)) node<cxon::json::node>(r); else node<cxon::json::ordered_node>(r); }
    // unquoted keys with unbalanced brackets or quotes in skipped values
    void m_skip(Rng& r) {
        if (OPT != 6) return;
        static const char* const t[] = {"{skip={a}b=1} x=2}", "{skip={a\"b=1} x=2}"};
        std::size_t const n = r.below(2); std::string const s = t[n];
        mon::site("skip"); mon::input(s); mon::eval(mon::fnv(s));
        oc::P p; std::size_t end; std::string ec;
        if (!from_ptr(p, s, end, ec) || end != s.size() || p.x != 2) viol("opt:skip-raw-" + std::to_string(n), s);
    }
    void m_class(Rng& r) { if (r.chance(1, 200)) { m_skip(r); return; } switch (r.below(3)) { case 0: klass<oc::S>(r, "S"); break; case 1: klass<oc::B>(r, "B"); break; default: klass<oc::N>(r, "N"); } }

}

int main(int argc, char** argv) {
    static const mon::Mode modes[] = {{"nodes", m_nodes}, {"class", m_class}};
    return mon::run(argc, argv, modes);
}
