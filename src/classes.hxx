// Classes and enumerations registered with the library (FMT 0 - JSON, 1 - CBOR), their reference values and texts of them in any spelling.
#ifndef CLASSES_HXX_
#define CLASSES_HXX_

#include "ref.hxx"
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/map.hxx"
#include <map>
#include <vector>
#include <string>
#include <climits>

#if FMT == 0
#   define K_CLS CXON_JSON_CLS
#   define K_READ CXON_JSON_CLS_READ
#   define K_WRITE CXON_JSON_CLS_WRITE
#   define K_MEMBER CXON_JSON_CLS_MEMBER
#   define K_ASIS CXON_JSON_CLS_FIELD_ASIS
#   define K_NAME CXON_JSON_CLS_FIELD_NAME
#   define K_ASIS_D CXON_JSON_CLS_FIELD_ASIS_DFLT
#   define K_NAME_D CXON_JSON_CLS_FIELD_NAME_DFLT
#   define K_SKIP CXON_JSON_CLS_FIELD_SKIP
#   define K_ENM CXON_JSON_ENM
#   define K_VALUE(n, a, v) CXON_JSON_ENM_VALUE_NAME(n, v)
#else
#   define K_CLS CXON_CBOR_CLS
#   define K_READ CXON_CBOR_CLS_READ
#   define K_WRITE CXON_CBOR_CLS_WRITE
#   define K_MEMBER CXON_CBOR_CLS_MEMBER
#   define K_ASIS CXON_CBOR_CLS_FIELD_ASIS
#   define K_NAME CXON_CBOR_CLS_FIELD_NAME
#   define K_ASIS_D CXON_CBOR_CLS_FIELD_ASIS_DFLT
#   define K_NAME_D CXON_CBOR_CLS_FIELD_NAME_DFLT
#   define K_SKIP CXON_CBOR_CLS_FIELD_SKIP
#   define K_ENM CXON_CBOR_ENM
#   define K_VALUE(n, a, v) CXON_CBOR_ENM_VALUE_NAME(a, v)
#endif

namespace cls {

    typedef ref::V V;
    using mon::Rng;

    // ------------------------------------------------------------------------- enumerations

    enum class E1 { a, b, c, d, e, f, undeclared };
    enum E2 : unsigned char { e2x, e2y, e2z, e2undeclared };
    enum class E3 : long long { p, q, r, s, undeclared = LLONG_MAX };
    template <typename E> struct Decl { E v; std::string name; ref::i128 alias; };
    template <typename E> struct decls;
    template <> struct decls<E1> { static const std::vector<Decl<E1>>& v() { static const std::vector<Decl<E1>> d = {
        {E1::a, "red", 0}, {E1::b, "re", -1}, {E1::c, "redd", 24}, {E1::d, "green (1)", 256}, {E1::e, "\xC3\xA9\xE2\x82\xAC", INT_MIN}, {E1::f, "a\t\"b\\", INT_MAX}}; return d; } static E1 undeclared() { return E1::undeclared; } };
    template <> struct decls<E2> { static const std::vector<Decl<E2>>& v() { static const std::vector<Decl<E2>> d = {
        {e2x, "", 0}, {e2y, "0123456789012345678901234567890123456789012345678901234567890123", 255}, {e2z, "z", 23}}; return d; } static E2 undeclared() { return e2undeclared; } };
    template <> struct decls<E3> { static const std::vector<Decl<E3>>& v() { static const std::vector<Decl<E3>> d = {
        {E3::p, "p", (ref::i128)LLONG_MIN}, {E3::q, "P", 65536}, {E3::r, "pp", (ref::i128)LLONG_MAX}, {E3::s, "null", -25}}; return d; } static E3 undeclared() { return E3::undeclared; } };
    template <typename E> V enum_value(const Decl<E>& d) { return FMT == 1 ? V::integer(d.alias) : V::str(d.name); }

}
K_ENM(cls::E1, K_VALUE("red", 0, a), K_VALUE("re", -1, b), K_VALUE("redd", 24, c), K_VALUE("green (1)", 256, d), K_VALUE("\xC3\xA9\xE2\x82\xAC", INT_MIN, e), K_VALUE("a\t\"b\\", INT_MAX, f))
#if FMT == 0
CXON_JSON_ENM(cls::E2, CXON_JSON_ENM_VALUE(cls, "", e2x), CXON_JSON_ENM_VALUE(cls, "0123456789012345678901234567890123456789012345678901234567890123", e2y), CXON_JSON_ENM_VALUE(cls, "z", e2z))
#else
CXON_CBOR_ENM(cls::E2, CXON_CBOR_ENM_VALUE(cls, 0, e2x), CXON_CBOR_ENM_VALUE(cls, 255, e2y), CXON_CBOR_ENM_VALUE(cls, 23, e2z))
#endif
K_ENM(cls::E3, K_VALUE("p", LLONG_MIN, p), K_VALUE("P", 65536, q), K_VALUE("pp", LLONG_MAX, r), K_VALUE("null", -25, s))

namespace cls {

    // ------------------------------------------------------------------------- classes
    // each(f): f.skip(name) or f(name, member, default) for every declared field in order

    struct never { template <typename T> bool operator ()(const T&) const { return false; } };

    struct A { int a; std::string ab; bool abc; A() : a(0), abc(false) {}
        template <typename F> static void each(F& f) { f("a", &A::a, never()); f("ab", &A::ab, never()); f("abc", &A::abc, never()); }
    };
    struct B { std::vector<int> v; int n; double d; std::string s; E1 e; B() : n(7), d(0), s("dflt"), e(E1::b) {} // defaults and skipped members
        struct dn { bool operator ()(const B& b) const { return b.n == 7; } }; struct ds { bool operator ()(const B& b) const { return b.s == "dflt"; } };
        struct dv { bool operator ()(const B& b) const { return b.v.empty(); } }; struct de { bool operator ()(const B& b) const { return b.e == E1::b; } };
        template <typename F> static void each(F& f) { f("v", &B::v, dv()); f("n n", &B::n, dn()); f.skip("skip"); f("d", &B::d, never()); f("s", &B::s, ds()); f.skip(""); f("e", &B::e, de()); }
    };
    struct C { // members in the class, nested
        A a; std::vector<A> va; std::map<std::string, A> m; B b; unsigned u; E3 e; C() : u(0), e(E3::p) {}
        template <typename F> static void each(F& f) { f("a", &C::a, never()); f("va", &C::va, never()); f("m", &C::m, never()); f("b", &C::b, never()); f("\xE2\x82\xAC", &C::u, never()); f("e", &C::e, never()); }
#       if FMT == 0
            CXON_JSON_CLS_MEMBER(C, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(va), CXON_JSON_CLS_FIELD_ASIS(m), CXON_JSON_CLS_FIELD_ASIS(b), CXON_JSON_CLS_FIELD_NAME("\xE2\x82\xAC", u), CXON_JSON_CLS_FIELD_ASIS(e))
#       else
            CXON_CBOR_CLS_MEMBER(C, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_ASIS(va), CXON_CBOR_CLS_FIELD_ASIS(m), CXON_CBOR_CLS_FIELD_ASIS(b), CXON_CBOR_CLS_FIELD_NAME("\xE2\x82\xAC", u), CXON_CBOR_CLS_FIELD_ASIS(e))
#       endif
    };
    struct D { // names that need escaping
        int q; std::string t; double z; A a; D() : q(0), z(0) {}
        template <typename F> static void each(F& f) { f("\"", &D::q, never()); f("\t\\ x", &D::t, never()); f("\\t", &D::z, never()); f.skip("\n"); f("", &D::a, never()); }
#       if FMT == 0
            CXON_JSON_CLS_MEMBER(D, CXON_JSON_CLS_FIELD_NAME("\"", q), CXON_JSON_CLS_FIELD_NAME("\t\\ x", t), CXON_JSON_CLS_FIELD_NAME("\\t", z), CXON_JSON_CLS_FIELD_SKIP("\n"), CXON_JSON_CLS_FIELD_NAME("", a))
            CXON_JSON_CLS_NONTRIVIAL_KEY_MEMBER()
#       else
            CXON_CBOR_CLS_MEMBER(D, CXON_CBOR_CLS_FIELD_NAME("\"", q), CXON_CBOR_CLS_FIELD_NAME("\t\\ x", t), CXON_CBOR_CLS_FIELD_NAME("\\t", z), CXON_CBOR_CLS_FIELD_SKIP("\n"), CXON_CBOR_CLS_FIELD_NAME("", a))
#       endif
    };
    struct G { // many members
        int f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11; G() : f0(0), f1(0), f2(0), f3(0), f4(0), f5(0), f6(0), f7(0), f8(0), f9(0), f10(0), f11(0) {}
        template <typename F> static void each(F& f) { f("f0", &G::f0, never()); f("f1", &G::f1, never()); f("f2", &G::f2, never()); f("f3", &G::f3, never()); f("f4", &G::f4, never()); f("f5", &G::f5, never());
            f("f6", &G::f6, never()); f("f7", &G::f7, never()); f("f8", &G::f8, never()); f("f9", &G::f9, never()); f("f10", &G::f10, never()); f("f11", &G::f11, never()); }
    };
    struct H { // one member, with a name as long as allowed
        long long x; H() : x(0) {}
        template <typename F> static void each(F& f) { f(FMT == 1 ? "012345678901234567890123456789012345678901234567890123456789012" : "0123456789012345678901234567890123456789012345678901234567890123", &H::x, never()); }
    };
    struct I { std::map<std::string, E1> m; std::vector<E3> v; E2 e; I() : e(e2x) {} // default at both ends
        struct dm { bool operator ()(const I& i) const { return i.m.empty(); } }; struct dv { bool operator ()(const I& i) const { return i.v.empty(); } }; struct de { bool operator ()(const I& i) const { return i.e == e2x; } };
        template <typename F> static void each(F& f) { f.skip("x"); f("m", &I::m, dm()); f("v", &I::v, dv()); f("e", &I::e, de()); }
    };

}
K_CLS(cls::A, K_ASIS(a), K_ASIS(ab), K_ASIS(abc))
K_CLS(cls::B, K_ASIS_D(v, self.v.empty()), K_NAME_D("n n", n, self.n == 7), K_SKIP("skip"), K_ASIS(d), K_ASIS_D(s, self.s == "dflt"), K_SKIP(""), K_ASIS_D(e, self.e == cls::E1::b))
K_READ(cls::G, K_ASIS(f0), K_ASIS(f1), K_ASIS(f2), K_ASIS(f3), K_ASIS(f4), K_ASIS(f5), K_ASIS(f6), K_ASIS(f7), K_ASIS(f8), K_ASIS(f9), K_ASIS(f10), K_ASIS(f11))
K_WRITE(cls::G, K_ASIS(f0), K_ASIS(f1), K_ASIS(f2), K_ASIS(f3), K_ASIS(f4), K_ASIS(f5), K_ASIS(f6), K_ASIS(f7), K_ASIS(f8), K_ASIS(f9), K_ASIS(f10), K_ASIS(f11))
#if FMT == 1
K_CLS(cls::H, K_NAME("012345678901234567890123456789012345678901234567890123456789012", x))
#else
K_CLS(cls::H, K_NAME("0123456789012345678901234567890123456789012345678901234567890123", x))
#endif
K_CLS(cls::I, K_SKIP("x"), K_ASIS_D(m, self.m.empty()), K_ASIS_D(v, self.v.empty()), K_ASIS_D(e, self.e == cls::e2x))

namespace cls {

    template <typename T> struct is_class : std::false_type {};
    template <> struct is_class<A> : std::true_type {}; template <> struct is_class<B> : std::true_type {}; template <> struct is_class<C> : std::true_type {}; template <> struct is_class<D> : std::true_type {};
    template <> struct is_class<G> : std::true_type {}; template <> struct is_class<H> : std::true_type {}; template <> struct is_class<I> : std::true_type {};
    template <typename T> struct plain_names : std::integral_constant<bool, !std::is_same<T, D>::value> {}; // of JSON: compared as they are

    // ------------------------------------------------------------------------- values

    inline V value(bool b) { return V::boolean(b); }
    inline V value(int i) { return V::integer(i); }
    inline V value(unsigned i) { return V::integer(i); }
    inline V value(long long i) { return V::integer(i); }
    inline V value(double d) { return V::real(d); }
    inline V value(const std::string& s) { return V::str(s); }
    template <typename E> auto value(E e) -> typename std::enable_if<std::is_enum<E>::value, V>::type { for (auto& d : decls<E>::v()) if (d.v == e) return enum_value(d); return V::undef(); }
    template <typename T> auto value(const T& t, bool all = true) -> typename std::enable_if<is_class<T>::value, V>::type;
    template <typename T> V value(const std::vector<T>& v, bool all = true);
    template <typename T> V value(const std::map<std::string, T>& m, bool all = true);
    template <typename T> V value(const T& t, bool, long) { return value(t); }
    template <typename T> auto value(const T& t, bool all, int) -> decltype(value(t, all)) { return value(t, all); }
    template <typename T> struct Collect { const T& t; bool all; V v; // all - also the members of default value
        void skip(const char*) {}
        template <typename M, typename D> void operator ()(const char* n, M T::* m, D d) { if (all || !d(t)) v.add(V::str(n), value(t.*m, all, 0)); }
    };
    template <typename T> auto value(const T& t, bool all) -> typename std::enable_if<is_class<T>::value, V>::type { Collect<T> c{t, all, V::map()}; T::each(c); return c.v; }
    template <typename T> V value(const std::vector<T>& v, bool all) { V r = V::arr(); for (const T& e : v) r.a.push_back(value(e, all, 0)); return r; }
    template <typename T> V value(const std::map<std::string, T>& m, bool all) { V r = V::map(); for (auto& e : m) r.add(V::str(e.first), value(e.second, all, 0)); return r; }

    // what is read into is empty: containers are appended to
    template <typename T> inline void fresh(T& t) { t = T(); }
    inline void fresh(B& t) { t = B(); t.s.clear(); }
    inline void fresh(C& t) { t = C(); fresh(t.b); }

    inline std::string gen_name(Rng& r) { std::string s; for (std::size_t n = r.below(4); n; --n) ref::utf8_put(s, r.chance(3, 4) ? "ab\"\\ \n{}[]:,/"[r.below(13)] : ref::gen_cp(r)); return s; }

    // ------------------------------------------------------------------------- texts

    enum Flaw { None, Unknown, Repeated, NoValue, NoSeparator, BadValue, ExtraSeparator, Cut, Flaws };
    inline const char* flaw_name(Flaw f) { static const char* const n[] = {"none", "unknown", "repeated", "no-value", "no-separator", "bad-value", "extra-separator", "cut"}; return n[f]; }

    // writes texts of objects; changes the objects the way reading the text does
    struct Writer {
        Rng& r; Flaw flaw; std::string o; bool refused; // flaw is applied once somewhere
        ref::JsonSpell js; ref::CborSpell cs;
        Writer(Rng& r, Flaw f) : r(r), flaw(f), refused(false), js(unsigned(r.below(4)), unsigned(r.below(4))), cs(unsigned(r.below(4)), 0, r.chance(1, 2)) {}

        void ws() { ref::put_ws(r, js, o); }
        void put(const V& v) { if (FMT == 1) ref::cbor_text(r, cs, v, o); else ref::json_text(r, js, v, o); }
        bool flawed(Flaw f, unsigned n = 2) { if (flaw != f || !r.chance(1, n)) return false; flaw = None; refused = true; return true; }

        V bad(const V& good) { // of another kind
            for (;;) {
                V v; switch (r.below(5)) { case 0: v = V::str("x?"); break; case 1: v = V::boolean(r.chance(1, 2)); break; case 2: v = V::arr(); v.a.push_back(V::boolean(true)); break; case 3: v = V::map(); v.add(V::str("zz"), V::null()); break; default: v = V::null(); }
                if (v.k != good.k) return v;
            }
        }
        template <typename T> void leaf(T& t, const T& x) { V v = value(x); if (flawed(BadValue, 4)) { put(bad(v)); return; } t = x; put(v); }

        void text(bool& t) { leaf(t, r.chance(1, 2)); }
        void text(int& t) { leaf(t, r.chance(1, 4) ? int(r.bits()) : int(r.below(100)) - 50); }
        void text(unsigned& t) { leaf(t, unsigned(r.bits())); }
        void text(long long& t) { leaf(t, (long long)r.bits()); }
        void text(double& t) { double d; do d = ref::gen_double(r); while (!(d - d == 0)); leaf(t, d); }
        void text(std::string& t) { std::string s; if (r.chance(1, 2)) s = ref::gen_text(r, 40); else s = gen_name(r); t.clear(); leaf(t, s); }
        template <typename E> auto text(E& t) -> typename std::enable_if<std::is_enum<E>::value>::type { auto& d = decls<E>::v(); leaf(t, d[r.below(d.size())].v); }
        template <typename T> void text(std::vector<T>& t) {
            t.clear(); std::size_t n = r.below(4);
            if (FMT == 1) ref::cbor_head(r, cs, 4, n, o); else o += '[', ws();
            for (std::size_t i = 0; i < n; ++i) { if (FMT == 0 && i) o += ',', ws(); t.emplace_back(); text(t.back()); if (FMT == 0) ws(); }
            if (FMT == 0) o += ']';
        }
        template <typename T> void text(std::map<std::string, T>& t) {
            t.clear(); std::size_t n = r.below(3); std::vector<std::string> ks; while (ks.size() < n) { std::string k = gen_name(r); if (std::find(ks.begin(), ks.end(), k) == ks.end()) ks.push_back(k); }
            if (FMT == 1) ref::cbor_head(r, cs, 5, n, o); else o += '{', ws();
            for (std::size_t i = 0; i < n; ++i) { if (FMT == 0 && i) o += ',', ws(); put(V::str(ks[i])); if (FMT == 0) ws(), o += ':', ws(); text(t[ks[i]]); if (FMT == 0) ws(); }
            if (FMT == 0) o += '}';
        }
        // classes
        template <typename T> struct Lister { std::vector<std::pair<std::string, bool>> n; void skip(const char* s) { n.push_back({s, true}); } template <typename M, typename D> void operator ()(const char* s, M T::*, D) { n.push_back({s, false}); } };

        void name(const std::string& n, bool plain) {
            if (FMT == 1) { V v = V::str(n); if (n.size() < 63 && r.chance(1, 3)) v.s += '\0'; put(v); }
            else if (plain) o += '"' + n + '"';
            else ref::json_str(r, js, n, o);
        }
        std::string unknown(const std::vector<std::pair<std::string, bool>>& ns) {
            for (;;) {
                std::string s = ns[r.below(ns.size())].first;
                switch (r.below(7)) {
                    case 0: s += "abc _0"[r.below(6)]; break;
                    case 1: if (!s.empty()) s.erase(s.size() - 1); break;
                    case 2: if (!s.empty()) s[r.below(s.size())] ^= 0x20; break;
                    case 3: s.insert(s.begin(), ' '); break;
                    case 4: s += ns[r.below(ns.size())].first; break;
                    case 5: s += '\0'; if (r.chance(1, 2)) s += 'x'; break;
                    default: s = std::string(64 + r.below(3), 'x');
                }
                std::string t = s; if (FMT == 1 && !t.empty() && t.back() == 0) t.erase(t.size() - 1);
                bool known = false; for (auto& n : ns) known = known || n.first == t;
                if (!known && ref::utf8_valid(s)) return s;
            }
        }
        std::vector<std::size_t> top; // the members of the outermost class in the text
        template <typename T> auto text(T& t) -> typename std::enable_if<is_class<T>::value>::type {
            Lister<T> l; T::each(l); auto& ns = l.n; bool const outer = o.empty();
            if (!outer) fresh(t);
            std::vector<std::size_t> c; for (std::size_t i = 0; i < ns.size(); ++i) if (r.chance(3, 4)) c.push_back(i);
            for (std::size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[r.below(i)]);
            if (!c.empty() && flawed(Repeated)) c.insert(c.begin() + r.below(c.size() + 1), c[r.below(c.size())]);
            std::size_t u = flawed(Unknown) ? r.below(c.size() + 1) : c.size() + 1;
            if (u <= c.size()) c.insert(c.begin() + u, ~std::size_t(0));
            if (outer) top = c;
            if (FMT == 1) { std::size_t n = c.size(); ref::cbor_head(r, cs, 5, n, o); }
            else { o += '{'; ws(); if (flawed(ExtraSeparator, 4)) o += ',', ws(); }
            for (std::size_t i = 0; i < c.size(); ++i) {
                if (FMT == 0 && i) { if (!(c[i - 1] == ~std::size_t(0) || ns[c[i - 1]].second) && flawed(NoSeparator)) o += ' '; else o += ','; ws(); } // what is skipped is not looked into
                bool const un = c[i] == ~std::size_t(0);
                if (un && FMT == 0) ref::json_str(r, js, unknown(ns), o); else name(un ? unknown(ns) : ns[c[i]].first, plain_names<T>::value);
                if (FMT == 0) { ws(); if (flawed(NoValue, 4)) o += r.chance(1, 2) ? ":" : ""; else { o += ':'; ws(); any(t, c[i], un || ns[c[i]].second); } ws(); }
                else if (flawed(NoValue, 4)) break; // too few
                else any(t, c[i], un || ns[c[i]].second);
            }
            if (FMT == 0) { if (!c.empty() && flawed(ExtraSeparator, 2)) o += ',', ws(); o += '}'; }
        }
        template <typename T> void any(T& t, std::size_t i, bool skipped) {
            if (skipped) { V v = FMT == 1 ? untagged(ref::gen_cbor(r, unsigned(r.below(3)))) : ref::gen_json(r, unsigned(r.below(3)), true); put(v); }
            else at(t, i);
        }
        template <typename T> struct At { Writer& w; T& t; std::size_t i, k; void skip(const char*) { ++k; } template <typename M, typename D> void operator ()(const char*, M T::* m, D) { if (k++ == i) w.text(t.*m); } };
        template <typename T> void at(T& t, std::size_t i) { At<T> a{*this, t, i, 0}; T::each(a); }
        static V untagged(V v) { while (v.k == V::Tag) { V x = v.a[0]; v = x; } for (auto& e : v.a) e = untagged(e); return v; }
    };

}

#endif
