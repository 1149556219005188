// Classes and enumerations (FMT 0 - JSON, 1 - CBOR).
#if !defined(FMT)
#   define FMT 0
#endif
#include "classes.hxx"

using namespace cls;
using mon::viol;

#if FMT == 1
    typedef cxon::CBOR<> F;
#else
    typedef cxon::JSON<> F;
#endif
struct again : cxon::json::format_traits { static constexpr bool assume_unique_object_keys = false; };

namespace {

    template <typename T> struct name_of;
#   define NAME(T) template <> struct name_of<T> { static const char* v() { return #T; } };
        NAME(A) NAME(B) NAME(C) NAME(D) NAME(G) NAME(H) NAME(I) NAME(E1) NAME(E2) NAME(E3)
#   undef NAME

    template <typename T> struct Fill { T& t; Rng& r; void skip(const char*) {} template <typename M, typename D> void operator ()(const char*, M T::* m, D) { Writer w(r, None); w.text(t.*m); } };
    template <typename T> void fill(Rng& r, T& t) { Fill<T> f{t, r}; T::each(f); }

    template <typename X, typename T> bool read(T& t, const mon::exact& e, std::size_t& end, std::string* ec = nullptr) {
        auto const c = cxon::from_bytes<X>(t, e.begin(), e.end()); end = std::size_t(c.end - e.begin());
        if (ec) *ec = c.ec.message();
        return bool(c);
    }
    template <typename X, typename T> bool read_stream(T& t, const mon::exact& e) { mon::stream s; s.p = e.begin(); s.e = e.end(); return bool(cxon::from_bytes<X>(t, mon::in_iter(&s), mon::in_iter())); }

    // the members read into are empty, arithmetic ones are as they were
    template <typename T> struct Blank { T& t; const std::vector<std::size_t>& top; std::size_t k; void skip(const char*) { ++k; }
        template <typename M> static void clear(M& m, std::true_type) { fresh(m); }
        template <typename M> static void clear(M&, std::false_type) {}
        template <typename M, typename D> void operator ()(const char*, M T::* m, D) {
            for (auto i : top) if (i == k) { clear(t.*m, std::integral_constant<bool, !std::is_arithmetic<M>::value && !std::is_enum<M>::value>()); break; }
            ++k;
        }
    };
    template <typename T> T blank(const T& pre, const std::vector<std::size_t>& top) { T t = pre; Blank<T> b{t, top, 0}; T::each(b); return t; }

    bool eq(const V& a, const V& b) { return ref::same(a, b, true); }

    // ------------------------------------------------------------------------- reading objects

    template <typename T> void reads(Rng& r) {
        mon::site(name_of<T>::v());
        T pre; if (r.chance(2, 3)) fill(r, pre);
        T want = pre; Writer w(r, r.chance(1, 2) ? None : Flaw(1 + r.below(Flaws - 1))); Flaw const flaw = w.flaw;
        w.text(want);
        std::string s = w.o; bool refused = w.refused;
        if (flaw == Cut) { s.resize(r.below(s.size())); refused = true; }
        std::string tail; if (!refused && r.chance(1, 4)) tail = FMT == 1 ? std::string("\x01", 1) : std::string(",");
        mon::input(s + tail); mon::eval(mon::fnv(s)); mon::sample(FMT == 1 ? mon::hex(s) : s);
        mon::exact e(s + tail);
        std::size_t end = 0; std::string ec; T a = blank(pre, w.top); bool const ok = read<F>(a, e, end, &ec);
        mon::count(std::string("class:") + (refused ? std::string("flaw-") + flaw_name(flaw) : "accepted"));
        if (ok != !refused) { viol(ok ? std::string("class:accepted-") + flaw_name(flaw) : "class:refused", (ok ? "accepted" : "refused: " + ec)); return; }
        if (ok) {
            if (end != s.size()) viol("class:end", "ends at " + std::to_string(end) + " of " + std::to_string(s.size()));
            if (!eq(value(a), value(want))) viol("class:value", "read " + ref::show(value(a)) + "\n  expected " + ref::show(value(want)));
        }
        else { // what is not in the text is as it was
            V x = value(a), y = value(pre);
            Writer::Lister<T> l; T::each(l);
            for (std::size_t i = 0, k = 0; i < l.n.size(); ++i) { if (l.n[i].second) continue; if (std::find(w.top.begin(), w.top.end(), i) == w.top.end() && !eq(x.a[k + 1], y.a[k + 1])) viol("class:changed", "member not in the text: " + l.n[i].first); k += 2; }
        }
        T b = blank(pre, w.top); bool const ok2 = read_stream<F>(b, e);
        if (ok2 != ok) viol("class:stream", "another outcome from a stream");
        else if (ok && !eq(value(b), value(want))) viol("class:stream", "read " + ref::show(value(b)) + "\n  expected " + ref::show(value(want)));
    }

    // ------------------------------------------------------------------------- writing objects

    bool like(const V& a, const V& b) { // JSON has one kind of numbers
        if (FMT == 0 && (a.k == V::Int || a.k == V::Real) && (b.k == V::Int || b.k == V::Real) && a.k != b.k) return (a.k == V::Int ? double(a.i) : a.r) == (b.k == V::Int ? double(b.i) : b.r);
        if (a.k != b.k || a.a.size() != b.a.size()) return false;
        if (a.k != V::Arr && a.k != V::Map) return eq(a, b);
        for (std::size_t i = 0; i < a.a.size(); ++i) if (!like(a.a[i], b.a[i])) return false;
        return true;
    }
    template <typename T> void ready(T&, const T&) {}
    void ready(B& x, const B& t) { if (t.s != "dflt") x.s.clear(); } // strings are appended to
    void ready(C& x, const C& t) { ready(x.b, t.b); }
    template <typename T> struct Some { T& t; const T& d; Rng& r; void skip(const char*) {} template <typename M, typename D> void operator ()(const char*, M T::* m, D) { if (r.chance(1, 2)) t.*m = d.*m; } };
    // CBOR: names of members are written with the terminating zero, in the order of declaration
    template <typename M> struct Named { static void all(V&) {} };
    template <typename M> struct Named<std::vector<M>> { static void all(V& v) { for (auto& e : v.a) Named<M>::all(e); } };
    template <typename M> struct Named<std::map<std::string, M>> { static void all(V& v) { for (std::size_t i = 1; i < v.a.size(); i += 2) Named<M>::all(v.a[i]); } };
    template <typename T> struct Zero { V& v; std::size_t i; void skip(const char*) {} template <typename M, typename D> void operator ()(const char* n, M T::*, D) {
        if (i + 1 >= v.a.size()) return;
        V& k = v.a[i]; if (k.k != V::Str || k.s != std::string(n) + '\0') return;
        k.s.erase(k.s.size() - 1); Named<M>::all(v.a[i + 1]); i += 2; } };
    template <typename T> void zero(V& v) { if (v.k == V::Map) { Zero<T> z{v, 0}; T::each(z); } }
#   define NAMED(T) template <> struct Named<T> { static void all(V& v) { zero<T>(v); } };
        NAMED(A) NAMED(B) NAMED(C) NAMED(D) NAMED(G) NAMED(H) NAMED(I)
#   undef NAMED

    template <typename T> void writes(Rng& r) {
        mon::site(name_of<T>::v());
        T t; if (r.chance(7, 8)) fill(r, t);
        if (r.chance(1, 2)) { T d; Some<T> p{t, d, r}; T::each(p); }
        V const want = value(t, false); mon::input(ref::show(want));
        std::string o; auto const c = cxon::to_bytes<F>(o, t);
        mon::eval(mon::fnv(o)); mon::sample(FMT == 1 ? mon::hex(o) : o); mon::count("class:written");
        if (!c) { viol("class:write", c.ec.message()); return; }
        V v; bool const ok = FMT == 1 ? ref::cbor_parse(o, v) : ref::json_parse(o, v);
        if (!ok) { viol("class:written", "not well-formed: " + (FMT == 1 ? mon::hex(o) : o)); return; }
        if (FMT == 1) Named<T>::all(v);
        if (!like(v, want)) viol("class:written", "wrote " + ref::show(v) + "\n  expected " + ref::show(want));
        mon::exact e(o); T x; ready(x, t); std::size_t end = 0; std::string ec;
        if (!read<F>(x, e, end, &ec) || end != o.size()) { viol("class:read-back", ec + " at " + std::to_string(end)); return; }
        if (!eq(value(x), value(t))) viol("class:read-back", "read " + ref::show(value(x)) + "\n  expected " + ref::show(value(t)));
    }

    // texts of objects changed in some byte: whatever is accepted is read the same from streams, and is consistent
    template <typename T> void mutated(Rng& r) {
        mon::site(name_of<T>::v());
        T o; Writer w(r, None); w.text(o); std::string s = w.o;
        for (std::size_t n = 1 + r.below(3); n; --n) ref::mutate(r, s);
        mon::input(s); mon::eval(mon::fnv(s)); mon::exact e(s);
        T a, b; std::vector<std::size_t> all; for (std::size_t i = 0; i < 16; ++i) all.push_back(i);
        a = b = blank(T(), all);
        std::size_t end = 0; bool const ok = read<F>(a, e, end), ok2 = read_stream<F>(b, e);
        mon::count(ok ? "class:mutated-accepted" : "class:mutated-refused");
        if (ok != ok2) { // numbers are read with some leniency from pointers
            V v; if (FMT == 1 || !ok || ref::json_parse(s.substr(0, end), v)) viol("class:stream", "another outcome from a stream");
            return;
        }
        if (!ok) return;
        if (!eq(value(a), value(b))) { viol("class:stream", ref::show(value(a)) + "\n  from a stream " + ref::show(value(b))); return; }
        if (end > s.size()) viol("class:end", "past the end");
    }

    // ------------------------------------------------------------------------- enumerations

    template <typename E> const Decl<E>* find(const V& v) {
        for (auto& d : decls<E>::v()) if (FMT == 1 ? v.k == V::Int && v.i == d.alias : v.k == V::Str && v.s == d.name) return &d;
        return nullptr;
    }
    template <typename E> void enums(Rng& r) {
        mon::site(name_of<E>::v());
        auto& ds = decls<E>::v(); auto const& d0 = ds[r.below(ds.size())];
        // reading
        V v;
        switch (r.below(6)) {
            case 0: v = FMT == 1 ? Writer::untagged(ref::gen_cbor(r, 2)) : ref::gen_json(r, 2, true); break;
            case 1: if (FMT == 1) { ref::i128 x = d0.alias; x += (ref::i128)r.below(5) - 2; if (r.chance(1, 4)) x = -x; if (r.chance(1, 6)) x += ref::i128(1) << (8 << r.below(3)); if (x > (ref::i128)ULLONG_MAX || x < -(ref::i128)ULLONG_MAX - 1) x = 0; v = V::integer(x); break; } // fall through
            case 2: { std::string s = d0.name;
                switch (r.below(6)) { case 0: s += "ade 1"[r.below(5)]; break; case 1: if (!s.empty()) s.erase(s.size() - 1); break; case 2: if (!s.empty()) s.erase(0, 1); break; case 3: s = ref::gen_text(r, 100); break; case 4: s += '\0'; break; default: if (!s.empty()) s[r.below(s.size())] ^= 0x20; }
                if (!ref::utf8_valid(s)) s = "?";
                v = V::str(s); break; }
            default: v = enum_value(d0);
        }
        if (FMT == 1 && v.k == V::Str && r.chance(1, 2)) v = V::str(d0.name); // names are not accepted
        std::string s; ref::JsonSpell js(unsigned(r.below(4)), unsigned(r.below(4))); ref::CborSpell cs(unsigned(r.below(4)), 0, r.chance(1, 2));
        if (FMT == 1) { if (r.chance(1, 6)) ref::cbor_head(r, cs, 6, r.bits(), s); ref::cbor_text(r, cs, v, s); } else ref::json_text(r, js, v, s);
        bool cut = false; if (!s.empty() && r.chance(1, 10)) s.resize(r.below(s.size())), cut = true;
        mon::input(s); mon::eval(mon::fnv(s)); mon::exact e(s);
        const Decl<E>* const d = cut ? nullptr : find<E>(v);
        E const before = r.chance(1, 2) ? decls<E>::undeclared() : ds[r.below(ds.size())].v;
        for (int k = 0; k < 2; ++k) {
            E x = before; std::size_t end = s.size(); std::string ec; bool const ok = k ? read_stream<F>(x, e) : read<F>(x, e, end, &ec);
            mon::count(d ? "enum:in" : "enum:out");
            if (ok != !!d) { viol(ok ? "enum:accepted" : "enum:refused", ref::show(v) + (ok ? " accepted as " + ref::show(value(x)) : " refused: " + ec)); return; }
            if (ok && x != d->v) { viol("enum:value", ref::show(v) + " read as " + ref::show(value(x))); return; }
            if (!ok && x != before) viol("enum:changed", "changed by a refused read");
            if (ok && end != s.size()) viol("enum:end", "ends at " + std::to_string(end));
        }
        // writing
        E const w = r.chance(1, 4) ? decls<E>::undeclared() : d0.v; std::string o; auto const c = cxon::to_bytes<F>(o, w);
        if (w == decls<E>::undeclared()) { if (c) viol("enum:written-undeclared", FMT == 1 ? mon::hex(o) : o); if (!o.empty()) viol("enum:written-undeclared", "something is written: " + o); }
        else {
            V x; bool const ok = c && (FMT == 1 ? ref::cbor_parse(o, x) : ref::json_parse(o, x)); mon::count("enum:written");
            if (!ok || !eq(x, enum_value(d0))) viol("enum:written", ref::show(enum_value(d0)) + " written as " + (FMT == 1 ? mon::hex(o) : o));
        }
    }

    // ------------------------------------------------------------------------- repeated names allowed

#   if FMT == 0
    void again_(Rng& r) { // the last value stays
        mon::site("G, repeated names");
        G want, got; std::string s = "{"; ref::JsonSpell js(unsigned(r.below(4)), 0); bool unknown = false;
        int G::* const m[] = {&G::f0, &G::f1, &G::f2, &G::f3, &G::f4, &G::f5, &G::f6, &G::f7, &G::f8, &G::f9, &G::f10, &G::f11};
        unsigned const n = unsigned(r.below(20)); bool repeated = false; unsigned seen = 0;
        for (unsigned i = 0; i < n; ++i) {
            unsigned const k = unsigned(r.below(r.chance(1, 50) ? 13 : 12)); int const x = int(r.bits());
            if (i) s += ','; ref::put_ws(r, js, s); s += "\"f" + std::to_string(k) + "\""; ref::put_ws(r, js, s); s += ':'; ref::put_ws(r, js, s); s += std::to_string(x); ref::put_ws(r, js, s);
            if (k == 12) unknown = true; else { want.*m[k] = x; if (seen >> k & 1) repeated = true; seen |= 1u << k; }
        }
        s += '}'; mon::input(s); mon::eval(mon::fnv(s)); mon::exact e(s);
        std::size_t end = 0; std::string ec; bool const ok = read<cxon::JSON<again>>(got, e, end, &ec);
        mon::count(repeated ? "again:repeated" : "again:once");
        if (ok != !unknown) { viol(ok ? "again:accepted" : "again:refused", ec); return; }
        if (ok && !eq(value(got), value(want))) viol("again:value", "read " + ref::show(value(got)) + "\n  expected " + ref::show(value(want)));
        G g; bool const ok2 = read<F>(g, e, end);
        if (ok2 != !(unknown || repeated)) viol(ok2 ? "class:accepted-repeated" : "class:refused", "");
    }
#   endif

    // ------------------------------------------------------------------------- values kept as they are

#   if FMT == 0
    struct Sunk { int a; cxon::cio::val::sink<std::string> b; int c; Sunk() : a(0), c(0) {} CXON_JSON_CLS_MEMBER(Sunk, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(b), CXON_JSON_CLS_FIELD_ASIS(c)) };
    typedef std::string raw_t;
#   else
    struct Sunk { int a; cxon::cbor::sink<std::vector<unsigned char>> b; int c; Sunk() : a(0), c(0) {} CXON_CBOR_CLS_MEMBER(Sunk, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_ASIS(b), CXON_CBOR_CLS_FIELD_ASIS(c)) };
    typedef std::vector<unsigned char> raw_t;
#   endif
    void sinks(Rng& r) {
        mon::site("sink");
        std::string raw, s; ref::JsonSpell js(unsigned(r.below(4)), unsigned(r.below(4))), tight(0, js.esc); ref::CborSpell cs(unsigned(r.below(4)), 0, r.chance(1, 2));
        if (FMT == 1) ref::cbor_text(r, cs, Writer::untagged(ref::gen_cbor(r, 3)), raw); else { ref::json_text(r, js, ref::gen_json(r, 3, true), raw); raw = ref::json_strip(raw); }
        int const a = int(r.bits()), c = int(r.bits());
        auto const key = [&](const char* k) { if (FMT == 1) { V v = V::str(k); if (r.chance(1, 2)) v.s += '\0'; ref::cbor_text(r, cs, v, s); } else { s += '"'; s += k; s += '"'; ref::put_ws(r, js, s); s += ':'; ref::put_ws(r, js, s); } };
        auto const num = [&](int x) { if (FMT == 1) ref::cbor_text(r, cs, V::integer(x), s); else s += std::to_string(x), ref::put_ws(r, js, s); };
        auto const sep = [&] { if (FMT == 0) s += ',', ref::put_ws(r, js, s); };
        if (FMT == 1) s += '\xA3'; else s += '{';
        std::string after; // white space after the value belongs to no one
        key("a"); num(a); sep(); key("b"); s += raw; if (FMT == 0) ref::put_ws(r, js, s); sep(); key("c"); num(c);
        if (FMT == 0) s += '}';
        mon::input(s); mon::eval(mon::fnv(s)); mon::exact e(s); mon::count("sink");
        for (int k = 0; k < 2; ++k) {
            Sunk x; std::size_t end = s.size(); std::string ec; bool const ok = k ? read_stream<F>(x, e) : read<F>(x, e, end, &ec);
            if (!ok || end != s.size()) { viol("sink:refused", ec + " at " + std::to_string(end)); return; }
            std::string b(x.b.value.begin(), x.b.value.end()); if (FMT == 0) b = ref::json_strip(b);
            if (x.a != a || x.c != c || b != raw) { viol("sink:value", "kept " + mon::quote(b) + "\n  expected " + mon::quote(raw)); return; }
            std::string o; auto const w = cxon::to_bytes<F>(o, x);
            V v, u, u0; bool const wf = w && (FMT == 1 ? ref::cbor_parse(o, v) : ref::json_parse(o, v)) && v.k == V::Map && v.a.size() == 6;
            if (!wf) { viol("sink:written", FMT == 1 ? mon::hex(o) : o); return; }
            FMT == 1 ? ref::cbor_parse(raw, u) : ref::json_parse(raw, u);
            if (!eq(v.a[3], u)) { viol("sink:written", FMT == 1 ? mon::hex(o) : o); return; }
        }
    }

    // ------------------------------------------------------------------------- members of the class itself

    struct Stat { int a; static int b; static std::string c; Stat() : a(0) {} };
    int Stat::b = 0; std::string Stat::c;
}
K_CLS(Stat, K_ASIS(a), K_ASIS(b), K_NAME("cc", c))
namespace {
    void statics(Rng& r) {
        mon::site("Stat");
        Stat t; t.a = int(r.bits()); Stat::b = int(r.bits()); Stat::c = ref::gen_text(r, 20); int const a = t.a, b = Stat::b; std::string const c = Stat::c;
        std::string o; if (!cxon::to_bytes<F>(o, t)) { viol("static:write", ""); return; }
        mon::input(o); mon::eval(mon::fnv(o)); mon::exact e(o); mon::count("static");
        Stat x; Stat::b = 0; Stat::c.clear(); std::size_t end = 0; std::string ec;
        if (!read<F>(x, e, end, &ec) || end != o.size()) { viol("static:read", ec); return; }
        if (x.a != a || Stat::b != b || Stat::c != c) viol("static:value", "");
    }

    void mutate_(Rng& r) { switch (r.below(7)) { case 0: mutated<A>(r); break; case 1: mutated<B>(r); break; case 2: mutated<C>(r); break; case 3: mutated<D>(r); break; case 4: mutated<G>(r); break; case 5: mutated<H>(r); break; default: mutated<I>(r); } }
    void read_(Rng& r) { switch (r.below(8)) { case 0: reads<A>(r); break; case 1: reads<B>(r); break; case 2: reads<C>(r); break; case 3: reads<D>(r); break; case 4: reads<G>(r); break; case 5: reads<H>(r); break; case 6: reads<I>(r); break; default: mutate_(r); } }
    void write_(Rng& r) { switch (r.below(9)) { case 0: writes<A>(r); break; case 1: writes<B>(r); break; case 2: case 3: writes<C>(r); break; case 4: writes<D>(r); break; case 5: writes<G>(r); break; case 6: writes<H>(r); break; case 7: writes<I>(r); break; default: statics(r); } }
    void enum_(Rng& r) { switch (r.below(3)) { case 0: enums<E1>(r); break; case 1: enums<E2>(r); break; default: enums<E3>(r); } }
    void keep_(Rng& r) {
#       if FMT == 0
            if (r.chance(1, 2)) { again_(r); return; }
#       endif
        sinks(r);
    }

    // ------------------------------------------------------------------------- fixed inputs: what is skipped or kept is a whole item

    void whole(Rng&) {
#       if FMT == 1
            static const struct { bool kept; const char* s; std::size_t n; } in[] = {
#               define IN(k, s) {k, s, sizeof(s) - 1}
                IN(false, "\xA2\x64skip\x5F\x41\x00\xFF\x61""d\x01"), IN(false, "\xA2\x64skip\x9F\x01\xFF\x61""d\x01"), IN(false, "\xA2\x64skip\xBF\x01\x02\xFF\x61""d\x01"),
                IN(false, "\xA2\x64skip\xC2\x01\x61""d\x01"), IN(false, "\xA2\x64skip\x5F\x41\xFF\xFF\x61""d\x01"),
                IN(true, "\xA3\x61""a\x01\x61""b\x7F\x61""x\xFF\x61""c\x02"), IN(true, "\xA3\x61""a\x01\x61""b\xC2\x01\x61""c\x02"), IN(true, "\xA3\x61""a\x01\x61""b\x5F\x41\xFF\xFF\x61""c\x02")
#               undef IN
            };
            for (auto& x : in) {
                std::string const s(x.s, x.n); mon::input(s); mon::eval(mon::fnv(s)); mon::exact e(s); std::size_t end = 0; std::string ec; bool ok; mon::count("whole");
                if (x.kept) { mon::site("sink"); Sunk t; ok = read<F>(t, e, end, &ec) && t.a == 1 && t.c == 2; } else { mon::site("skip"); B t; ok = read<F>(t, e, end, &ec) && t.d == 1; }
                if (!ok) viol("class:part-skipped-" + std::to_string(&x - in), ec);
            }
#       else
            static const char* const in[] = {
                "{\"skip\":\"]}\\\"\",\"d\":1}", "{\"skip\":[\"]\",{\"}\":[]}],\"d\":1}", "{\"skip\":{\"a\":\"\\\\\"},\"d\":1}", "{\"skip\":null ,\"d\":1}", "{\"d\":1,\"skip\":1.5e+3}", "{\"skip\":\"//\",\"d\":1}"
            };
            for (auto x : in) {
                std::string const s(x); mon::input(s); mon::eval(mon::fnv(s)); mon::exact e(s); std::size_t end = 0; std::string ec; mon::count("whole"); mon::site("skip");
                B t; if (!(read<F>(t, e, end, &ec) && t.d == 1 && end == s.size())) viol("class:part-skipped", ec);
            }
#       endif
    }

}

int main(int argc, char** argv) {
    static const mon::Mode modes[] = {{"read", read_}, {"write", write_}, {"enum", enum_}, {"keep", keep_}, {"whole", whole}};
    return mon::run(argc, argv, modes);
}
