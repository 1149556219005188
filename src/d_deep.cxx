// Stack and memory stay bounded: NODE 0-3 - the recursion limit of nodes; NODE 4 - long inputs on a small stack; NODE 5 - what reading allocates (types of GROUP and nodes).
#define MON_LEDGER
#include "nodes.hxx"
#include "cxon/lang/json/tidy.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/string.hxx"
#include <list>
#include <pthread.h>
#if NODE == 5
#   include "types.hxx"
#elif NODE == 4
#   include "cxon/cxcf.hxx"
#endif

using ref::V;
using mon::Rng; using mon::viol;

struct traits_raw : cxon::json::format_traits { static constexpr bool quote_unquoted_keys = false; };
struct traits_unq : cxon::json::format_traits { static constexpr bool unquote_quoted_keys = true; };
struct traits_com : cxon::json::format_traits { static constexpr bool allow_comments = true; };
typedef cxon::JSON<> FJ; typedef cxon::JSON<traits_raw> JR; typedef cxon::JSON<traits_unq> JU; typedef cxon::JSON<traits_com> JC; typedef cxon::CBOR<> FC;

namespace {

#if NODE < 4

    typedef std::conditional<NODE == 0, cxon::json::node, std::conditional<NODE == 1, cxon::json::ordered_node, std::conditional<NODE == 2, cxon::cbor::node, cxon::cbor::ordered_node>::type>::type>::type N;
    static constexpr bool JN = nodes::is_json<N>::value;
    using cxon::node::recursion_depth; using cxon::node::recursion_guard;

    enum Style { Plain, Raw, Unq, Cbor };

    // a nested value of a given depth with siblings
    struct Gen {
        Rng& r; Style st; unsigned want; std::string path;
        unsigned small() { return unsigned(r.below(3)); }
        V leaf(unsigned d) { // of depth up to d
            switch (r.below(d && want < 1000 ? 6 : 4)) {
                case 0: return V::integer(i128(r.below(1000))); case 1: return V::str("s"); case 2: return V::boolean(r.chance(1, 2)); case 3: return V::null();
                case 4: return V::arr(); default: return V::map();
            }
        }
        V scalar_key(unsigned i) { return V::str("k" + std::to_string(i)); }
        // ks - where a key may be anything
        V make(unsigned d, bool in_key) {
            if (d == 0) { V v = leaf(0); if (v.k == V::Null) v = V::integer(1); return v; }
            bool const keys = st != Plain || !reading;
            unsigned k = unsigned(r.below(st == Cbor ? 10 : 8));
            if (mono < 10) k = mono;
            if (in_key && st == Unq) k = 0;
            if ((k == 7 || k == 6) && !keys) k = 5;
            if (k >= 8 && !(st == Cbor && (tags || reading))) k = 0;
            if (k < 3) {
                path += 'a'; V v = V::arr(); for (unsigned n = small(); n; --n) v.a.push_back(leaf(d - 1)); v.a.push_back(make(d - 1, in_key)); for (unsigned n = small(); n; --n) v.a.push_back(leaf(d - 1)); return v;
            }
            if (k < 6) { path += 'o'; V v = V::map(); unsigned i = 0; for (unsigned n = small(); n; --n) v.add(scalar_key(i++), leaf(d - 1)); v.add(scalar_key(i++), make(d - 1, in_key)); return v; }
            if (k < 8) { path += 'k'; V v = V::map(); if (d == 1 && st != Cbor) v.add(V::str("k"), leaf(0)); else v.add(make(d - 1, true), leaf(d - 1)); return v; }
            path += 't'; return V::tagged(r.below(1000), make(d - 1, in_key));
        }
        bool reading, tags; unsigned mono;
        typedef ref::i128 i128;
        Gen(Rng& r, Style st, unsigned want, bool reading, bool tags) : r(r), st(st), want(want), reading(reading), tags(tags), mono(r.chance(1, 4) ? unsigned(r.below(10)) : 10) {}
    };

    void json(Rng& r, const V& v, Style st, bool key, std::string& o) {
        switch (v.k) {
            case V::Arr: o += '['; for (std::size_t i = 0; i < v.a.size(); ++i) { if (i) o += ','; json(r, v.a[i], st, key, o); } o += ']'; break;
            case V::Map:
                o += '{';
                for (std::size_t i = 0; i < v.a.size(); i += 2) {
                    if (i) o += ',';
                    if (st == Unq && v.a[i].k == V::Str) o += v.a[i].s; else json(r, v.a[i], st, key || st == Unq, o);
                    o += ':'; json(r, v.a[i + 1], st, key, o);
                }
                o += '}'; break;
            case V::Str: if (key) { o += '7'; break; } o += '"' + v.s + '"'; break;
            case V::Int: o += ref::i2s(v.i); break;
            case V::Bool: o += v.b ? "true" : "false"; break;
            default: o += "null";
        }
    }

    template <typename F, typename T, typename It, typename ...P> bool from_(T& t, It b, It e, std::error_condition& ec, P&&... p) { auto const x = cxon::from_bytes<F>(t, b, e, std::forward<P>(p)...); ec = x.ec; return bool(x); }

    // limits
    template <unsigned L> struct lim { template <typename F, typename T, typename It> static bool read(T& t, It b, It e, std::error_condition& ec) { return from_<F>(t, b, e, ec, recursion_depth::set<L>()); }
        template <typename F, typename O, typename T> static bool write(O& o, const T& t, std::error_condition& ec) { auto const x = cxon::to_bytes<F>(o, t, recursion_depth::set<L>()); ec = x.ec; return bool(x); } };
    template <> struct lim<64> { template <typename F, typename T, typename It> static bool read(T& t, It b, It e, std::error_condition& ec) { return from_<F>(t, b, e, ec); }
        template <typename F, typename O, typename T> static bool write(O& o, const T& t, std::error_condition& ec) { auto const x = cxon::to_bytes<F>(o, t); ec = x.ec; return bool(x); } };
    struct guard9 { template <typename F, typename T, typename It> static bool read(T& t, It b, It e, std::error_condition& ec) { return from_<F>(t, b, e, ec, recursion_guard::set(0), recursion_depth::set<9>()); }
        template <typename F, typename O, typename T> static bool write(O& o, const T& t, std::error_condition& ec) { auto const x = cxon::to_bytes<F>(o, t, recursion_guard::set(0), recursion_depth::set<9>()); ec = x.ec; return bool(x); } };

    const unsigned limits[] = {64, 1, 2, 5, 100};

    void judge(const char* dir, bool ok, const std::error_condition& ec, unsigned d, unsigned l, const std::string& path) {
        std::string const k = std::string("depth:") + dir; bool const fits = d < l;
        std::string const at = " at depth " + std::to_string(d) + " of " + std::to_string(l) + ", path " + path.substr(0, 80);
        if (ok && !fits) viol((k + "-unlimited").c_str(), "accepted" + at);
        else if (!ok && fits) viol((k + "-refused").c_str(), ec.message() + at);
        else if (!ok && ec != cxon::node::error::recursion_depth_exceeded) viol((k + "-error").c_str(), ec.message() + at);
        mon::count(k + (fits ? "-fits" : "-over"));
        if (d + 1 == l) mon::count("depth:last");
        if (d == l) mon::count("depth:first");
        for (char c : path.substr(0, 200)) { static const std::string n[] = {"depth:array", "depth:value", "depth:key", "depth:tag"}; mon::count(n[c == 'a' ? 0 : c == 'o' ? 1 : c == 'k' ? 2 : 3]); }
    }
    unsigned depth_for(Rng& r, unsigned l, bool deep) { switch (r.below(deep ? 6 : 5)) { case 0: return l; case 1: return l - 1; case 2: return l + 1; case 3: return l + unsigned(r.below(40)); case 4: return unsigned(r.below(l + 1)); default: return l + 3000; } }

    template <typename F, typename L> void read_with(Rng& r, const std::string& s, unsigned d, unsigned l, const std::string& path) {
        std::error_condition ec; N n; bool ok;
        switch (r.below(3)) {
            case 0: { mon::exact e(s); ok = L::template read<F>(n, e.begin(), e.end(), ec); break; }
            case 1: { std::list<char> c(s.begin(), s.end()); ok = L::template read<F>(n, c.begin(), c.end(), ec); break; }
            default: { mon::exact e(s); mon::stream st; st.p = e.begin(); st.e = e.end(); ok = L::template read<F>(n, mon::in_iter(&st), mon::in_iter(), ec); }
        }
        judge("read", ok, ec, d, l, path);
    }
    template <typename F> void read_as(Rng& r, const std::string& s, unsigned d, unsigned l, const std::string& path) {
        switch (l) {
            case 1: read_with<F, lim<1>>(r, s, d, l, path); break; case 2: read_with<F, lim<2>>(r, s, d, l, path); break; case 5: read_with<F, lim<5>>(r, s, d, l, path); break;
            case 100: read_with<F, lim<100>>(r, s, d, l, path); break; default: read_with<F, lim<64>>(r, s, d, l, path);
        }
    }
    void m_read(Rng& r) {
        Style const st = Style(r.below(4)); unsigned const l = r.pick(limits), d = depth_for(r, l, true);
        Gen g(r, st, d, true, true); V const v = g.make(d, false); std::string s;
        static const char* const names[] = {" from JSON", " from JSON with raw keys", " from JSON with unquoted keys", " from CBOR"};
        mon::site((std::string(nodes::name_of<N>::v()) + names[st]).c_str());
        if (st == Cbor) { ref::CborSpell sp; sp.wide = unsigned(r.below(3)); sp.indef = unsigned(r.below(5)); ref::cbor_text(r, sp, v, s); } else json(r, v, st, false, s);
        if (d > l + 2 && r.chance(1, 4)) s.resize(s.size() - r.below(3)); // no closing
        mon::input(s); mon::eval(mon::mix(mon::fnv(s), l)); mon::sample(s);
        switch (st) {
            case Plain: read_as<FJ>(r, s, d, l, g.path); break; case Raw: read_as<JR>(r, s, d, l, g.path); break; case Unq: read_as<JU>(r, s, d, l, g.path); break;
            default: read_as<FC>(r, s, d, l, g.path);
        }
    }
    // nodes in containers, with the guard passed
    void m_inside(Rng& r) {
        bool const cb = r.chance(1, 2); unsigned const l = 9, d = depth_for(r, l, true);
        Gen g(r, cb ? Cbor : Plain, d, true, true); V const v = g.make(d, false); std::string s;
        V w = V::arr(); bool const map = r.chance(1, 2); if (map) { w = V::map(); w.add(V::str("a"), V::arr()); w.add(V::str("b"), v); } else { w.a.push_back(V::integer(1)); w.a.push_back(v); }
        mon::site((std::string(map ? "std::map<std::string, " : "std::vector<") + nodes::name_of<N>::v() + ">").c_str());
        if (cb) { ref::CborSpell sp; ref::cbor_text(r, sp, w, s); } else json(r, w, Plain, false, s);
        mon::input(s); mon::eval(mon::fnv(s));
        std::error_condition ec; bool ok; std::vector<N> a; std::map<std::string, N> m; mon::exact e(s);
        if (map) ok = cb ? guard9::read<FC>(m, e.begin(), e.end(), ec) : guard9::read<FJ>(m, e.begin(), e.end(), ec);
        else ok = cb ? guard9::read<FC>(a, e.begin(), e.end(), ec) : guard9::read<FJ>(a, e.begin(), e.end(), ec);
        judge("inside", ok, ec, d, l, g.path);
        if (!ok) return;
        std::string o; // and back
        if (map) ok = cb ? guard9::write<FC>(o, m, ec) : guard9::write<FJ>(o, m, ec); else ok = cb ? guard9::write<FC>(o, a, ec) : guard9::write<FJ>(o, a, ec);
        judge("inside", ok, ec, d, l, g.path);
    }

    template <typename F, typename L> bool tidy_with(const N& n, std::error_condition& ec, std::true_type) { std::string o; auto i = cxon::json::make_indenter(o, 1, ' '); return L::template write<F>(i, n, ec); }
    template <typename F, typename L> bool tidy_with(const N&, std::error_condition&, std::false_type) { return false; }
    template <typename F, typename L> void write_with(Rng& r, const N& n, unsigned d, unsigned l, const std::string& path, bool tidy) {
        std::error_condition ec; bool ok;
        switch (tidy ? 2 : r.below(2)) {
            case 0: { std::string o; ok = L::template write<F>(o, n, ec); break; }
            default: { std::list<char> o; ok = L::template write<F>(o, n, ec); break; }
            case 2: ok = tidy_with<F, L>(n, ec, std::integral_constant<bool, !std::is_same<F, FC>::value>());
        }
        judge("write", ok, ec, d, l, path);
    }
    template <typename F> void write_as(Rng& r, const N& n, unsigned d, unsigned l, const std::string& path, bool tidy = false) {
        switch (l) {
            case 1: write_with<F, lim<1>>(r, n, d, l, path, tidy); break; case 2: write_with<F, lim<2>>(r, n, d, l, path, tidy); break; case 5: write_with<F, lim<5>>(r, n, d, l, path, tidy); break;
            case 100: write_with<F, lim<100>>(r, n, d, l, path, tidy); break; default: write_with<F, lim<64>>(r, n, d, l, path, tidy);
        }
    }
    void m_write(Rng& r) {
        Style const st = Style(r.below(4)); unsigned const l = r.pick(limits), d = depth_for(r, l, false);
        Gen g(r, Cbor, d, false, !JN); V const v = g.make(d, false); N n; nodes::make(v, n);
        static const char* const names[] = {" to JSON", " to JSON with raw keys", " to JSON with unquoted keys", " to CBOR"};
        mon::site((std::string(nodes::name_of<N>::v()) + names[st]).c_str()); std::string s; ref::CborSpell sp; ref::cbor_text(r, sp, v, s);
        mon::input(s); mon::eval(mon::mix(mon::fnv(s), l)); mon::sample(s);
        switch (st) {
            case Plain: write_as<FJ>(r, n, d, l, g.path, r.chance(1, 4)); break; case Raw: write_as<JR>(r, n, d, l, g.path); break; case Unq: write_as<JU>(r, n, d, l, g.path); break;
            default: write_as<FC>(r, n, d, l, g.path);
        }
    }

#   define MODES {"read", m_read}, {"write", m_write}, {"inside", m_inside}

#elif NODE == 4

    // ---------------------------------------------------------------- long inputs on a small stack

}
    struct JCls { int a, d; JCls() : a(0), d(0) {} };
#   include "cxon/lang/json/class.hxx"
#   include "cxon/lang/cbor/class.hxx"
    CXON_JSON_CLS_READ(JCls, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_SKIP("skip"), CXON_JSON_CLS_FIELD_ASIS(d))
    CXON_CBOR_CLS_READ(JCls, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_SKIP("skip"), CXON_CBOR_CLS_FIELD_ASIS(d))
namespace {

    std::string rep(const std::string& s, std::size_t n) { std::string r; r.reserve(s.size() * n); while (n--) r += s; return r; }
    std::string head(Rng& r, unsigned major, std::uint64_t n) { std::string s; ref::CborSpell sp; ref::cbor_head(r, sp, major, n, s); return s; }

    // the small stack
    struct Job { void (*f)(Rng&, std::size_t); Rng* r; std::size_t n; };
    void* body(void* p) { Job& j = *static_cast<Job*>(p); j.f(*j.r, j.n); return nullptr; }
    void on_small_stack(Rng& r, void (*f)(Rng&, std::size_t), std::size_t n) {
        Job j = {f, &r, n}; pthread_attr_t a; pthread_t t; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 2 << 20);
        if (pthread_create(&t, &a, body, &j)) { std::fprintf(stderr, "no thread\n"); std::exit(9); }
        pthread_join(t, nullptr); pthread_attr_destroy(&a);
    }

    template <typename F, typename T> int read(Rng& r, T& t, const std::string& s, std::error_condition* why = nullptr) { // 0, 1 - read to the end, 2 - part of it
        mon::input(s); mon::eval(mon::fnv(s)); mon::count("long:inputs");
        std::size_t left; bool ok; std::error_condition ec;
        switch (r.below(2)) {
            case 0: { mon::exact e(s); auto x = cxon::from_bytes<F>(t, e.begin(), e.end()); ok = bool(x); ec = x.ec; left = std::size_t(e.end() - x.end); break; }
            default: { mon::exact e(s); mon::stream st; st.p = e.begin(); st.e = e.end(); auto x = cxon::from_bytes<F>(t, mon::in_iter(&st), mon::in_iter()); ok = bool(x); ec = x.ec; left = ok ? std::size_t(st.e - st.p) : 0; }
        }
        if (why) *why = ec;
        mon::count(ok ? "long:accepted" : "long:refused");
        return !ok ? 0 : left ? 2 : 1;
    }
    template <typename F, typename T> void must(Rng& r, const char* what, const std::string& s, int exp, T t = T()) {
        mon::site(what); std::error_condition ec; int const g = read<F>(r, t, s, &ec);
        if (g != exp) viol("long:outcome", std::string(what) + ": " + (g == 0 ? "refused: " + ec.message() : g == 1 ? "read" : "read in part") + " instead of " + (exp == 0 ? "refused" : "read"));
    }
    template <typename F, typename T> void limited(Rng& r, const char* what, const std::string& s) {
        mon::site(what); std::error_condition ec; T t;
        if (read<F>(r, t, s, &ec) != 0) viol("long:unlimited", what); else if (ec != cxon::node::error::recursion_depth_exceeded) viol("long:error", std::string(what) + ": " + ec.message());
    }
    typedef cxon::cio::val::sink<std::string> JS; typedef cxon::cbor::sink<std::vector<unsigned char>> CS;

    void jskip(Rng& r, std::size_t n) { // what is skipped or kept
        std::string v; switch (r.below(7)) {
            case 0: v = std::string(n, '[') + std::string(n, ']'); break;
            case 1: v = rep("{\"a\":", n) + "1" + std::string(n, '}'); break;
            case 2: v = rep("[{\"]\":", n / 2) + "[]" + rep("}]", n / 2); break;
            case 3: v = "\"" + rep("\\\\", n) + "\""; break;
            case 4: v = std::string(n, '7'); break;
            case 5: v = "[" + rep("[],", n) + "{}]"; break;
            case 6: v = "[" + rep(" \n\t\r", n) + "]"; break;
        }
        must<FJ, JCls>(r, "a class with a skipped member", "{\"a\":1,\"skip\":" + v + ",\"d\":2}", 1);
        if (r.chance(1, 2)) must<FJ, JS>(r, "a JSON value kept as it is", v, 1);
        if (r.chance(1, 4)) must<JC, JCls>(r, "a class with a skipped member, comments", "{\"a\":1,\"skip\":[" + rep("/**/", n) + rep("//\n", n) + "],\"d\":2}", 1);
        if (r.chance(1, 4)) must<FJ, JCls>(r, "a class with a skipped member, cut off", "{\"a\":1,\"skip\":" + rep(r.chance(1, 2) ? "[" : "{\"\":", n), 0);
    }
    void cskip(Rng& r, std::size_t n) {
        std::string v; switch (r.below(8)) {
            case 0: v = std::string(n, '\x81') + "\x01"; break;
            case 1: v = std::string(n, '\x9F') + std::string(n, '\xFF'); break;
            case 2: v = rep("\xA1\x01", n) + "\x01"; break;
            case 3: v = rep(std::string("\xBF\x01", 2), n) + "\x01" + std::string(n, '\xFF'); break;
            case 4: v = std::string(n, '\xA1') + rep("\x01", n + 1); break; // in keys
            case 5: v = "\x5F" + std::string(n, '\x40') + "\xFF"; break;
            case 6: v = head(r, 4, n) + std::string(n, '\x80'); break;
            case 7: v = rep("\x81\x9F", n / 2) + "\x80" + std::string(n / 2, '\xFF'); break;
        }
        must<FC, JCls>(r, "a class with a skipped member", "\xA3\x61""a\x01\x64skip" + v + "\x61""d\x02", 1);
        if (r.chance(1, 2)) must<FC, CS>(r, "a CBOR item kept as it is", v, 1);
        if (r.chance(1, 4)) must<FC, JCls>(r, "a class with a skipped member, cut off", "\xA2\x64skip" + v.substr(0, v.size() / 2), 0);
        if (r.chance(1, 4)) { CS t; mon::site("a CBOR item kept as it is, announced lengths"); std::string s; while (s.size() < n) s += head(r, 2 + unsigned(r.below(5)), r.bits() | (1u << 20)); read<FC>(r, t, s); }
    }
    void blank(Rng& r, std::size_t n) { // white space and comments
        std::string const w = r.chance(1, 2) ? rep(" \n\t\r", n / 2) : std::string(n, " \n\t\r"[r.below(4)]), c = r.chance(1, 3) ? rep("/**/", n) : r.chance(1, 2) ? rep("//\n", n) : rep("/* * / */ //*/\n", n / 4);
        static const char* const f[] = {"@", "[@1,2]", "[1@,2]", "[1,@2]", "[1,2@]", "{@\"a\":1}", "{\"a\"@:1}", "{\"a\":@1}", "{\"a\":1@}", "{\"a\":1,@\"b\":1}"};
        auto const sub = [](std::string s, const std::string& w) { auto p = s.find('@'); return s.replace(p, 1, w); };
        std::string const t = f[1 + r.below(9)];
        must<FJ, cxon::json::node>(r, "node, white space", sub(t, w), 1); must<JC, cxon::json::node>(r, "node, comments", sub(t, c), 1);
        if (t[0] == '[') { must<FJ, std::vector<int>>(r, "vector, white space", sub(t, w), 1); must<JC, std::vector<int>>(r, "vector, comments", sub(t, c), 1); }
        else { must<FJ, std::map<std::string, int>>(r, "map, white space", sub(t, w), 1); must<JC, std::map<std::string, int>>(r, "map, comments", sub(t, c), 1); }
        std::string const k = t[0] == '[' ? "{\"a\":1," + w + "\"d\":2}" : "{\"a\":1" + w + ",\"d\":2}"; must<FJ, JCls>(r, "class, white space", k, 1);
        must<JC, JCls>(r, "class, comments", "{\"a\":1,\"skip\":" + c + "0" + c + ",\"d\":2}", 1);
        must<cxon::CXCF<>, cxon::json::node>(r, "node, CXCF", "{" + w + "\"a\" = 1" + (w + c + w) + "\"b\" = [1 " + c + "2]}", 1);
        must<FJ, int>(r, "a number", w + "7", 1); must<FJ, int>(r, "no number", w, 0); must<JC, int>(r, "only comments", c, 0);
    }
    void wide(Rng& r, std::size_t n) { // long values
        must<FJ, std::string>(r, "string", "\"" + rep(r.chance(1, 2) ? "\\u0041" : "\\n", n) + "\"", 1); must<FJ, std::u16string>(r, "u16string", "\"" + rep("\\uD83D\\uDE00", n) + "\"", 1);
        must<FJ, cxon::json::node>(r, "node", "\"" + rep("\\\\", n) + "\"", 1); must<FJ, cxon::cbor::node>(r, "cbor node", "[" + rep("{},", n / 8) + "0]", 1);
        must<FJ, std::vector<int>>(r, "vector", "[" + rep("1,", n) + "1]", 1); must<FJ, std::vector<std::vector<int>>>(r, "vectors", "[" + rep("[],", n) + "[1]]", 1);
        must<FC, std::vector<int>>(r, "vector, CBOR", "\x9F" + rep("\x01", n) + "\xFF", 1); must<FC, std::string>(r, "string, CBOR", "\x7F" + rep("\x60", n) + "\xFF", 1);
        must<FC, cxon::cbor::node>(r, "bytes", "\x5F" + rep(std::string("\x41\x00", 2), n) + "\xFF", 1); must<FC, cxon::json::node>(r, "text", "\x7F" + rep("\x60", n) + "\xFF", 1);
        must<FC, cxon::cbor::node>(r, "items", head(r, 4, n / 8) + rep(r.chance(1, 2) ? "\x80" : "\xA0", n / 8), 1);
        { mon::site("int with tags"); int t = 0; read<FC>(r, t, rep("\xC1", n) + "\x01"); } { mon::site("vector with tags"); std::vector<int> t; read<FC>(r, t, rep("\xC1", n) + "\x80"); } { mon::site("string with tags"); std::string t; read<FC>(r, t, rep("\xC1", n) + "\x60"); }
    }
    template <typename T> void nested(Rng& r, std::size_t n) { // over the limit by far
        switch (r.below(8)) {
            case 0: limited<FJ, T>(r, "node: arrays", std::string(n, '[')); break; case 1: limited<FJ, T>(r, "node: objects", rep("{\"a\":", n)); break;
            case 2: limited<JR, T>(r, "node: keys", rep("{", n)); break; case 3: limited<JR, T>(r, "node: arrays in keys", rep("{[", n)); break;
            case 4: limited<FC, T>(r, "node: CBOR arrays", rep(r.chance(1, 2) ? "\x81" : "\x9F", n)); break; case 5: limited<FC, T>(r, "node: CBOR maps", rep(r.chance(1, 2) ? "\xA1\x01" : "\xBF\x01", n)); break;
            case 6: limited<FC, T>(r, "node: CBOR keys", rep(r.chance(1, 2) ? "\xA1" : "\xBF", n)); break; default: limited<FC, T>(r, "node: CBOR tags", rep(r.chance(1, 2) ? "\xC1" : "\xD8\xFF", n));
        }
    }
    void m_long(Rng& r) {
        std::size_t const n = 60000 + r.below(40000);
        switch (r.below(7)) {
            case 0: on_small_stack(r, jskip, n); break; case 1: on_small_stack(r, cskip, n); break; case 2: on_small_stack(r, blank, n); break; case 3: on_small_stack(r, wide, n); break;
            case 4: on_small_stack(r, r.chance(1, 2) ? nested<cxon::json::node> : nested<cxon::json::ordered_node>, n); break; case 5: on_small_stack(r, r.chance(1, 2) ? nested<cxon::cbor::node> : nested<cxon::cbor::ordered_node>, n); break;
            default: on_small_stack(r, r.chance(1, 2) ? cskip : jskip, n);
        }
    }
#   define MODES {"long", m_long}

#else

    // ---------------------------------------------------------------- what reading allocates

    using namespace zoo;
    std::uint64_t announced(Rng& r) { switch (r.below(5)) { case 0: return 100000000 + r.below(1000); case 1: return 1ull << 32; case 2: return ~0ull >> r.below(5); case 3: return r.bits() | (1ull << 27); default: return 4000000000u; } }
    // items, some of which announce more than there is
    void hostile(Rng& r, unsigned depth, std::string& o, bool& some) {
        ref::CborSpell sp;
        unsigned const k = unsigned(r.below(depth ? 9 : 4));
        switch (k) {
            case 0: ref::cbor_text(r, sp, V::integer(ref::i128(r.below(1000))), o); break;
            case 1: ref::cbor_text(r, sp, V::str("text"), o); break;
            case 2: case 3: some = true; ref::cbor_head(r, sp, 2 + unsigned(r.below(2)), announced(r), o); o.append(r.below(20), 'x'); break;
            default: {
                unsigned const m = 4 + unsigned(r.below(3));
                if (m == 6) { ref::cbor_head(r, sp, 6, r.below(100), o); hostile(r, depth - 1, o, some); break; }
                if (r.chance(2, 3)) some = true, ref::cbor_head(r, sp, m, announced(r), o); else o += char((m << 5) | 0x1F);
                for (unsigned n = unsigned(r.below(4)) + 1; n; --n) hostile(r, depth - 1, o, some);
            }
        }
    }
    // a text of the shape of a type with lengths replaced
    std::string spoiled(Rng& r, std::string s) {
        std::vector<std::size_t> at; for (std::size_t i = 0; i < s.size(); ++i) { unsigned m = (unsigned char)s[i] >> 5, n = (unsigned char)s[i] & 0x1F; if (m >= 2 && m <= 5 && n <= 0x1B) at.push_back(i); }
        if (at.empty()) return s;
        for (unsigned n = 1 + unsigned(r.below(2)); n; --n) { std::size_t i = at[r.below(at.size())]; if (i >= s.size()) continue; unsigned m = (unsigned char)s[i] >> 5; std::string h; ref::CborSpell sp; ref::cbor_head(r, sp, m, announced(r), h); unsigned a = (unsigned char)s[i] & 0x1F; s.replace(i, std::min(s.size() - i, std::size_t(a < 24 ? 1 : 1 + (1u << (a - 24)))), h); }
        return s;
    }

    template <typename T> struct Box { T t; Box() : t() {} ~Box() { Z<T>::clear(t); } };
    template <typename N> struct NBox { N t; };

    template <typename F, typename B> void measure(Rng& r, const std::string& s, std::size_t factor, std::size_t extra, const char* key) {
        mon::input(s); mon::eval(mon::fnv(s)); mon::exact e(s);
        std::list<char> c; unsigned kind = unsigned(r.below(3)); if (kind == 1 && s.size() > 4000) kind = 2; if (kind == 1) c.assign(s.begin(), s.end());
        B b; long long peak; std::size_t biggest; bool ok = false; const char* threw = nullptr;
        {   mon::ledger l;
            try {
                switch (kind) {
                    case 0: ok = bool(cxon::from_bytes<F>(b.t, e.begin(), e.end())); break;
                    case 1: ok = bool(cxon::from_bytes<F>(b.t, c.begin(), c.end())); break;
                    default: { mon::stream st; st.p = e.begin(); st.e = e.end(); ok = bool(cxon::from_bytes<F>(b.t, mon::in_iter(&st), mon::in_iter())); }
                }
            } catch (const std::bad_alloc&) { threw = "bad_alloc"; } catch (const std::length_error&) { threw = "length_error"; }
            peak = mon::al().peak_bytes; biggest = mon::al().biggest;
        }
        mon::count(ok ? "alloc:accepted" : "alloc:refused"); if (peak) mon::count("alloc:some");
        std::size_t const bound = factor * s.size() + extra;
        if (threw) viol(key, std::string(threw) + ": " + std::to_string(biggest) + " bytes asked for");
        else if ((std::size_t)peak > bound || biggest > bound) viol(key, std::to_string(peak) + " bytes at once, " + std::to_string(biggest) + " in one request, reading " + std::to_string(s.size()));
#       if defined(SHOW)
            static double worst = 0; if (double(peak) > double(extra) && double(peak) / double(s.size()) > worst) { worst = double(peak) / double(s.size()); std::fprintf(stderr, "%s: %zu -> %lld, %.0f\n", mon::st().local.site, s.size(), peak, worst); }
#       endif
    }

    struct Ops { const char* name; void (*run)(Rng&); };
    template <typename T> struct impl {
        static void run(Rng& r) {
            std::string s;
            if (r.chance(1, 4)) { // JSON announces nothing
                { Box<T> b; Z<T>::gen(b.t, r, 4); X x = Z<T>::x(b.t, zoo::J); ref::JsonSpell sp(unsigned(r.below(3)), unsigned(r.below(3))); ref::json_text(r, sp, x.v, s); }
                if (r.chance(1, 2)) ref::mutate(r, s, "[]{},\"0");
                measure<FJ, Box<T>>(r, s, 1024, 16384, "alloc:json");
                return;
            }
            { Box<T> b; Z<T>::gen(b.t, r, 4); X x = Z<T>::x(b.t, zoo::C); ref::CborSpell sp; sp.wide = unsigned(r.below(2)); ref::cbor_text(r, sp, x.v, s); }
            if (r.chance(5, 6)) s = spoiled(r, s); 
            if (r.chance(1, 2)) s.append(r.below(5) ? r.below(20) : r.below(15000), char(r.chance(1, 2) ? 0x01 : r.next()));
            mon::count("alloc:announced");
            measure<FC, Box<T>>(r, s, 1024, 256 << 10, "alloc:cbor");
        }
    };
    const std::vector<Ops>& table() {
#       define ROW(...) {#__VA_ARGS__, impl<__VA_ARGS__>::run},
        static const std::vector<Ops> t = { TYPES_(ROW) };
        return t;
    }
    void m_types(Rng& r) { auto& o = table()[r.below(table().size())]; mon::site(o.name); o.run(r); }

    template <typename N> void node(Rng& r) {
        mon::site(nodes::name_of<N>::v()); std::string s; bool some = false;
        switch (r.below(6)) {
            case 0: { ref::json_text(r, ref::JsonSpell(1, 1), ref::gen_json(r, 6), s); if (r.chance(1, 2)) ref::mutate(r, s, "[]{},\"0"); measure<FJ, NBox<N>>(r, s, 512, 16384, "alloc:json"); return; }
            case 1: ref::cbor_text(r, ref::CborSpell(), ref::gen_cbor(r, 5), s); s = spoiled(r, s); some = true; break;
            case 2: { // each of the nested ones announces a lot
                unsigned const d = 1 + unsigned(r.below(63)); for (unsigned i = 0; i < d; ++i) { ref::CborSpell sp; ref::cbor_head(r, sp, 4 + unsigned(r.below(2)), announced(r), s); if (r.chance(1, 8)) ref::cbor_head(r, sp, 2, announced(r), s); }
                s.append(r.chance(1, 2) ? r.below(40000) : r.below(100), r.chance(1, 2) ? char(0x01) : char(0x80)); some = true; break;
            }
            default: hostile(r, unsigned(1 + r.below(12)), s, some); if (r.chance(1, 3)) s.append(r.below(30000), char(r.below(256)));
        }
        if (some) mon::count("alloc:announced");
        measure<FC, NBox<N>>(r, s, 512, 512 << 10, "alloc:node");
    }
    void m_nodes(Rng& r) { switch (r.below(4)) { case 0: node<cxon::json::node>(r); break; case 1: node<cxon::json::ordered_node>(r); break; case 2: node<cxon::cbor::node>(r); break; default: node<cxon::cbor::ordered_node>(r); } }
#   define MODES {"types", m_types}, {"nodes", m_nodes}

#endif

}

int main(int argc, char** argv) {
    static const mon::Mode modes[] = { MODES };
    return mon::run(argc, argv, modes);
}
