// Formats derived from JSON by options: one format (OPT) and one GROUP of types.
#define FMT 0
#include "opt.hxx"

using namespace zoo;
using mon::viol;
typedef cxon::JSON<opt::traits> F;
typedef cxon::JSON<> D;

namespace {

    using opt::cfg;
    static bool const plain = cfg.div == ':' && cfg.msep == ',' && cfg.lsep == ',' && cfg.del == '"'; // differs from JSON by options alone
    static bool const more = plain && cfg.qu && !cfg.uq; // includes JSON

    template <typename T> struct Box { T t; Box() : t() {} ~Box() { Z<T>::clear(t); } Box(const Box&) = delete; };

    bool nonfinite(const X& x) { if (x.v.k == V::Real && !std::isfinite(x.ld)) return true; for (auto& y : x.a) if (nonfinite(y)) return true; return false; }
    bool special_key(const X& x) { // not ordered, or in more than one notation
        if (x.v.k == V::Map) for (std::size_t i = 0; i < x.a.size(); i += 2) if (nonfinite(x.a[i])) return true;
        for (auto& y : x.a) if (special_key(y)) return true;
        return false;
    }

    struct Ops { const char* name; void (*write)(Rng&); void (*read)(Rng&); void (*refuse)(Rng&); void (*same)(Rng&); };

    template <typename T> struct impl {
        template <typename Y> static bool read_ptr(T& t, const std::string& s, std::size_t& end, std::string& ec) { mon::exact e(s); auto const c = cxon::from_bytes<Y>(t, e.begin(), e.end()); end = std::size_t(c.end - e.begin()); ec = c.ec.message(); return bool(c); }
        template <typename Y> static bool read_stream(T& t, const std::string& s, std::size_t& end, std::string& ec) { mon::exact e(s); mon::stream st; st.p = e.begin(); st.e = e.end(); auto const c = cxon::from_bytes<Y>(t, mon::in_iter(&st), mon::in_iter()); end = std::size_t(st.p - e.begin()); ec = c.ec.message(); return bool(c); }

        static void back(const T& t, const std::string& s, const char* key) {
            for (int k = 0; k < 2; ++k) {
                Box<T> b; std::size_t end; std::string ec; bool const ok = k ? read_stream<F>(b.t, s, end, ec) : read_ptr<F>(b.t, s, end, ec);
                if (!ok) { viol(std::string(key) + ":refused", (k ? "from a stream: " : "") + ec + " at " + std::to_string(end) + ": " + s); return; }
                if (end != s.size()) { viol(std::string(key) + ":end", "ends at " + std::to_string(end) + " of " + std::to_string(s.size()) + ": " + s); return; }
                if (!Z<T>::eq(t, b.t)) { viol(std::string(key) + ":value", "expected " + show(Z<T>::x(t, J)) + "\n  read " + show(Z<T>::x(b.t, J)) + "\n  from " + s); return; }
            }
        }
        static void write(Rng& r) {
            Box<T> b; Z<T>::gen(b.t, r, 2); X const x = Z<T>::x(b.t, J);
            if (OPT == 11) { std::string s; cxon::to_bytes<D>(s, b.t); if (opt::no_way(s)) return; }
            std::string s; auto const c = cxon::to_bytes<F>(s, b.t); mon::input(s); mon::eval(mon::fnv(s)); mon::sample(s); mon::count("opt:written");
            if (!c) { viol("opt:write", c.ec.message()); return; }
            V v; opt::Reader p(cfg, s);
            if (!p.document(v, &x)) { viol("opt:notation", p.err + " at " + std::to_string(s.size() - std::size_t(p.e - p.p)) + ": " + s); return; }
            if (!special_key(x) && !denotes(x, v, J)) { viol("opt:written", "wrote " + s + "\n  of " + show(x)); return; }
            if (cfg.sjs && (s.find("\xE2\x80\xA8") != std::string::npos || s.find("\xE2\x80\xA9") != std::string::npos)) viol("opt:line-separators", s);
            back(b.t, s, "opt:back");
        }
        static void read(Rng& r) {
            Box<T> b; Z<T>::gen(b.t, r, 2); X const x = Z<T>::x(b.t, J); if (special_key(x)) return;
            opt::Text w(r, cfg); w.document(x); if (opt::no_way(w.s)) return;
            mon::input(w.s); mon::eval(mon::fnv(w.s)); mon::sample(w.s);
            mon::count("opt:read"); if (w.used & opt::Comments) mon::count("opt:comments"); if (w.used & opt::Trailing) mon::count("opt:trailing"); if (w.used & opt::RawKeys) mon::count("opt:raw-keys"); if (w.used & opt::BareKeys) mon::count("opt:bare-keys"); if (w.used & opt::Nans) mon::count("opt:nans");
            back(b.t, w.s, "opt:text");
        }
        static void refuse(Rng& r) { // without the option
            if (!plain) return;
            Box<T> b; Z<T>::gen(b.t, r, 2); X const x = Z<T>::x(b.t, J); if (special_key(x)) return;
            opt::Text w(r, cfg); w.document(x); if (!w.used) return;
            mon::input(w.s); mon::eval(mon::fnv(w.s));
            Box<T> c; std::size_t end; std::string ec; bool const ok = read_stream<D>(c.t, w.s, end, ec); mon::count("opt:without");
            if (ok && end == w.s.size()) viol("opt:accepted-without", "the default format accepts " + w.s);
        }
        static void same(Rng& r) { // documents of the default format
            if (!more) return;
            Box<T> b; Z<T>::gen(b.t, r, 2); opt::Opt o = cfg; o.com = o.trail = o.nans = false;
            X const x = Z<T>::x(b.t, J); if (cfg.nans && nonfinite(x)) return;
            opt::Text w(r, o); w.document(x); std::string s = w.s; for (std::size_t n = r.below(3); n; --n) ref::mutate(r, s, "{}[]\":,\\/*0123456789+-.eEtrufalsn NInf \n");
            mon::input(s); mon::eval(mon::fnv(s));
            Box<T> c, d; std::size_t e0, e1; std::string ec; bool const ok = read_ptr<D>(c.t, s, e0, ec); mon::count(ok ? "opt:default-accepted" : "opt:default-refused");
            if (!ok || opt::no_way(s)) return;
            if (!read_ptr<F>(d.t, s, e1, ec)) { viol("opt:default-refused", ec + ": " + s); return; }
            if (e0 != e1) viol("opt:default-end", s);
            if (!Z<T>::eq(c.t, d.t)) viol("opt:default-value", show(Z<T>::x(c.t, J)) + "\n  and " + show(Z<T>::x(d.t, J)) + " from " + s);
        }
        static Ops ops(const char* n) { return {n, write, read, refuse, same}; }
    };

    const std::vector<Ops>& table() {
#       define ROW(...) impl<__VA_ARGS__>::ops(#__VA_ARGS__),
        static const std::vector<Ops> t = { TYPES_(ROW) };
        return t;
    }
    const Ops& pick(Rng& r) { auto& o = table()[r.below(table().size())]; mon::site(std::string(opt::name) + ": " + o.name); return o; }

    void m_write(Rng& r) { pick(r).write(r); }
    void m_read(Rng& r) { pick(r).read(r); }
    void m_with(Rng& r) { auto& o = pick(r); if (more && r.chance(1, 2)) o.same(r); else o.refuse(r); }

}

int main(int argc, char** argv) {
    static const mon::Mode modes[] = {{"write", m_write}, {"read", m_read}, {"with", m_with}};
    return mon::run(argc, argv, modes);
}
