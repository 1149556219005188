// Threads: the same operations on separate objects and on shared constant ones, with the outcome they have alone (FMT, GROUP).
#include "classes.hxx"
#include "nodes.hxx"
#include "types.hxx"
#include "cxon/cxcf.hxx"
#include "cxon/lang/json/tidy.hxx"
#include <thread>
#include <atomic>
#include <memory>
#include <functional>
#include <list>
#include <sched.h>

using ref::V;
using mon::Rng; using mon::viol;

#if FMT == 1
    typedef cxon::CBOR<> F; static const zoo::Fmt ZF = zoo::C;
#else
    typedef cxon::JSON<> F; static const zoo::Fmt ZF = zoo::J;
#endif

namespace {

    // an operation has all it needs and changes none of it; nothing of the monitor is used in it
    struct Op { virtual ~Op() {} virtual std::string name() const = 0; virtual void run(std::string& out) const = 0; };
    typedef std::unique_ptr<Op> OpP;

    void note(std::string& out, bool ok, const std::error_condition& ec) { out += ok ? "+" : "-"; out += ec.message(); out += ec.category().name(); out += '\n'; }
    template <typename X, typename T> void wr(std::string& out, const T& t) { std::string s; auto const x = cxon::to_bytes<X>(s, t); note(out, bool(x), x.ec); out += s; out += '\n'; }
    template <typename X, typename T> void rd(std::string& out, T& t, const std::string& s, unsigned how) {
        if (how == 0) { auto const x = cxon::from_bytes<X>(t, s.data(), s.data() + s.size()); note(out, bool(x), x.ec); out += std::to_string(x.end - s.data()); }
        else if (how == 1) { std::list<char> const c(s.begin(), s.end()); auto const x = cxon::from_bytes<X>(t, c.begin(), c.end()); note(out, bool(x), x.ec); }
        else { auto const x = cxon::from_bytes<X>(t, s); note(out, bool(x), x.ec); }
    }
    template <typename X> std::string text(Rng& r, const V& v) { std::string s; if (std::is_same<X, cxon::CBOR<>>::value) { ref::CborSpell sp; sp.wide = unsigned(r.below(2)); ref::cbor_text(r, sp, v, s); } else ref::json_text(r, ref::JsonSpell(unsigned(r.below(2)), unsigned(r.below(2))), v, s); return s; }

    // a value of a type
    template <typename T> struct Typed : Op {
        struct Box { T t; Box() : t() {} ~Box() { zoo::Z<T>::clear(t); } };
        const char* n; Box b; std::string s; unsigned how;
        Typed(const char* n, Rng& r) : n(n), how(unsigned(r.below(3))) { zoo::Z<T>::gen(b.t, r, 3); auto x = zoo::Z<T>::x(b.t, ZF); s = text<F>(r, x.v); if (r.chance(1, 4)) ref::mutate(r, s); }
        std::string name() const override { return n; }
        void run(std::string& out) const override { wr<F>(out, b.t); Box c; rd<F>(out, c.t, s, how); if (out.back() != '-') wr<F>(out, c.t); }
    };
    struct Make { const char* n; Op* (*make)(const char*, Rng&); };
    template <typename T> Op* make(const char* n, Rng& r) { return new Typed<T>(n, r); }
    const std::vector<Make>& types() {
#       define ROW(...) {#__VA_ARGS__, make<__VA_ARGS__>},
        static const std::vector<Make> t = { TYPES_(ROW) };
        return t;
    }

    // nodes: reading, writing in both formats, comparing, hashing, copying
    template <typename N> struct Node : Op {
        N n, m; std::string s; unsigned how; bool cb;
        Node(Rng& r) : how(unsigned(r.below(3))), cb(r.chance(1, 2)) {
            V v = nodes::of_json(ref::gen_json(r, 4)); nodes::make(v, n); if (r.chance(1, 2)) m = n; else nodes::make(nodes::of_json(ref::gen_json(r, 3)), m);
            s = cb ? text<cxon::CBOR<>>(r, ref::gen_cbor(r, 4)) : text<cxon::JSON<>>(r, ref::gen_json(r, 4)); if (r.chance(1, 4)) ref::mutate(r, s);
        }
        std::string name() const override { return nodes::name_of<N>::v(); }
        void run(std::string& out) const override {
            wr<cxon::JSON<>>(out, n); wr<cxon::CBOR<>>(out, n); wr<cxon::CXCF<>>(out, n);
            N c(n); out += c == n ? "1" : "0"; out += n == m ? "1" : "0"; out += n < m ? "1" : "0"; out += m < n ? "1" : "0";
            out += std::to_string(std::hash<N>()(n)); N d; if (cb) rd<cxon::CBOR<>>(out, d, s, how); else rd<cxon::JSON<>>(out, d, s, how);
            out += d == n ? "1" : "0"; out += std::to_string(int(d.kind())); c = d; wr<cxon::JSON<>>(out, c);
            { std::string t; auto i = cxon::json::make_indenter(t); auto const x = cxon::to_bytes(i, m); note(out, bool(x), x.ec); out += t; }
            std::string t; wr<cxon::JSON<>>(t, n); out += cxon::json::tidy(t);
        }
    };
    // classes and enumerations
    template <typename T> struct Fill { T& t; Rng& r; void skip(const char*) {} template <typename M, typename D> void operator ()(const char*, M T::* m, D) { cls::Writer w(r, cls::None); w.text(t.*m); } };
    template <typename T> struct Class : Op {
        T t; std::string s; unsigned how;
        Class(Rng& r) : how(unsigned(r.below(3))) { T u; { Fill<T> f{t, r}; T::each(f); } cls::Writer w(r, r.chance(1, 2) ? cls::None : cls::Flaw(1 + r.below(cls::Flaws - 1))); w.text(u); s = w.o; }
        std::string name() const override { return "class"; }
        void run(std::string& out) const override { wr<F>(out, t); T u; rd<F>(out, u, s, how); wr<F>(out, u); }
    };
    template <typename E> struct Enum : Op {
        E e; std::string s; unsigned how;
        Enum(Rng& r) : how(unsigned(r.below(3))) { auto& d = cls::decls<E>::v(); e = r.chance(3, 4) ? d[r.below(d.size())].v : E(0x77); s = text<F>(r, cls::enum_value(d[r.below(d.size())])); if (r.chance(1, 4)) ref::mutate(r, s); }
        std::string name() const override { return "enum"; }
        void run(std::string& out) const override { wr<F>(out, e); E f = E(); rd<F>(out, f, s, how); wr<F>(out, f); }
    };
    // what fails
    struct Bad : Op {
        std::string s;
        Bad(Rng& r) { s = text<F>(r, FMT == 1 ? ref::gen_cbor(r, 2) : ref::gen_json(r, 2)); ref::mutate(r, s); if (r.chance(1, 3)) s = std::string(100, FMT == 1 ? '\x81' : '['); }
        std::string name() const override { return "refused"; }
        template <typename T> void as(std::string& out) const { T t = T(); rd<F>(out, t, s, 0); }
        void run(std::string& out) const override {
            as<int>(out); as<double>(out); as<bool>(out); as<std::string>(out); as<std::u16string>(out); as<std::vector<int>>(out); as<std::map<std::string, int>>(out); as<cxon::json::node>(out); as<cxon::cbor::node>(out); as<cls::A>(out); as<cls::E1>(out);
            char b[4]; std::vector<double> const v(3, 0.1); auto const x = cxon::to_bytes<F>(std::begin(b), std::end(b), v); note(out, bool(x), x.ec);
            for (int i = 0; i < 16; ++i) { out += cxon::json::make_error_condition(cxon::json::read_error(i)).message(); out += cxon::cbor::make_error_condition(cxon::cbor::read_error(i)).message(); out += cxon::node::make_error_condition(cxon::node::error(i)).message(); }
        }
    };

    OpP some(Rng& r, unsigned kind) {
        switch (kind) {
            case 0: return OpP(new Node<cxon::json::node>(r)); case 1: return OpP(new Node<cxon::json::ordered_node>(r)); case 2: return OpP(new Node<cxon::cbor::node>(r)); case 3: return OpP(new Node<cxon::cbor::ordered_node>(r));
            case 4: return OpP(new Class<cls::A>(r)); case 5: return OpP(new Class<cls::B>(r)); case 6: return OpP(new Class<cls::C>(r)); case 7: return OpP(new Class<cls::D>(r)); case 8: return OpP(new Class<cls::G>(r)); case 9: return OpP(new Class<cls::H>(r));
            case 10: return OpP(new Enum<cls::E1>(r)); case 11: return OpP(new Enum<cls::E2>(r)); case 12: return OpP(new Enum<cls::E3>(r)); case 13: return OpP(new Bad(r));
            default: { auto& t = types()[kind - 14]; return OpP(t.make(t.n, r)); }
        }
    }
    const unsigned threads = 4;

    void m_threads(Rng& r) {
        bool const shared = r.chance(1, 2); std::size_t const n = 8;
        std::vector<unsigned> kinds; std::string ks; for (std::size_t i = 0; i < n; ++i) { kinds.push_back(unsigned(r.chance(1, 2) ? r.below(14) : 14 + r.below(types().size()))); ks += std::to_string(kinds.back()) + ' '; }
        std::vector<std::vector<OpP>> own(shared ? 1 : threads); for (auto& o : own) for (auto k : kinds) o.push_back(some(r, k));
        mon::site(shared ? "shared" : "separate"); mon::input(ks);
        std::vector<std::vector<std::string>> got(threads, std::vector<std::string>(n));
        std::vector<std::uint64_t> order(threads); for (auto& o : order) o = r.next();
        std::atomic<unsigned> ready(0); std::atomic<bool> go(false); std::atomic<unsigned> running(0), most(0);
        std::vector<std::thread> ts;
        for (unsigned t = 0; t < threads; ++t) ts.emplace_back([&, t] {
            Rng q(order[t]); auto& ops = own[shared ? 0 : t]; std::size_t const at = q.below(2) ? 0 : q.below(n);
            ++ready; while (!go.load()) sched_yield();
            unsigned const c = ++running; unsigned m = most.load(); while (c > m && !most.compare_exchange_weak(m, c)) {}
            for (std::size_t i = 0; i < n; ++i) { std::size_t const k = (at + i) % n; ops[k]->run(got[t][k]); if (q.chance(1, 4)) sched_yield(); }
            --running;
        });
        while (ready.load() != threads) sched_yield();
        go = true; for (auto& t : ts) t.join();
        mon::count("threads:overlapped", most.load() > 1); mon::count(shared ? "threads:shared" : "threads:separate");
        for (unsigned t = 0; t < threads; ++t) for (std::size_t k = 0; k < n; ++k) { // alone
            auto& op = *own[shared ? 0 : t][k]; std::string exp; op.run(exp);
            mon::eval(mon::fnv(exp)); mon::count("threads:operations");
            if (exp != got[t][k]) { std::size_t i = 0; while (i < exp.size() && i < got[t][k].size() && exp[i] == got[t][k][i]) ++i; viol("threads:outcome", op.name() + (shared ? " shared" : "") + ": differs at " + std::to_string(i) + ": " + got[t][k].substr(i, 100) + " instead of " + exp.substr(i, 100)); }
        }
    }

}

int main(int argc, char** argv) {
    static const mon::Mode modes[] = {{"threads", m_threads}};
    return mon::run(argc, argv, modes);
}
