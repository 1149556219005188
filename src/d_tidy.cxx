// Indented JSON: one GROUP of types, and generic nodes.
#define FMT 0
#include "nodes.hxx"
#include "types.hxx"
#include "cxon/lang/json/tidy.hxx"
#include <deque>
#include <list>
#include <sstream>
#include <iterator>

using namespace zoo;
using ref::V;
using mon::Rng; using mon::viol;

// notations with the same structure
struct traits7 : cxon::json::format_traits {
    struct map : cxon::json::format_traits::map { static constexpr char div = '=', sep = ';'; };
    struct list : cxon::json::format_traits::list { static constexpr char sep = ';'; };
    struct string { static constexpr char del = '\''; };
    static constexpr bool quote_unquoted_keys = false;
};
#if !defined(ALT)
    typedef cxon::json::format_traits traits; static const char DEL = '"', DIV = ':', SEP = ',';
#else
    typedef traits7 traits; static const char DEL = '\'', DIV = '=', SEP = ';';
#endif
typedef cxon::JSON<traits> F;
namespace cj = cxon::json;

namespace {

    // tokens one after another: what is outside of strings, without white space; the layout
    struct Layout {
        std::string plain, out; std::vector<std::string> toks;
        static bool ws(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t'; }
        Layout(const std::string& s, unsigned tab, char pad) {
            for (std::size_t i = 0; i < s.size(); ) {
                if (ws(s[i])) { ++i; continue; }
                std::size_t b = i;
                if (s[i] == DEL) { for (++i; i < s.size() && s[i] != DEL; ++i) if (s[i] == '\\') ++i; ++i; }
                else if (is_op(s[i])) ++i;
                else while (i < s.size() && !ws(s[i]) && !is_op(s[i]) && s[i] != DEL) ++i;
                toks.push_back(s.substr(b, i - b)); plain += toks.back();
            }
            unsigned l = 0;
            auto nl = [&] { out += '\n'; out.append(std::size_t(l) * tab, pad); };
            for (std::size_t i = 0; i < toks.size(); ++i) {
                auto& t = toks[i]; char c = t[0]; bool const op = t.size() == 1;
                if (op && (c == '{' || c == '[')) { out += c; if (i + 1 < toks.size() && toks[i + 1] == (c == '{' ? "}" : "]")) out += toks[++i]; else ++l, nl(); }
                else if (op && (c == '}' || c == ']')) { --l; nl(); out += c; }
                else if (op && c == SEP) { out += c; nl(); }
                else if (op && c == DIV) out += DIV == '=' ? " = " : ": ";
                else out += t;
            }
        }
        static bool is_op(char c) { return c == '{' || c == '}' || c == '[' || c == ']' || c == DIV || c == SEP; }
    };

    template <typename S> std::size_t common(const S& a, const S& b) { std::size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; return i; }
    std::string quoted(const std::string& s) { std::string o; for (char c : s) c == '\n' ? o += "\\n" : c == '\t' ? o += "\\t" : c == '\x01' ? o += "\\x01" : o += c; return o; }

    void same(const char* key, const std::string& exp, const std::string& got, const std::string& from) {
        if (exp == got) return;
        std::size_t i = 0; while (i < exp.size() && i < got.size() && exp[i] == got[i]) ++i;
        viol(key, "differs at " + std::to_string(i) + ": " + quoted(got.substr(i > 20 ? i - 20 : 0, 80)) + " instead of " + quoted(exp.substr(i > 20 ? i - 20 : 0, 80)) + " from " + from);
    }

    const unsigned tabs[] = {0, 1, 2, 3, 4, 8};
    const char pads[] = {' ', '\t'};

    // op(output maker) for every kind of output
    template <typename W> void outputs(Rng& r, const std::string& exp, const std::string& from, unsigned tab, char pad, W w, const char* pre) {
        std::string const k(pre);
        mon::count(k + (exp.find('\n') == std::string::npos ? ":flat" : ":nested"));
        { std::string s; auto i = cj::make_indenter(s, tab, pad); if (!w(i)) viol(k + ":string", "fails"); else same((k + ":string").c_str(), exp, s, from); }
        switch (r.below(5)) {
            case 0: { std::string s; auto i = cj::make_indenter(std::back_inserter(s), tab, pad); if (!w(i)) viol(k + ":inserter", "fails"); else same((k + ":inserter").c_str(), exp, s, from); break; }
            case 1: { std::list<char> s; auto i = cj::make_indenter(s, tab, pad); if (!w(i)) viol(k + ":list", "fails"); else same((k + ":list").c_str(), exp, std::string(s.begin(), s.end()), from); break; }
            case 2: { std::ostringstream s; auto i = cj::make_indenter(std::ostreambuf_iterator<char>(s), tab, pad); if (!w(i)) viol(k + ":stream", "fails"); else same((k + ":stream").c_str(), exp, s.str(), from); break; }
            case 3: { std::deque<char> s; auto i = cj::make_indenter(std::back_inserter(s), tab, pad); if (!w(i)) viol(k + ":deque", "fails"); else same((k + ":deque").c_str(), exp, std::string(s.begin(), s.end()), from); break; }
            case 4: { std::vector<char> s(exp.size() + 8, '\x01'); auto i = cj::make_indenter(s.begin(), s.end(), tab, pad); if (!w(i)) { viol(k + ":vector", "fails"); break; } same((k + ":vector").c_str(), exp, std::string(s.begin(), s.begin() + long(exp.size())), from); for (std::size_t j = exp.size(); j < s.size(); ++j) if (s[j] != '\x01') { viol(k + ":vector", "writes past the end"); break; } break; }
        }
        { // ranges: as long as needed, shorter
            bool const fit = r.chance(1, 2) || exp.empty(); std::size_t const n = fit ? exp.size() : r.below(exp.size());
            std::string z(n, '\x01'); mon::exact e(z); char* const b = const_cast<char*>(e.begin());
            auto i = cj::make_indenter(b, b + n, tab, pad); bool const ok = w(i);
            if (ok != fit) viol(k + (fit ? ":range" : ":range-short"), fit ? "does not fit in " + std::to_string(n) : "fits in " + std::to_string(n) + " of " + std::to_string(exp.size()));
            else same((k + (fit ? ":range" : ":range-short")).c_str(), exp.substr(0, fit ? n : common(exp, std::string(b, n))), std::string(b, fit ? n : common(exp, std::string(b, n))), from);
            if (!fit) { std::string const got(b, n); std::size_t c = common(exp, got); for (std::size_t j = c; j < n; ++j) if (got[j] != '\x01') { viol(k + ":range-short", "other bytes at " + std::to_string(j) + ": " + quoted(got)); break; } }
            mon::count(k + (fit ? ":fits" : ":short"));
        }
    }

    template <typename T> void value(Rng& r, const T& t) {
        std::string s; if (!cxon::to_bytes<F>(s, t)) { viol("indent:plain", "fails"); return; }
        unsigned const tab = r.pick(tabs); char const pad = r.pick(pads);
        mon::input(s); mon::eval(mon::mix(mon::fnv(s), tab * 2 + (pad == ' '))); mon::sample(s);
        Layout const l(s, tab, pad);
        if (l.plain != s) { viol("indent:compact", "white space in " + s); return; }
        outputs(r, l.out, s, tab, pad, [&](auto& i) { return bool(cxon::to_bytes<F>(i, t)); }, "indent");
        // the same from the text
        same("tidy:written", l.out, cj::tidy<F>(s, tab, pad), s);
        Layout const m(l.out, tab, pad); if (m.plain != s) viol("indent:stripped", l.out);
    }
    struct Ops { const char* name; void (*run)(Rng&); };
    template <typename T> struct impl {
        struct Box { T t; Box() : t() {} ~Box() { Z<T>::clear(t); } };
        static void run(Rng& r) { Box b; Z<T>::gen(b.t, r, 3); value(r, b.t); }
    };
    const std::vector<Ops>& table() {
#       define ROW(...) {#__VA_ARGS__, impl<__VA_ARGS__>::run},
        static const std::vector<Ops> t = { TYPES_(ROW) };
        return t;
    }
    void m_types(Rng& r) { auto& o = table()[r.below(table().size())]; mon::site(o.name); o.run(r); }

    template <typename N> void node(Rng& r) {
        mon::site(nodes::name_of<N>::v());
        V v = nodes::of_json(ref::gen_json(r, 5)); N n; nodes::make(v, n); value(r, n);
    }
    void m_nodes(Rng& r) { if (r.chance(1, 2)) node<cxon::json::node>(r); else node<cxon::json::ordered_node>(r); }

    // texts with any white space
    void m_tidy(Rng& r) {
        mon::site("tidy");
        V v = ref::gen_json(r, 5); std::string p;
        ref::JsonSpell sp; sp.ws = unsigned(r.below(5)); sp.esc = unsigned(r.below(4)); ref::json_text(r, sp, v, p);
        if (DEL != '"') { // the same text in the other notation
            std::string q; bool in = false;
            for (std::size_t i = 0; i < p.size(); ++i) { char c = p[i]; if (in && c == '\\') { if (p[i + 1] == '"') { q += '"'; ++i; continue; } q += c; q += p[++i]; continue; } if (c == '"') in = !in, q += DEL; else if (c == '\'') q += "\\'"; else if (!in && c == ':') q += DIV; else if (!in && c == ',') q += SEP; else q += c; }
            p = q;
        }
        unsigned const tab = r.pick(tabs); char const pad = r.pick(pads);
        mon::input(p); mon::eval(mon::mix(mon::fnv(p), tab * 2 + (pad == ' '))); mon::sample(p);
        Layout const l(p, tab, pad);
        same("tidy:string", l.out, cj::tidy<F>(p, tab, pad), p);
        same("tidy:iterators", l.out, cj::tidy<F>(p.begin(), p.end(), tab, pad), p);
        mon::count("tidy:texts");
        switch (r.below(6)) {
            case 0: { std::string s; if (!cj::tidy<traits>(std::back_inserter(s), p, tab, pad)) viol("tidy:inserter", "fails"); same("tidy:inserter", l.out, s, p); break; }
            case 1: { std::string s; std::list<char> c(p.begin(), p.end()); if (!cj::tidy<traits>(std::back_inserter(s), c.begin(), c.end(), tab, pad)) viol("tidy:inserter-list", "fails"); same("tidy:inserter-list", l.out, s, p); break; }
            case 2: { mon::exact e(p); mon::stream st; st.p = e.begin(); st.e = e.end(); same("tidy:stream", l.out, cj::tidy<traits>(mon::in_iter(&st), mon::in_iter(), tab, pad), p); break; }
            case 3: { std::ostringstream s; if (!cj::tidy<traits>(std::ostreambuf_iterator<char>(s), p, tab, pad)) viol("tidy:ostream", "fails"); same("tidy:ostream", l.out, s.str(), p); break; }
            case 4: { std::list<char> const o = cj::tidy<traits, std::list<char>>(p, tab, pad); same("tidy:to-list", l.out, std::string(o.begin(), o.end()), p); break; }
            case 5: {
                bool const fit = r.chance(1, 2); std::size_t const n = fit ? l.out.size() : r.below(l.out.size());
                std::string z(n, '\x01'); mon::exact e(z); char* const b = const_cast<char*>(e.begin());
                bool const two = r.chance(1, 2), ok = two ? cj::tidy<traits>(b, b + n, p, tab, pad) : cj::tidy<traits>(b, b + n, p.begin(), p.end(), tab, pad);
                if (ok != fit) viol(fit ? "tidy:range" : "tidy:range-short", fit ? "does not fit" : "fits in " + std::to_string(n) + " of " + std::to_string(l.out.size()));
                std::string const got(b, n); std::size_t const c = common(l.out, got);
                if (fit ? c != n : got.find_first_not_of('\x01', c) != std::string::npos) viol(fit ? "tidy:range" : "tidy:range-short", quoted(got) + " from " + p);
                mon::count(fit ? "tidy:fits" : "tidy:short"); break; }
        }
        // once more changes nothing
        same("tidy:again", l.out, cj::tidy<F>(l.out, tab, pad), l.out);
    }

}

int main(int argc, char** argv) {
    static const mon::Mode modes[] = {{"types", m_types}, {"nodes", m_nodes}, {"tidy", m_tidy}};
    return mon::run(argc, argv, modes);
}
