// Histories of operations on generic nodes compared with a tree model, with a checking allocator and injected allocation failures.
// AL: 0..3 - tracking allocators of different propagation settings, 4 - std::allocator
#if AL == 4
#   define MON_LEDGER 1
#endif
#include "mon.hxx"
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cxon/lib/node.ordered.hxx"
#include "ref.hxx"
#include <memory>
#include <unordered_map>

using mon::Rng;

// ------------------------------------------------------------------------- allocator

struct Block { int id; std::size_t size, n; unsigned long long serial; };
struct Registry {
    std::unordered_map<void*, Block> live;
    unsigned long long n = 0, fail_at = 0; // requests, 1-based request to fail
    bool failed = false;
    void arm(unsigned long long f) { n = 0; fail_at = f; failed = false; }
};
static Registry& reg() { static Registry r; return r; }

enum { POCCA = 1, POCMA = 2, POCS = 4, SOCC = 8 };

struct pause_reg { mon::pause p; };

template <typename T, int F>
struct Track {
    typedef T value_type;
    typedef std::integral_constant<bool, (F & POCCA) != 0> propagate_on_container_copy_assignment;
    typedef std::integral_constant<bool, (F & POCMA) != 0> propagate_on_container_move_assignment;
    typedef std::integral_constant<bool, (F & POCS) != 0> propagate_on_container_swap;
    typedef std::false_type is_always_equal;
    template <typename U> struct rebind { typedef Track<U, F> other; };
    int id;
    Track() noexcept : id(0) {}
    explicit Track(int i) noexcept : id(i) {}
    template <typename U> Track(const Track<U, F>& o) noexcept : id(o.id) {}
    T* allocate(std::size_t n) {
        auto& r = reg();
        if (++r.n == r.fail_at) { r.failed = true; throw std::bad_alloc(); }
        void* p = std::malloc(n * sizeof(T) ? n * sizeof(T) : 1);
        if (!p) throw std::bad_alloc();
        mon::pause g;
        r.live[p] = Block{id, sizeof(T), n, r.n};
        return static_cast<T*>(p);
    }
    void deallocate(T* p, std::size_t n) noexcept {
        auto& r = reg();
        auto i = r.live.find(p);
        if (i == r.live.end()) { mon::viol("alloc:not-owned", "deallocation of something not allocated (or already released)"); return; }
        if (i->second.id != id) mon::viol("alloc:unequal", "allocated by " + std::to_string(i->second.id) + ", released to " + std::to_string(id));
        if (i->second.n != n || i->second.size != sizeof(T)) mon::viol("alloc:size", "allocated " + std::to_string(i->second.n) + " of " + std::to_string(i->second.size) + ", released " + std::to_string(n) + " of " + std::to_string(sizeof(T)));
        r.live.erase(i);
        std::free(p);
    }
    Track select_on_container_copy_construction() const { return (F & SOCC) ? Track(0) : *this; }
    friend bool operator ==(const Track& a, const Track& b) noexcept { return a.id == b.id; }
    friend bool operator !=(const Track& a, const Track& b) noexcept { return a.id != b.id; }
};

#if AL == 0
    static constexpr int FLAGS = 0;
#elif AL == 1
    static constexpr int FLAGS = POCCA | POCMA | POCS;
#elif AL == 2
    static constexpr int FLAGS = POCMA | SOCC;
#elif AL == 3
    static constexpr int FLAGS = POCCA | POCS;
#else
    static constexpr int FLAGS = 0;
#endif
#if AL == 4
    typedef std::allocator<char> A;
    static A mk(int) { return A(); }
    template <typename X> int id_of(const X&) { return 0; }
    enum { IDS = 1 };
    static unsigned long long requests() { return mon::al().n; }
#else
    typedef Track<char, FLAGS> A;
    static A mk(int i) { return A(i); }
    template <typename X> int id_of(const X& a) { return a.id; }
    enum { IDS = 3 };
    static unsigned long long requests() { return reg().n; }
#endif
typedef cxon::json::basic_node<cxon::json::node_traits<A>> JN;
typedef cxon::json::basic_node<cxon::json::ordered_node_traits<A>> JO;
typedef cxon::cbor::basic_node<cxon::cbor::node_traits<A>> CN;
typedef cxon::cbor::basic_node<cxon::cbor::ordered_node_traits<A>> CO;

// ------------------------------------------------------------------------- model

enum K { Null, Undef, Bool, Sint, Uint, Real, Str, Bytes, Simple, Tag, Arr, Map };
struct M {
    K k = Null; long long i = 0; unsigned long long u = 0; double r = 0; std::string s; std::vector<M> a;
    explicit M(K k = Null) : k(k) {}
};
static int cmp(const M& a, const M& b) { // total order, only to bring maps into one form
    if (a.k != b.k) return a.k < b.k ? -1 : 1;
    if (a.i != b.i) return a.i < b.i ? -1 : 1;
    if (a.u != b.u) return a.u < b.u ? -1 : 1;
    if (int c = std::memcmp(&a.r, &b.r, sizeof a.r)) return c;
    if (int c = a.s.compare(b.s)) return c;
    if (a.a.size() != b.a.size()) return a.a.size() < b.a.size() ? -1 : 1;
    for (std::size_t i = 0; i < a.a.size(); ++i) if (int c = cmp(a.a[i], b.a[i])) return c;
    return 0;
}
static bool same(const M& a, const M& b) { return cmp(a, b) == 0; }
static void show(const M& m, std::string& o) {
    switch (m.k) {
        case Null: o += "null"; break;
        case Undef: o += "undef"; break;
        case Bool: o += m.u ? "true" : "false"; break;
        case Sint: o += "i" + std::to_string(m.i); break;
        case Uint: o += "u" + std::to_string(m.u); break;
        case Real: { char b[40]; std::snprintf(b, sizeof b, "%.17g", m.r); o += b; break; }
        case Str: o += mon::quote(mon::clip(m.s, 40)); break;
        case Bytes: o += "h'" + mon::hex(m.s, 20) + "'"; break;
        case Simple: o += "simple(" + std::to_string(m.u) + ")"; break;
        case Tag: o += std::to_string(m.u) + "("; show(m.a[0], o); o += ")"; break;
        case Arr: o += "["; for (std::size_t i = 0; i < m.a.size(); ++i) { if (i) o += ","; show(m.a[i], o); } o += "]"; break;
        case Map: o += "{"; for (std::size_t i = 0; i + 1 < m.a.size(); i += 2) { if (i) o += ","; show(m.a[i], o); o += ":"; show(m.a[i + 1], o); } o += "}"; break;
    }
}
static std::string show(const M& m) { std::string s; show(m, s); return mon::clip(s, 500); }
static std::size_t size(const M& m) { std::size_t n = 1; for (auto& e : m.a) n += size(e); return n; }

// ------------------------------------------------------------------------- nodes of either format, alike

template <typename N> struct T;
template <typename Tr> struct T<cxon::json::basic_node<Tr>> {
    typedef cxon::json::basic_node<Tr> N;
    typedef typename N::object map; typedef typename N::string str;
    enum { ext = 0 };
    static K kind(const N& n) {
        using C = cxon::json::node_kind;
        switch (n.kind()) {
            case C::object: return Map; case C::array: return Arr; case C::string: return Str; case C::real: return Real;
            case C::sint: return Sint; case C::uint: return Uint; case C::boolean: return Bool; case C::null: return Null;
        }
        mon::viol("hist:kind", "a kind that does not exist"); return Null;
    }
};
template <typename Tr> struct T<cxon::cbor::basic_node<Tr>> {
    typedef cxon::cbor::basic_node<Tr> N;
    typedef typename N::map map; typedef typename N::text str;
    enum { ext = 1 };
    static K kind(const N& n) {
        using C = cxon::cbor::node_kind;
        switch (n.kind()) {
            case C::map: return Map; case C::array: return Arr; case C::tag: return Tag; case C::bytes: return Bytes; case C::text: return Str; case C::real: return Real;
            case C::sint: return Sint; case C::uint: return Uint; case C::simple: return Simple; case C::boolean: return Bool; case C::null: return Null; case C::undefined: return Undef;
        }
        mon::viol("hist:kind", "a kind that does not exist"); return Null;
    }
};
template <typename M_> struct is_seq : std::false_type {};
template <typename X, typename Al> struct is_seq<std::vector<X, Al>> : std::true_type {};
template <typename N> struct ordered : is_seq<typename T<N>::map> {};

static void canon(M& m, bool ord) { // members of unordered maps in one order
    for (auto& e : m.a) canon(e, ord);
    if (m.k == Map && !ord) {
        std::vector<std::pair<M, M>> ps;
        for (std::size_t i = 0; i + 1 < m.a.size(); i += 2) ps.emplace_back(m.a[i], m.a[i + 1]);
        std::sort(ps.begin(), ps.end(), [](const std::pair<M, M>& a, const std::pair<M, M>& b) { return cmp(a.first, b.first) < 0; });
        m.a.clear();
        for (auto& p : ps) m.a.push_back(p.first), m.a.push_back(p.second);
    }
}

template <typename N> void look_ext(const N& n, M& m, std::true_type);
template <typename N> void look_ext(const N&, M&, std::false_type) {}
template <typename N> M look_(const N& n) {
    M m(T<N>::kind(n));
    switch (m.k) {
        case Null: case Undef: break;
        case Bool: m.u = n.template get<typename N::boolean>(); break;
        case Sint: m.i = n.template get<typename N::sint>(); break;
        case Uint: m.u = n.template get<typename N::uint>(); break;
        case Real: m.r = n.template get<typename N::real>(); break;
        case Str: { auto& s = n.template get<typename T<N>::str>(); m.s.assign(s.data(), s.size()); break; }
        case Arr: for (auto& e : n.template get<typename N::array>()) m.a.push_back(look_(e)); break;
        case Map: for (auto& e : n.template get<typename T<N>::map>()) m.a.push_back(look_(e.first)), m.a.push_back(look_(e.second)); break;
        default: look_ext(n, m, std::integral_constant<bool, T<N>::ext>());
    }
    return m;
}
template <typename N> void look_ext(const N& n, M& m, std::true_type) {
    switch (m.k) {
        case Bytes: { auto& b = n.template get<typename N::bytes>(); m.s.assign(b.begin(), b.end()); break; }
        case Simple: m.u = n.template get<typename N::simple>().value; break;
        case Tag: m.u = n.template get<typename N::tag>().tag; m.a.push_back(look_(n.template get<typename N::tag>().value)); break;
        default: break;
    }
}
template <typename N> M look(const N& n) { M m = look_(n); canon(m, ordered<N>::value); return m; }

// a node's own storage comes from its allocator
template <typename N> void own_ext(const N& n, K k, std::true_type) { if (k == Bytes) MON_CHECK(id_of(n.template get<typename N::bytes>().get_allocator()) == id_of(n.get_allocator()), "alloc:content", "bytes"); }
template <typename N> void own_ext(const N&, K, std::false_type) {}
template <typename N> const N* tagged(const N& n, std::true_type) { return T<N>::kind(n) == Tag ? &n.template get<typename N::tag>().value : nullptr; }
template <typename N> const N* tagged(const N&, std::false_type) { return nullptr; }
template <typename N> void own(const N& n, int all = -1) { // all - everything below has this one
    int const id = id_of(n.get_allocator());
    if (all >= 0) MON_CHECK(id == all, "alloc:elements", "an element read or built with allocator " + std::to_string(all) + " has " + std::to_string(id));
    switch (T<N>::kind(n)) {
        case Str: MON_CHECK(id_of(n.template get<typename T<N>::str>().get_allocator()) == id, "alloc:content", "string"); break;
        case Arr: MON_CHECK(id_of(n.template get<typename N::array>().get_allocator()) == id, "alloc:content", "array"); for (auto& e : n.template get<typename N::array>()) own(e, all); break;
        case Map: MON_CHECK(id_of(n.template get<typename T<N>::map>().get_allocator()) == id, "alloc:content", "map"); for (auto& e : n.template get<typename T<N>::map>()) own(e.first, all), own(e.second, all); break;
        case Tag: own(*tagged(n, std::integral_constant<bool, T<N>::ext>()), all); break;
        default: own_ext(n, T<N>::kind(n), std::integral_constant<bool, T<N>::ext>());
    }
#if AL != 4
    if (T<N>::kind(n) == Arr || T<N>::kind(n) == Map) { // the block of the container
        const void* p = T<N>::kind(n) == Arr ? (const void*)&n.template get<typename N::array>() : (const void*)&n.template get<typename T<N>::map>();
        auto i = reg().live.find(const_cast<void*>(p));
        if (MON_CHECK(i != reg().live.end(), "alloc:block", "the container of a node is not from its allocator")) MON_CHECK(i->second.id == id, "alloc:block", "the container of a node with allocator " + std::to_string(id) + " is from " + std::to_string(i->second.id));
    }
#endif
}

// ------------------------------------------------------------------------- random values

static std::string gen_str(Rng& r) {
    static const char* w[] = {"", "a", "b", "key", "fifteen chars..", "sixteen chars...", "a string long enough to be allocated"};
    if (r.chance(2, 3)) return w[r.below(7)];
    std::string s; for (std::size_t n = r.below(60); n; --n) s += char('a' + r.below(26)); return s;
}
static double gen_real(Rng& r) { static const double d[] = {1.5, -2.25, 1e300, -1e-300, 3.0, 4.0}; return d[r.below(6)]; }
static M gen(Rng& r, unsigned depth, bool ext, bool ord);
static bool has_key(const M& m, const M& k) { for (std::size_t i = 0; i + 1 < m.a.size(); i += 2) if (same(m.a[i], k)) return true; return false; }
static M gen_key(Rng& r, bool ext, bool ord) { return gen(r, r.chance(1, 6) ? 1 : 0, ext, ord); }
static M gen(Rng& r, unsigned depth, bool ext, bool ord) {
    M m;
    switch (r.below(depth ? (ext ? 16 : 12) : (ext ? 9 : 6))) {
        case 0: m.k = Null; break;
        case 1: m.k = Bool; m.u = r.below(2); break;
        case 2: m.k = Sint; m.i = (long long)r.bits(); break;
        case 3: m.k = Uint; m.u = r.bits(); break;
        case 4: m.k = Real; m.r = gen_real(r); break;
        case 5: m.k = Str; m.s = gen_str(r); break;
        case 6: if (ext) { m.k = Undef; break; } // fallthrough
        case 7: if (ext) { m.k = Simple; m.u = r.below(20); break; } // fallthrough
        case 8: if (ext) { m.k = Bytes; m.s = gen_str(r); break; } // fallthrough
        case 9: case 10: case 12: m.k = Arr; for (std::size_t n = r.chance(1, 8) ? r.below(20) : r.below(4); n; --n) m.a.push_back(gen(r, depth - 1, ext, ord)); break;
        case 13: case 14: if (ext) { m.k = Tag; m.u = r.bits(); m.a.push_back(gen(r, depth - 1, ext, ord)); break; } // fallthrough
        default:
            m.k = Map;
            for (std::size_t n = r.below(4); n; --n) { M k = gen_key(r, ext, ord); canon(k, ord); if (!ord && has_key(m, k)) continue; m.a.push_back(std::move(k)); m.a.push_back(gen(r, depth - 1, ext, ord)); }
    }
    if (m.k == Arr || m.k == Map) canon(m, ord);
    return m;
}

// ------------------------------------------------------------------------- building nodes, in many ways

template <typename N> N build(const M& m, Rng& r, int id);
template <typename N> void fill(typename N::array& c, const M& m, Rng& r, int id) { if (r.chance(1, 2)) c.reserve(m.a.size()); for (auto& e : m.a) { if (r.chance(1, 2)) c.push_back(build<N>(e, r, r.chance(3, 4) ? id : (int)r.below(IDS))); else { const N x(build<N>(e, r, id)); c.push_back(x); } } }
template <typename N> void put(typename T<N>::map& c, N&& k, N&& v, std::true_type) { c.emplace_back(std::move(k), std::move(v)); }
template <typename N> void put(typename T<N>::map& c, N&& k, N&& v, std::false_type) { c.emplace(std::move(k), std::move(v)); }
template <typename N> void fill_map(typename T<N>::map& c, const M& m, Rng& r, int id) { for (std::size_t i = 0; i < m.a.size(); i += 2) put<N>(c, build<N>(m.a[i], r, id), build<N>(m.a[i + 1], r, id), ordered<N>()); }
template <typename N> void set_ext(N& n, const M& m, Rng& r, std::true_type) {
    int const id = id_of(n.get_allocator());
    switch (m.k) {
        case Undef: if (r.chance(1, 2)) n = typename N::undefined(); else n.template imbue<typename N::undefined>(); break;
        case Simple: if (r.chance(1, 2)) n = typename N::simple((unsigned char)m.u); else n.template imbue<typename N::simple>().value = (unsigned char)m.u; break;
        case Bytes: {
            typename N::bytes b(m.s.begin(), m.s.end(), typename N::bytes::allocator_type(mk((int)r.below(IDS))));
            switch (r.below(3)) { case 0: n = b; break; case 1: n = std::move(b); break; default: n.template imbue<typename N::bytes>().assign(m.s.begin(), m.s.end()); }
            break;
        }
        case Tag: {
            if (r.chance(1, 2)) { auto& t = n.template imbue<typename N::tag>(); t.tag = m.u; t.value = build<N>(m.a[0], r, id); }
            else { typename N::tag t(m.u, build<N>(m.a[0], r, id)); if (r.chance(1, 2)) n = t; else n = std::move(t); }
            break;
        }
        default: break;
    }
}
template <typename N> void set_ext(N&, const M&, Rng&, std::false_type) {}
// give an existing node a value
template <typename N> void set(N& n, const M& m, Rng& r) {
    typedef typename T<N>::str S; typedef typename T<N>::map O;
    int const id = id_of(n.get_allocator());
    unsigned const w = (unsigned)r.below(3);
    switch (m.k) {
        case Null: if (w == 0) n = nullptr; else if (w == 1) n.template imbue<typename N::null>(); else n = typename N::null(); break;
        case Bool: { bool const b = m.u != 0; if (w == 0) n = b; else if (w == 1) n.template imbue<typename N::boolean>() = b; else n = N(b, n.get_allocator()); break; }
        case Sint: if (w == 0 && m.i == (int)m.i) n = (int)m.i; else if (w == 1) n.template imbue<typename N::sint>() = m.i; else n = m.i; break;
        case Uint: if (w == 0 && m.u == (unsigned short)m.u) n = (unsigned short)m.u; else if (w == 1) n.template imbue<typename N::uint>() = m.u; else { const typename N::uint u = m.u; n = u; } break;
        case Real: if (w == 0) n = m.r; else if (w == 1) n.template imbue<typename N::real>() = m.r; else { const double d = m.r; n = d; } break;
        case Str: {
            S s(m.s.data(), m.s.size(), typename S::allocator_type(mk((int)r.below(IDS))));
            switch (r.below(4)) { case 0: n = m.s.c_str(); break; case 1: n = s; break; case 2: n = std::move(s); break; default: n.template imbue<S>().assign(m.s.data(), m.s.size()); }
            break;
        }
        case Arr: {
            if (w == 0) { auto& c = n.template imbue<typename N::array>(); c.clear(); fill<N>(c, m, r, id); break; }
            typename N::array c(typename N::array::allocator_type(mk((int)r.below(IDS)))); fill<N>(c, m, r, id);
            if (w == 1) n = c; else n = std::move(c);
            break;
        }
        case Map: {
            if (w == 0) { auto& c = n.template imbue<O>(); c.clear(); fill_map<N>(c, m, r, id); break; }
            O c(typename O::allocator_type(mk((int)r.below(IDS)))); fill_map<N>(c, m, r, id);
            if (w == 1) n = c; else n = std::move(c);
            break;
        }
        default: set_ext(n, m, r, std::integral_constant<bool, T<N>::ext>());
    }
}
template <typename N> N build_ext(const M& m, Rng& r, int id, std::true_type) {
    typename N::allocator_type al(mk(id));
    switch (m.k) {
        case Undef: return N(typename N::undefined(), al);
        case Simple: return N(typename N::simple((unsigned char)m.u), al);
        case Bytes: { typename N::bytes b(m.s.begin(), m.s.end()); if (r.chance(1, 2)) return N(b, al); return N(std::move(b), al); }
        case Tag: { typename N::tag t(m.u, build<N>(m.a[0], r, id)); if (r.chance(1, 2)) return N(t, al); return N(std::move(t), al); }
        default: return N(al);
    }
}
template <typename N> N build_ext(const M&, Rng&, int id, std::false_type) { return N(typename N::allocator_type(mk(id))); }
// a node made by a constructor
template <typename N> N build(const M& m, Rng& r, int id) {
    typedef typename T<N>::str S; typedef typename T<N>::map O;
    typename N::allocator_type al(mk(id));
    if (r.chance(1, 3)) { N n(al); set(n, m, r); return n; }
    switch (m.k) {
        case Null: return r.chance(1, 2) ? N(nullptr, al) : N(typename N::null(), al);
        case Bool: { bool const b = m.u != 0; return N(b, al); }
        case Sint: if (m.i == (short)m.i && r.chance(1, 2)) return N((short)m.i, al); { const long long v = m.i; return N(v, al); }
        case Uint: if (m.u == (unsigned)m.u && r.chance(1, 2)) return N((unsigned)m.u, al); return N((unsigned long long)m.u, al);
        case Real: return N(m.r, al);
        case Str: {
            S s(m.s.data(), m.s.size(), typename S::allocator_type(mk((int)r.below(IDS))));
            switch (r.below(3)) { case 0: return N(m.s.c_str(), al); case 1: return N(s, al); default: return N(std::move(s), al); }
        }
        case Arr: {
            bool const pairs = m.a.empty() || std::all_of(m.a.begin(), m.a.end(), [](const M& e) { return e.k == Arr && e.a.size() == 2; });
            if (!pairs && m.a.size() <= 3 && r.chance(1, 2)) switch (m.a.size()) {
                case 1: return N(std::initializer_list<N>{build<N>(m.a[0], r, id)}, al);
                case 2: return N(std::initializer_list<N>{build<N>(m.a[0], r, id), build<N>(m.a[1], r, id)}, al);
                case 3: return N(std::initializer_list<N>{build<N>(m.a[0], r, id), build<N>(m.a[1], r, id), build<N>(m.a[2], r, id)}, al);
            }
            typename N::array c(typename N::array::allocator_type(mk((int)r.below(IDS)))); fill<N>(c, m, r, id);
            if (r.chance(1, 2)) return N(c, al); return N(std::move(c), al);
        }
        case Map: {
            if (m.a.size() == 2 && r.chance(1, 2)) { M p(Arr); p.a = m.a; return N(std::initializer_list<N>{build<N>(p, r, id)}, al); } // one array of two
            O c(typename O::allocator_type(mk((int)r.below(IDS)))); fill_map<N>(c, m, r, id);
            if (r.chance(1, 2)) return N(c, al); return N(std::move(c), al);
        }
        default: return build_ext<N>(m, r, id, std::integral_constant<bool, T<N>::ext>());
    }
}

// ------------------------------------------------------------------------- descendants

template <typename N> struct At { N* n; M* m; };
template <typename N> N* tag_value(N& n, std::true_type) { return &n.template get<typename N::tag>().value; }
template <typename N> N* tag_value(N&, std::false_type) { return nullptr; }
// a random descendant; the model has the form of the node (canon) - members are matched by their keys
template <typename N> bool child(At<N> a, Rng& r, At<N>& c) {
    switch (a.m->k) {
        case Arr: { if (a.m->a.empty()) return false; std::size_t i = r.below(a.m->a.size()); c.n = &a.n->template get<typename N::array>()[i]; c.m = &a.m->a[i]; return true; }
        case Map: {
            if (a.m->a.empty()) return false;
            std::size_t i = r.below(a.m->a.size() / 2), j = 0;
            for (auto& e : a.n->template get<typename T<N>::map>()) {
                if (ordered<N>::value ? i == j : same(look(e.first), a.m->a[i * 2])) { c.n = &e.second; c.m = &a.m->a[i * 2 + 1]; return true; }
                ++j;
            }
            mon::viol("hist:member", "a member of the model is not in the node"); return false;
        }
        case Tag: c.n = tag_value(*a.n, std::integral_constant<bool, T<N>::ext>()); c.m = &a.m->a[0]; return true;
        default: return false;
    }
}
template <typename N> At<N> descend(At<N> a, Rng& r, unsigned min = 0) {
    At<N> c;
    for (unsigned d = 0; d < min || r.chance(1, 2); ++d) { if (!child(a, r, c)) break; a = c; }
    return a;
}

// ------------------------------------------------------------------------- histories

static std::string trace;
static void log(const std::string& s) { mon::pause p; trace += s; trace += ";"; mon::input(trace.size() > 3000 ? trace.substr(trace.size() - 3000) : trace); }

template <typename N> struct Slot {
    std::unique_ptr<N> n; M m; int id = 0;
};
template <typename N> struct Pool {
    enum { SIZE = 4 };
    Slot<N> s[SIZE];
    bool own_ok = true;
};
template <typename N> void verify(Pool<N>& p, const char* op) {
    for (int i = 0; i < Pool<N>::SIZE; ++i) {
        auto& s = p.s[i];
        M const g = look(*s.n);
        M w = s.m; canon(w, ordered<N>::value);
        if (!same(g, w)) { mon::viol(std::string("hist:value:") + op, "slot " + std::to_string(i) + " is " + show(g) + ", expected " + show(w) + " after " + trace.substr(trace.size() > 600 ? trace.size() - 600 : 0)); s.m = g; }
        else mon::eval(mon::mix(mon::fnv(show(g)), mon::fnv(op)));
        if (id_of(s.n->get_allocator()) != s.id) { mon::viol(std::string("alloc:id:") + op, "slot " + std::to_string(i) + " has allocator " + std::to_string(id_of(s.n->get_allocator())) + ", expected " + std::to_string(s.id)); s.id = id_of(s.n->get_allocator()); }
        own(*s.n);
    }
}
template <typename N> void moved_from(Slot<N>& s) { s.m = look(*s.n); }

static int propagated_copy(int id) { return (FLAGS & SOCC) ? 0 : id; }

// one operation on the pool: performs it on the nodes and the model
template <typename N> struct Op {
    typedef T<N> Tn;
    enum { ext = Tn::ext };
    static M value(Rng& r) { return gen(r, (unsigned)r.below(4), ext, ordered<N>::value); }
    static const char* run(Pool<N>& p, Rng& r) {
        int const i = (int)r.below(Pool<N>::SIZE), j = (int)r.below(Pool<N>::SIZE);
        auto& a = p.s[i]; auto& b = p.s[j];
        std::string const ij = std::to_string(i) + "," + std::to_string(j);
        if (size(a.m) > 120) { log("reset " + std::to_string(i)); a.n->reset(); a.m = M(ext ? Undef : Null); return "reset"; }
        switch (r.below(25)) {
            case 0: { // construct
                int const id = (int)r.below(IDS); M m = value(r);
                log("build " + std::to_string(i) + " al" + std::to_string(id) + " " + show(m));
                a.n.reset(); a.n.reset(new N(build<N>(m, r, id))); a.m = m; a.id = id;
                return "build";
            }
            case 1: { // copy construct
                log("copy " + ij);
                if (i == j) return "none";
                a.n.reset(); a.n.reset(new N(static_cast<const N&>(*b.n))); a.m = b.m; a.id = propagated_copy(b.id);
                return "copy-construct";
            }
            case 2: {
                int const id = (int)r.below(IDS);
                log("copy " + ij + " al" + std::to_string(id));
                if (i == j) return "none";
                a.n.reset(); a.n.reset(new N(static_cast<const N&>(*b.n), typename N::allocator_type(mk(id)))); a.m = b.m; a.id = id;
                return "copy-construct-al";
            }
            case 3: { // move construct
                log("move " + ij);
                if (i == j) return "none";
                a.n.reset(); a.n.reset(new N(std::move(*b.n))); a.m = b.m; a.id = b.id; moved_from(b);
                return "move-construct";
            }
            case 4: {
                int const id = (int)r.below(IDS);
                log("move " + ij + " al" + std::to_string(id));
                if (i == j) return "none";
                a.n.reset(); a.n.reset(new N(std::move(*b.n), typename N::allocator_type(mk(id)))); a.m = b.m; a.id = id; moved_from(b);
                return "move-construct-al";
            }
            case 5: case 6: { // copy assign
                log("= " + ij);
                const N& c = *b.n;
                N& x = (*a.n = c);
                MON_CHECK(&x == a.n.get(), "hist:result", "assignment returns something else");
                M m = b.m; a.m = m; if (FLAGS & POCCA) a.id = b.id;
                return i == j ? "copy-assign-self" : "copy-assign";
            }
            case 7: case 8: { // move assign
                log("=move " + ij);
                if (i == j) { auto& y = *a.n; *a.n = std::move(y); moved_from(a); return "move-assign-self"; }
                *a.n = std::move(*b.n); a.m = b.m; if (FLAGS & POCMA) a.id = b.id; moved_from(b);
                return "move-assign";
            }
            case 9: case 10: { // swap
                log("swap " + ij);
                if (!(FLAGS & POCS) && a.id != b.id && false) return "none";
                a.n->swap(*b.n); if (i != j) { std::swap(a.m, b.m); if (FLAGS & POCS) std::swap(a.id, b.id); }
                return i == j ? "swap-self" : "swap";
            }
            case 11: { // from a descendant
                At<N> d = descend(At<N>{a.n.get(), &a.m}, r, 1);
                log("=descendant " + std::to_string(i) + " " + show(*d.m));
                M m = *d.m; int const id = id_of(d.n->get_allocator());
                const N& c = *d.n; *a.n = c; a.m = m; if (FLAGS & POCCA) a.id = id;
                return "copy-assign-descendant";
            }
            case 12: {
                At<N> d = descend(At<N>{a.n.get(), &a.m}, r, 1);
                if (d.n == a.n.get()) return "none";
                log("=move descendant " + std::to_string(i) + " " + show(*d.m));
                M m = *d.m; int const id = id_of(d.n->get_allocator());
                *a.n = std::move(*d.n); a.m = m; if (FLAGS & POCMA) a.id = id;
                return "move-assign-descendant";
            }
            case 13: { // from an ancestor
                At<N> d = descend(At<N>{a.n.get(), &a.m}, r, 1);
                log("=ancestor " + std::to_string(i));
                M m = a.m; int const id = a.id; bool const top = d.n == a.n.get();
                const N& c = *a.n; *d.n = c; *d.m = m; if (top && (FLAGS & POCCA)) a.id = id;
                return "copy-assign-ancestor";
            }
            case 14: { // between parts of different nodes
                At<N> d = descend(At<N>{a.n.get(), &a.m}, r), e = descend(At<N>{b.n.get(), &b.m}, r);
                if (i == j) return "none";
                log("parts= " + ij);
                M m = *e.m; int const id = id_of(e.n->get_allocator());
                *d.n = static_cast<const N&>(*e.n); *d.m = m; if (d.n == a.n.get() && (FLAGS & POCCA)) a.id = id;
                return "copy-assign-part";
            }
            case 15: {
                At<N> d = descend(At<N>{a.n.get(), &a.m}, r), e = descend(At<N>{b.n.get(), &b.m}, r);
                if (i == j) return "none";
                log("parts=move " + ij);
                M m = *e.m; int const id = id_of(e.n->get_allocator());
                *d.n = std::move(*e.n); *d.m = m; if (d.n == a.n.get() && (FLAGS & POCMA)) a.id = id;
                *e.m = look(*e.n);
                return "move-assign-part";
            }
            case 16: {
                At<N> d = descend(At<N>{a.n.get(), &a.m}, r), e = descend(At<N>{b.n.get(), &b.m}, r);
                if (i == j) return "none";
                log("parts swap " + ij);
                int const x = id_of(d.n->get_allocator()), y = id_of(e.n->get_allocator());
                d.n->swap(*e.n); std::swap(*d.m, *e.m);
                if (FLAGS & POCS) { if (d.n == a.n.get()) a.id = y; if (e.n == b.n.get()) b.id = x; }
                return "swap-part";
            }
            case 17: { // set
                At<N> d = descend(At<N>{a.n.get(), &a.m}, r);
                M m = value(r); log("set " + std::to_string(i) + " " + show(m));
                set(*d.n, m, r); *d.m = m;
                return "set";
            }
            case 18: { // change of kind
                At<N> d = descend(At<N>{a.n.get(), &a.m}, r);
                log("imbue " + std::to_string(i));
                K k;
                switch (r.below(6)) {
                    case 0: k = Arr; d.n->template imbue<typename N::array>(); break;
                    case 1: k = Map; d.n->template imbue<typename Tn::map>(); break;
                    case 2: k = Str; d.n->template imbue<typename Tn::str>(); break;
                    case 3: k = Null; d.n->template imbue<typename N::null>(); break;
                    case 4: k = Real; if (d.m->k != k) d.n->template imbue<typename N::real>() = 0; break;
                    default: k = Uint; if (d.m->k != k) d.n->template imbue<typename N::uint>() = 0; break;
                }
                if (d.m->k != k) *d.m = M(k);
                return "imbue";
            }
            case 19: { log("reset " + std::to_string(i)); At<N> d = descend(At<N>{a.n.get(), &a.m}, r); d.n->reset(); *d.m = M(ext ? Undef : Null); return "reset"; }
            case 20: case 21: return edit(descend(At<N>{a.n.get(), &a.m}, r), r, i);
            case 22: { // through a container of nodes
                log("vector");
                std::vector<N> v; std::vector<M> w;
                for (auto& s : p.s) { if (r.chance(1, 2)) v.push_back(*s.n); else v.insert(v.begin() + r.below(v.size() + 1), *s.n); w.clear(); for (auto& e : v) w.push_back(look(e)); }
                std::size_t const k = r.below(v.size());
                std::rotate(v.begin(), v.begin() + k, v.end()); std::rotate(w.begin(), w.begin() + k, w.end());
                std::reverse(v.begin(), v.end()); std::reverse(w.begin(), w.end());
                std::size_t const x = r.below(v.size()); v.erase(v.begin() + x); w.erase(w.begin() + x);
                for (std::size_t q = 0; q < v.size(); ++q) MON_CHECK(same(look(v[q]), w[q]), "hist:vector", show(look(v[q])) + ", expected " + show(w[q]));
                return "vector";
            }
            case 23: { // into an element of itself
                if (a.m.k != Arr || size(a.m) > 40) return "none";
                log("push_back itself " + std::to_string(i));
                M m = a.m; auto& c = a.n->template get<typename N::array>();
                c.push_back(*a.n); a.m.a.push_back(m);
                return "push-self";
            }
            default: { // init list, made from itself
                if (size(a.m) > 40) return "none";
                log("={self,..} " + std::to_string(i));
                M m(Arr); m.a.push_back(a.m); m.a.push_back(M(Null)); m.a.push_back(a.m);
                *a.n = { *a.n, N(nullptr), *a.n }; a.m = m;
                return "init-list-self";
            }
        }
    }
    static const char* edit(At<N> d, Rng& r, int i) {
        switch (d.m->k) {
            case Arr: {
                auto& c = d.n->template get<typename N::array>(); auto& m = d.m->a;
                log("edit array " + std::to_string(i));
                switch (r.below(7)) {
                    case 0: { M x = value(r); c.push_back(build<N>(x, r, (int)r.below(IDS))); m.push_back(x); return "push_back"; }
                    case 1: if (m.empty()) return "none"; c.pop_back(); m.pop_back(); return "pop_back";
                    case 2: { M x = value(r); std::size_t k = r.below(m.size() + 1); c.insert(c.begin() + k, build<N>(x, r, (int)r.below(IDS))); m.insert(m.begin() + k, x); return "insert"; }
                    case 3: { if (m.empty()) return "none"; std::size_t k = r.below(m.size()); c.erase(c.begin() + k); m.erase(m.begin() + k); return "erase"; }
                    case 4: { std::size_t k = r.below(m.size() + 3); c.resize(k); m.resize(k, M(ext ? Undef : Null)); return "resize"; }
                    case 5: { if (m.empty()) return "none"; std::size_t k = r.below(m.size()); c.push_back(c[k]); M x = m[k]; m.push_back(x); return "push_back-element"; }
                    default: c.clear(); m.clear(); return "clear";
                }
            }
            case Map: {
                auto& c = d.n->template get<typename Tn::map>(); auto& m = d.m->a;
                log("edit map " + std::to_string(i));
                if (r.chance(1, 5)) { c.clear(); m.clear(); return "clear-map"; }
                if (r.chance(1, 4) && !m.empty()) return drop(c, *d.m, r, ordered<N>());
                M k = gen_key(r, ext, ordered<N>::value), x = value(r); canon(k, ordered<N>::value);
                if (!ordered<N>::value && has_key(*d.m, k)) return "none";
                put<N>(c, build<N>(k, r, (int)r.below(IDS)), build<N>(x, r, (int)r.below(IDS)), ordered<N>());
                m.push_back(k); m.push_back(x); canon(*d.m, ordered<N>::value);
                return "insert-map";
            }
            case Str: { log("edit string " + std::to_string(i)); std::string s = gen_str(r); auto& c = d.n->template get<typename Tn::str>(); if (r.chance(1, 2)) c.append(s.data(), s.size()), d.m->s += s; else c.assign(s.data(), s.size()), d.m->s = s; return "edit-string"; }
            case Uint: d.n->template get<typename N::uint>() += 1; d.m->u += 1; return "edit-number";
            case Real: d.n->template get<typename N::real>() = 7.5; d.m->r = 7.5; return "edit-number";
            default: return "none";
        }
    }
    template <typename C> static const char* drop(C& c, M& m, Rng& r, std::true_type) { std::size_t k = r.below(m.a.size() / 2); c.erase(c.begin() + k); m.a.erase(m.a.begin() + 2 * k, m.a.begin() + 2 * k + 2); return "erase-map"; }
    template <typename C> static const char* drop(C& c, M& m, Rng& r, std::false_type) {
        std::size_t k = r.below(m.a.size() / 2);
        for (auto i = c.begin(); i != c.end(); ++i) if (same(look(i->first), m.a[2 * k])) { c.erase(i); m.a.erase(m.a.begin() + 2 * k, m.a.begin() + 2 * k + 2); return "erase-map"; }
        mon::viol("hist:member", "a member of the model is not in the node"); return "erase-map";
    }
};

static void left(const char* what) { // after everything is destroyed
#if AL == 4
    if (std::strcmp(what, "oom") == 0 && mon::al().live) mon::viol("alloc:left:oom", std::to_string(mon::al().live) + " blocks left");
#else
    if (!reg().live.empty()) { mon::viol(std::string("alloc:left:") + what, std::to_string(reg().live.size()) + " blocks left after " + mon::clip(trace, 600)); reg().live.clear(); }
#endif
}

template <typename N> void start(Pool<N>& p, Rng& r, int steps) {
    for (auto& s : p.s) { s.id = (int)r.below(IDS); s.m = Op<N>::value(r); s.n.reset(new N(build<N>(s.m, r, s.id))); }
    for (; steps; --steps) Op<N>::run(p, r);
}

template <typename N> void history(Rng& r, const char* name) {
    mon::site(name); trace.clear();
    {
        Pool<N> p;
        start(p, r, 0);
        verify(p, "start");
        for (int n = 4 + (int)r.below(30); n; --n) {
            const char* op = Op<N>::run(p, r);
            mon::count(std::string("op:") + op);
            verify(p, op);
        }
    }
    left("history");
    mon::sample(mon::clip(trace, 300));
}
static void m_hist(Rng& r) {
    switch (r.below(4)) {
        case 0: return history<JN>(r, "json::node");
        case 1: return history<JO>(r, "json::ordered_node");
        case 2: return history<CN>(r, "cbor::node");
        default: return history<CO>(r, "cbor::ordered_node");
    }
}

// ------------------------------------------------------------------------- out of memory

#if AL == 4
    struct Fault { Fault(unsigned long long f) { mon::al().n = 0; mon::al().fail_at = f; mon::al().failed = false; } ~Fault() { mon::al().fail_at = 0; } static bool hit() { return mon::al().failed; } };
    struct Scope { long long was; mon::ledger l; Scope() : l(0) {} };
#else
    struct Fault { Fault(unsigned long long f) { reg().arm(f); } ~Fault() { reg().fail_at = 0; } static bool hit() { return reg().failed; } };
    struct Scope {};
#endif

// the k-th allocation of one operation fails
template <typename N> bool oom_once(std::uint64_t seed, int steps, unsigned long long k, unsigned long long& total, const char*& op) {
    bool hit = false; trace.clear();
    {
        Pool<N> p;
        Rng r(seed);
        start(p, r, steps);
        std::vector<M> before; std::vector<int> ids;
        for (auto& s : p.s) { M m = look(*s.n); before.push_back(m); }
        Rng o = r; // the operation's own choices
        bool thrown = false;
        {
            Fault f(k);
            try { op = Op<N>::run(p, r); }
            catch (const std::bad_alloc&) { thrown = true; op = "thrown"; }
            total = requests();
            hit = Fault::hit();
        }
        if (hit) {
            mon::pause g;
            if (!thrown) mon::viol("oom:swallowed", std::string("an allocation failed in ") + op + " and nothing was thrown, " + trace.substr(trace.size() > 400 ? trace.size() - 400 : 0));
        }
        if (thrown) {
            // everything can be inspected
            std::vector<M> now;
            for (auto& s : p.s) { if (!s.n) { now.push_back(M()); continue; } M m = look(*s.n); own(*s.n); now.push_back(m); }
            // sources of copies and bystanders are as they were: at most two slots take part, the last logged operation names them
            std::string l = trace.substr(trace.rfind(';', trace.size() - 2) == std::string::npos ? 0 : trace.rfind(';', trace.size() - 2) + 1);
            int tgt = -1, src = -1; bool mv = l.find("move") != std::string::npos || l.find("swap") != std::string::npos;
            { auto q = l.find_first_of("0123456789"); if (q != std::string::npos) tgt = l[q] - '0'; auto c = l.find(','); if (c != std::string::npos && c == q + 1) src = l[c + 1] - '0'; }
            for (int i = 0; i < Pool<N>::SIZE; ++i) if (p.s[i].n && i != tgt && (i != src || !mv)) MON_CHECK(same(now[i], before[i]), "oom:source", "slot " + std::to_string(i) + " was " + show(before[i]) + ", is " + show(now[i]) + " after a failed " + l);
            mon::eval(mon::fnv(l) ^ k);
            mon::count("oom:" + l.substr(0, l.find_first_of(" ;")));
            // and reused
            Rng q(seed ^ 77);
            for (auto& s : p.s) {
                M v = Op<N>::value(q);
                if (!s.n) s.n.reset(new N());
                switch (q.below(4)) { case 0: set(*s.n, v, q); break; case 1: *s.n = build<N>(v, q, (int)q.below(IDS)); break; case 2: { N x(build<N>(v, q, 0)); *s.n = x; break; } default: { N x(build<N>(v, q, id_of(s.n->get_allocator()))); s.n->swap(x); } }
                M w = v; canon(w, ordered<N>::value);
                MON_CHECK(same(look(*s.n), w), "oom:reuse", "assigned " + show(w) + " is " + show(look(*s.n)) + " after a failed " + l);
            }
        }
    }
    return hit;
}
template <typename N> void oom(Rng& r, const char* name) {
    mon::site(name);
    std::uint64_t const seed = r.next(); int const steps = (int)r.below(6);
    unsigned long long total = 0, t; const char* op = "";
    for (unsigned long long k = 0;; ++k) {
        if (k > 40 && k > total) break;
        if (k > 12 && total > 40) { k += 1 + r.below(total / 16 + 1); }
        bool hit;
        {
#if AL == 4
            mon::ledger l;
#endif
            hit = oom_once<N>(seed, steps, k, k ? t : total, op);
#if AL == 4
            std::string().swap(trace);
            left("oom");
#endif
        }
#if AL != 4
        left("oom");
#endif
        if (k == 0) mon::count(std::string("oom-op:") + op);
        if (k && !hit) break;
    }
}
static void m_oom(Rng& r) {
    switch (r.below(4)) {
        case 0: return oom<JN>(r, "json::node");
        case 1: return oom<JO>(r, "json::ordered_node");
        case 2: return oom<CN>(r, "cbor::node");
        default: return oom<CO>(r, "cbor::ordered_node");
    }
}

// ------------------------------------------------------------------------- reading and writing

// a document for nodes: well-formed, changed or cut off
static std::string document(Rng& r, bool cbor) {
    std::string s;
    if (cbor) { auto v = ref::gen_cbor(r, (unsigned)r.below(4), r.chance(1, 2)); ref::cbor_text(r, r.chance(1, 2) ? ref::CborSpell() : ref::CborSpell(unsigned(r.below(5)), unsigned(r.below(5)), r.chance(1, 2)), v, s); }
    else { auto v = ref::gen_json(r, (unsigned)r.below(4), r.chance(1, 4)); ref::json_text(r, r.chance(1, 2) ? ref::JsonSpell() : ref::JsonSpell(unsigned(r.below(4)), unsigned(r.below(6))), v, s); }
    switch (r.below(6)) { case 0: ref::mutate(r, s); break; case 1: s.resize(r.below(s.size() + 1)); break; default: break; }
    return s;
}
template <typename N, typename I> bool read_as(N& n, bool cbor, I b, I e) {
    return cbor ? bool(cxon::from_bytes<cxon::CBOR<>>(n, b, e)) : bool(cxon::from_bytes<cxon::JSON<>>(n, b, e));
}
template <typename N> bool read_doc(N& n, bool cbor, const mon::exact& e, bool stream) {
    if (!stream) return read_as(n, cbor, e.begin(), e.end());
    mon::stream st; st.p = e.begin(); st.e = e.end();
    return read_as(n, cbor, mon::in_iter(&st), mon::in_iter());
}
template <typename O, typename N> bool write_as(O& o, bool cbor, const N& n) { return cbor ? bool(cxon::to_bytes<cxon::CBOR<>>(o, n)) : bool(cxon::to_bytes<cxon::JSON<>>(o, n)); }
typedef std::basic_string<char, std::char_traits<char>, A> Text;

template <typename N> void read_write(Rng& r, const char* name) {
    mon::site(name);
    bool const cbor = r.chance(1, 2), stream = r.chance(1, 3), wc = r.chance(1, 2); int const id = (int)r.below(IDS);
    std::string const s = document(r, cbor); mon::input(s);
    mon::exact e(s);
    unsigned long long n = 0; bool ok0 = false; std::size_t w0 = 0;
    for (unsigned long long k = 0; k <= n; k += k < 16 ? 1 : 1 + r.below(n / 10 + 1)) { // 0 - nothing fails
        {
#if AL == 4
            mon::ledger l;
#endif
            {
                typename N::allocator_type const al(mk(id)); N x(al);
                bool ok = false, threw = false;
                {
                    Fault f(k);
                    try { ok = read_doc(x, cbor, e, stream); } catch (const std::bad_alloc&) { threw = true; }
                    if (Fault::hit() && !threw) { mon::pause g; mon::viol("oom:swallowed", "allocation " + std::to_string(k) + " of " + std::to_string(n) + " failed, the reading returned " + std::to_string(ok)); }
                    if (!Fault::hit() && threw) mon::viol("oom:thrown", "without a failed allocation");
                    if (!k) n = requests();
                }
                if (!k) ok0 = ok; else if (!threw && ok != ok0) mon::viol("oom:outcome", "differs");
                { mon::pause g; if (id_of(x.get_allocator()) != id) mon::viol("alloc:id:read", "the allocator of the node has changed"); own(x, id); look(x); }
                if (!k && ok) { // and written, to a container with an allocator
                    unsigned long long m = 0;
                    for (unsigned long long q = 0; q <= m; ++q) {
                        bool wok = false, wthrew = false;
                        Text t{typename Text::allocator_type(mk(id))};
                        {
                            Fault f(q);
                            try { wok = write_as(t, wc, x); } catch (const std::bad_alloc&) { wthrew = true; }
                            if (Fault::hit() && !wthrew) mon::viol("oom:swallowed", "writing");
                            if (!q) m = requests(), w0 = t.size();
                        }
                        if (!wthrew && (!wok || t.size() != w0)) { if (q || wok) mon::viol("oom:written", "differs"); else mon::count("io:not-written"); }
                        mon::count(wthrew ? "io:write-failed" : "io:written");
                    }
                }
                if (threw) { // reused
                    x = nullptr; bool const again = read_doc(x, cbor, e, stream);
                    if (again != ok0) mon::viol("oom:again", "reading again after a failed allocation gives another outcome");
                    mon::pause g; own(x, id);
                }
                mon::count(k == 0 ? (ok ? "io:accepted" : "io:refused") : "io:read-failed");
            }
#if AL == 4
            left("oom");
#endif
        }
#if AL != 4
        left(k ? "read-oom" : "read");
#endif
        mon::eval(mon::mix(mon::fnv(s), k));
    }
    mon::sample(cbor ? mon::hex(s) : s);
}
static void m_io(Rng& r) {
    switch (r.below(4)) {
        case 0: return read_write<JN>(r, "json::node");
        case 1: return read_write<JO>(r, "json::ordered_node");
        case 2: return read_write<CN>(r, "cbor::node");
        default: return read_write<CO>(r, "cbor::ordered_node");
    }
}

int main(int argc, char** argv) {
    static const mon::Mode modes[] = {{"history", m_hist}, {"oom", m_oom}, {"io", m_io}};
    return mon::run(argc, argv, modes);
}
