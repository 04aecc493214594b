// Chain order (particle-system/chain.hpp). The list of the chain is watched through its calls; std::list, std::vector
// and std::sort are replaced by stand-ins (vx_list: any content, every insertion checked; vx_vector: an array of nodes
// that remembers the element looked at last; vx_sort: only the comparison it is given matters).
#include "vx.hpp"
#include "interaction/interaction.hpp"
#include "core-computation.hpp"
enum { bad, head, tail, last, asked, answer, dead, Q, total, num, links, pushes, ev, nG };
static size_t *g;
static size_t *pi, *pj, *av;      // the nodes as given
static size_t *draws, *content;
static size_t n_draws;
static void check(bool ok) { g[bad] = ok ? g[bad] : 1; }
#ifdef VX_NATIVE
#define IDX(i) ((i) % n_draws)
#else
#define IDX(i) (i)
#endif
// node q can be attached now
static bool touches(size_t q, size_t end) { return (pi[q] == end) | (pj[q] == end); }
static bool open_link(size_t q) { return (g[dead] == 0) & (touches(q, g[head]) | touches(q, g[tail])); }
namespace std {
    template <class X>
    struct vx_list {
        vx_list(std::initializer_list<size_t> l) {
            if (l.size() == 0) return;
            check((l.size() == 2) & (l.begin()[0] == pi[0]) & (l.begin()[1] == pj[0]));
            g[head] = l.begin()[0], g[tail] = l.begin()[1];
        }
        void insert(size_t x, size_t end) {
            size_t const k = g[last], q = g[Q];
            check((1 <= k) & (k < g[total]) & (g[asked] == x) & (g[answer] == 1));
            check(((pi[k] == g[end]) & (pj[k] == x)) | ((pj[k] == g[end]) & (pi[k] == x)));
            check((q >= k) | !open_link(q));      // no shorter link could have been attached
            g[end] = x;
            g[links] += 1;
            g[dead] = (k == q) ? 1 : g[dead];
            g[answer] = 0;
        }
        void emplace_front(size_t x) { insert(x, head); }
        void emplace_back(size_t x) { insert(x, tail); }
        void push_front(size_t x) { insert(x, head); }
        void push_back(size_t x) { insert(x, tail); }
        struct It {
            using iterator_category = std::bidirectional_iterator_tag;
            using value_type = X;
            using difference_type = std::ptrdiff_t;
            using pointer = X const *;
            using reference = X &;
            size_t k;
            X &operator*() const {
                g[last] = k;
                return reinterpret_cast<X &>(content[k]);
            }
            It &operator++() { return ++k, *this; }
            It &operator--() { return --k, *this; }
            It operator++(int) { return It{k++}; }
            bool operator==(It const &o) const { return k == o.k; }
            bool operator!=(It const &o) const { return k != o.k; }
        };
        It begin() const { return It{0}; }
        It end() const { return It{g[links] + 1}; }
        It cbegin() const { return It{0}; }
        It cend() const { return It{g[links] + 1}; }
        size_t size() const { return g[links] + 1; }
    };
    // One node at a time is looked at: a window on the nodes as given, with the flags as they are now.
    template <class N>
    struct vx_vector {
        N *w = nullptr;
        size_t n = 0;
        N &operator[](size_t k) {
            if (g[total] != 0) {
                size_t const l = g[last];
                check((w->i == pi[l]) & (w->j == pj[l]));
                av[l] = w->avail ? 1 : 0;
                w->i = pi[k], w->j = pj[k], w->avail = av[k] != 0;
                g[last] = k;
            }
            return *w;
        }
        size_t size() const { return n; }
        N *begin() { return w; }
        N *end() { return w + n; }
        void reserve(size_t) {}
        void emplace_back(N const &x) {}
    };
    template <class N, class Cmp>
    void vx_sort(N *b, N *e, Cmp less);
}  // namespace std
#define sort vx_sort
#define list vx_list
#define vector vx_vector
#define private public
#include "particle-system/chain.hpp"
#undef private
#undef vector
#undef list
#undef sort
namespace hub {
    template <>
    bool Chain::not_in_list<size_t>(std::vx_list<size_t> &, size_t x) {
        g[asked] = x;
        g[answer] = draws[IDX(g[ev])] != 0;
        g[ev] += 1;
        g[dead] = ((g[answer] == 0) & (g[last] == g[Q])) ? 1 : g[dead];
        return g[answer] == 1;
    }
}  // namespace hub
struct Out {
    size_t *o;
    void clear() { g[pushes] = 0; }
    void emplace_back(size_t x) {
        o[g[pushes]] = x;
        g[pushes] += 1;
    }
    void push_back(size_t x) { emplace_back(x); }
    size_t size() const { return g[pushes]; }
};
// the steps of calc_chain_index: 1 distances, 2 sort, 3 order; every step gets what the one before made
using V3 = hub::Vec3<double>;
struct Pos {
    using value_type = V3;
    double const *p;
    size_t n;
    size_t size() const { return n; }
    V3 operator[](size_t k) const { return V3(p[3 * k], p[3 * k + 1], p[3 * k + 2]); }
};
struct OutB : Out {};
static double *ra;
static std::vx_vector<hub::Chain::Node> *nodes;
namespace hub {
    template <>
    void Chain::create_distances_array(Pos const &p, std::vx_vector<Node> &v) {
        check((g[ev] == 0) & (p.size() == g[num]));
        static Node pair[2];
        pair[0].r = ra[0], pair[1].r = ra[1], pair[0].i = 0, pair[0].j = 1, pair[1].i = 0, pair[1].j = 1;
        v.w = pair, v.n = g[total], nodes = &v;
        g[ev] = 1;
    }
    template <>
    void Chain::create_index_from_dist_array(std::vx_vector<Node> &v, OutB &, size_t n) {
        check((g[ev] == 2) & (n == g[num]) & (&v == nodes) & (v.n == g[total]));
        g[ev] = 3;
    }
}  // namespace hub
namespace std {
    template <class N, class Cmp>
    void vx_sort(N *b, N *e, Cmp less) {
        check((g[ev] == 1) & (b == nodes->w) & (e == b + g[total]));
        g[answer] = less(b[0], b[1]) ? 1 : 0;
        g[ev] = 2;
    }
}  // namespace std
VX_EXPORT void h_steps(size_t m, size_t n, double *r, size_t *gg) {
    g = gg, ra = r;
    for (int k : {bad, answer, ev}) g[k] = 0;
    g[total] = m, g[num] = n;
    Pos p{nullptr, n};
    OutB o;
    hub::Chain::calc_chain_index(p, o);
}

VX_EXPORT bool h_not_in(size_t m, size_t *cont, size_t x, size_t *gg) {
    g = gg, content = cont;
    g[links] = m - 1, g[last] = 0;
    std::vx_list<long> l({});
    return hub::Chain::not_in_list<long>(l, static_cast<long>(x));
}

// every pair once: pair (a, b) is watched
struct Nodes {
    double *p;
    size_t a, b;
    void reserve(size_t) {}
    template <class N>
    void emplace_back(N const &x) {
        check((x.i < x.j) & (x.j < g[num]) & x.avail);
        double const dx = p[3 * x.j] - p[3 * x.i], dy = p[3 * x.j + 1] - p[3 * x.i + 1], dz = p[3 * x.j + 2] - p[3 * x.i + 2];
        check(x.r == dx * dx + dy * dy + dz * dz);
        g[links] += ((x.i == a) & (x.j == b)) ? 1 : 0;
    }
    template <class N>
    void push_back(N const &x) {
        emplace_back(x);
    }
};
VX_EXPORT void h_pairs(size_t n, double *p, size_t a, size_t b, size_t *gg) {
    g = gg;
    g[bad] = 0, g[links] = 0, g[num] = n;
    Pos pos{p, n};
    Nodes v{p, a, b};
    hub::Chain::create_distances_array(pos, v);
}

VX_EXPORT void h_index(size_t m, size_t n_draw, size_t *i, size_t *j, size_t *avail, size_t *dr, size_t *cont, size_t n, size_t q, size_t *gg, size_t *out) {
    g = gg, pi = i, pj = j, av = avail, draws = dr, n_draws = n_draw, content = cont;
    for (int k : {bad, last, asked, answer, dead, links, pushes, ev}) g[k] = 0;
    g[links] = 1, g[Q] = q, g[total] = m, g[num] = n;
    using Node = hub::Chain::Node;
    Node *w = static_cast<Node *>(::operator new(sizeof(Node)));
    w->r = 0, w->i = i[0], w->j = j[0], w->avail = true;
    std::vx_vector<Node> dist{w, m};
    Out o{out};
    hub::Chain::create_index_from_dist_array(dist, o, n);
    g[answer] = open_link(q) ? 1 : 0;
}
