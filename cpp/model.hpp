// Reference model: a plain backtracking interpreter over a serialised regex tree.
// Independent of the library: it knows nothing about templates, iterators or AST inversion. It works on
// positions in a byte string, with an explicit direction (+1 / -1) instead of mirrored trees.
#ifndef VF_MODEL_HPP
#define VF_MODEL_HPP
#include <bitset>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "iface.hpp"

namespace vf
{
    struct Budget {};

    enum Feature : unsigned
    {
        F_MATCH = 1,         // matched
        F_NONEMPTY = 2,      // matched a non-empty extent
        F_BACKTRACK = 4,     // gave up at least one path that had consumed input or set something
        F_CAP = 8,           // a group (>0) is non-empty in the result
        F_CAPROLL = 16,      // a captured content was undone
        F_REP = 32,          // a repetition did at least two iterations
        F_GIVEBACK = 64,     // an iteration was given back / lazily added
        F_BEHIND = 128,      // a lookbehind looked at at least one byte
        F_AHEAD = 256,       // a lookahead looked at at least one byte
        F_BREF = 512,        // a backreference compared at least one byte
        F_ANCHOR = 1024,     // an anchor held away from the trivial place or failed
        F_EMPTYITER = 2048,  // an empty iteration of an unbounded repetition was seen
        F_NEGLOOK = 4096,    // a negative lookaround decided
        F_ATOMIC = 8192,     // an atomic construct discarded alternatives (completed)
        F_NESTLOOK = 16384,  // a lookaround inside a lookaround was evaluated
        F_MULTI = 32768,     // more than one result in an iteration
        F_FAILED = 65536     // overall failure after consuming
    };

    struct Node
    {
        int k = 0;
        bool neg = false;
        std::bitset<256> set;
        int a = 0, lo = 0, hi = 0;
        std::vector<int> c;
    };

    template<class> struct fref;
    template<class R, class A> struct fref<R(A)>
    {
        void *o;
        R (*f)(void *, A);
        template<class F> requires (!std::is_same_v<F, fref> && !std::is_same_v<F, fref const>) fref(F &x) : o((void *) &x), f([](void *p, A a) -> R { return (*(F *) p)(a); }) {}
        R operator()(A a) const { return f(o, a); }
    };
    using K = fref<bool(long)>;

    struct Model
    {
        std::vector<Node> nodes;
        int root = -1;
        int ncap = 0;
        bool icase = false, dotall = false, multiline = false, ungreedy = false;

        // state of one run
        unsigned char const *s = nullptr;
        long n = 0;
        struct Cap { long b = -1, e = -1; };
        std::vector<Cap> cap;
        std::uint64_t steps = 0, budget = 0;
        unsigned feat = 0;
        int look_depth = 0;

        static bool alpha(unsigned c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
        static unsigned flip(unsigned c) { return alpha(c) ? (c ^ 0x20) : c; }
        static bool word(unsigned c) { return alpha(c) || (c >= '0' && c <= '9') || c == '_'; }
        static bool lb(unsigned c) { return c == '\n' || c == '\r'; }

        int parse_node(std::istream &in)
        {
            Node x;
            in >> x.k;
            switch (x.k)
            {
                case 0: case 2: break;
                case 1:
                {
                    int neg; std::string h;
                    in >> neg >> h;
                    x.neg = neg;
                    for (int i = 0; i < 64; ++i)
                    {
                        char ch = h[63 - i];
                        int v = ch <= '9' ? ch - '0' : ch - 'a' + 10;
                        for (int j = 0; j < 4; ++j)
                            if (v >> j & 1)
                                x.set.set(i * 4 + j);
                    }
                    break;
                }
                case 3: in >> x.a; break;
                case 4: case 5:
                {
                    int m;
                    in >> m;
                    for (int i = 0; i < m; ++i)
                        x.c.push_back(parse_node(in));
                    break;
                }
                case 6: in >> x.a; if (x.a > ncap) ncap = x.a; x.c.push_back(parse_node(in)); break;
                case 7: x.c.push_back(parse_node(in)); break;
                case 8: in >> x.a >> x.lo >> x.hi; x.c.push_back(parse_node(in)); break;
                case 9: { int neg; in >> x.a >> neg; x.neg = neg; x.c.push_back(parse_node(in)); break; }
                case 10: in >> x.a; break;
                default: throw std::runtime_error("bad tree");
            }
            nodes.push_back(x);
            return (int) nodes.size() - 1;
        }

        void load(std::string const &tree, std::string const &flags)
        {
            std::istringstream in(tree);
            root = parse_node(in);
            icase = flags.find('i') != flags.npos;
            dotall = flags.find('s') != flags.npos;
            multiline = flags.find('m') != flags.npos;
            ungreedy = flags.find('u') != flags.npos;
            if (icase)
                for (auto &x : nodes)
                    if (x.k == 1)
                    {
                        auto t = x.set;
                        for (unsigned c = 0; c < 256; ++c)
                            if (t[c])
                                x.set.set(flip(c));
                    }
        }

        bool accepts(Node const &x, unsigned c) const
        {
            if (x.k == 2)
                return dotall || !lb(c);
            return x.set[c] != x.neg;
        }

        bool one(Node const &x, long pos, int dir, K k)
        {
            long at = dir > 0 ? pos : pos - 1;
            if (at < 0 || at >= n)
                return false;
            if (look_depth)
                feat |= dir > 0 ? F_AHEAD : F_BEHIND;
            if (!accepts(x, s[at]))
                return false;
            if (k(pos + dir))
                return true;
            feat |= F_BACKTRACK;
            return false;
        }

        bool anchor(int a, long pos)
        {
            switch (a)
            {
                case 0: return pos == 0 || (multiline && lb(s[pos - 1]));
                case 1: return pos == n || (multiline && lb(s[pos]));
                case 2: return pos == 0;
                case 3: return pos == n;
                default:
                {
                    bool l = pos > 0 && word(s[pos - 1]), r = pos < n && word(s[pos]);
                    return (l != r) == (a == 4);
                }
            }
        }

        bool seq(Node const &x, std::size_t i, long pos, int dir, K k)
        {
            if (i == x.c.size())
                return k(pos);
            int child = dir > 0 ? x.c[i] : x.c[x.c.size() - 1 - i];
            auto next = [&](long p) { return seq(x, i + 1, p, dir, k); };
            return m(child, pos, dir, next);
        }

        // iterate child exactly cnt more times, no special treatment of empty iterations
        bool times(int child, int cnt, long pos, int dir, K k)
        {
            if (cnt == 0)
                return k(pos);
            auto next = [&](long p) { return times(child, cnt - 1, p, dir, k); };
            return m(child, pos, dir, next);
        }

        bool loop(Node const &x, bool greedy, long done, long pos, int dir, K k)
        {
            bool more = x.hi < 0 || done < x.hi;
            auto iterate = [&]() -> bool {
                if (!more)
                    return false;
                auto next = [&](long p) {
                    if (x.hi < 0 && p == pos)
                    {
                        feat |= F_EMPTYITER;
                        return false;
                    }
                    if (done >= 1)
                        feat |= F_REP;
                    return loop(x, greedy, done + 1, p, dir, k);
                };
                return m(x.c[0], pos, dir, next);
            };
            if (greedy)
            {
                if (iterate())
                    return true;
                return k(pos);
            }
            if (k(pos))
                return true;
            feat |= F_GIVEBACK;
            return iterate();
        }

        // first way to match, as a final answer: returns the end or -1; captures stay set
        long first(int child, long pos, int dir)
        {
            long end = -1;
            auto k = [&](long p) { end = p; return true; };
            return m(child, pos, dir, k) ? end : -1;
        }

        bool m(int id, long pos, int dir, K k)
        {
            if (++steps > budget)
                throw Budget{};
            Node const &x = nodes[id];
            switch (x.k)
            {
                case 0:
                    return k(pos);
                case 1:
                case 2:
                    return one(x, pos, dir, k);
                case 3:
                {
                    bool ok = anchor(x.a, pos);
                    if (!ok || (pos > 0 && pos < n))
                        feat |= F_ANCHOR;
                    return ok && k(pos);
                }
                case 4:
                    return seq(x, 0, pos, dir, k);
                case 5:
                    for (std::size_t i = 0; i < x.c.size(); ++i)
                    {
                        if (m(x.c[i], pos, dir, k))
                            return true;
                    }
                    return false;
                case 6:
                {
                    auto close = [&](long p) {
                        Cap old = cap[x.a];
                        cap[x.a] = dir > 0 ? Cap{pos, p} : Cap{p, pos};
                        if (k(p))
                            return true;
                        if (cap[x.a].e != cap[x.a].b || old.e != old.b)
                            feat |= F_CAPROLL;
                        cap[x.a] = old;
                        return false;
                    };
                    return m(x.c[0], pos, dir, close);
                }
                case 7:
                {
                    auto saved = cap;
                    long e = first(x.c[0], pos, dir);
                    if (e < 0)
                        return false;
                    feat |= F_ATOMIC;
                    if (k(e))
                        return true;
                    feat |= F_BACKTRACK;
                    restore(saved);
                    return false;
                }
                case 8:
                    return repeat(x, pos, dir, k);
                case 9:
                {
                    if (look_depth)
                        feat |= F_NESTLOOK;
                    auto saved = cap;
                    ++look_depth;
                    long e = -1;
                    {
                        auto fin = [&](long p) { e = p; return true; };
                        // exceptions only abort the whole run, look_depth is reset at its start
                        if (!m(x.c[0], pos, x.a ? +1 : -1, fin))
                            e = -1;
                    }
                    --look_depth;
                    if (x.neg)
                    {
                        feat |= F_NEGLOOK;
                        if (e >= 0)
                        {
                            restore(saved);
                            return false;
                        }
                        return k(pos);
                    }
                    if (e < 0)
                        return false;
                    if (k(pos))
                        return true;
                    restore(saved);
                    return false;
                }
                case 10:
                {
                    Cap c = cap[x.a];
                    long len = c.b < 0 ? 0 : c.e - c.b;
                    if (dir > 0 ? (n - pos < len) : (pos < len))
                        return false;
                    long at = dir > 0 ? pos : pos - len;
                    if ((steps += len / 16) > budget)
                        throw Budget{};
                    for (long i = 0; i < len; ++i)
                    {
                        feat |= F_BREF;
                        unsigned p = s[c.b + i], q = s[at + i];
                        if (p != q && !(icase && flip(p) == q))
                            return false;
                    }
                    return k(pos + dir * len);
                }
            }
            throw std::runtime_error("bad node");
        }

        void restore(std::vector<Cap> const &saved)
        {
            for (std::size_t i = 0; i < cap.size(); ++i)
                if (cap[i].b != saved[i].b || cap[i].e != saved[i].e)
                {
                    feat |= F_CAPROLL;
                    cap[i] = saved[i];
                }
        }

        bool repeat(Node const &x, long pos, int dir, K k)
        {
            if (x.a != 2)
            {
                bool greedy = (x.a == 0) != ungreedy;
                if (x.lo == x.hi)
                    return times(x.c[0], x.lo, pos, dir, k);
                auto rest = [&](long p) { return loop(x, greedy, x.lo, p, dir, k); };
                return times(x.c[0], x.lo, pos, dir, rest);
            }
            auto saved = cap;
            long cur = pos;
            {
                bool ok = false;
                auto fin = [&](long p) { cur = p; ok = true; return true; };
                if (!times(x.c[0], x.lo, pos, dir, fin))
                    return false;
                (void) ok;
            }
            for (long done = x.lo; x.hi < 0 || done < x.hi; ++done)
            {
                long e = first(x.c[0], cur, dir);
                if (e < 0)
                    break;
                if (x.hi < 0 && e == cur)
                {
                    feat |= F_EMPTYITER;
                    break;
                }
                cur = e;
            }
            feat |= F_ATOMIC;
            if (k(cur))
                return true;
            feat |= F_BACKTRACK;
            restore(saved);
            return false;
        }

        // ---- operations
        void start(std::string const &in, std::uint64_t bud)
        {
            s = (unsigned char const *) in.data();
            n = (long) in.size();
            steps = 0;
            budget = bud;
            feat = 0;
            look_depth = 0;
        }

        Res result(bool ok, long b, long e)
        {
            Res r;
            r.matched = ok;
            r.g.resize(ncap + 1, Span{-1, 0});
            if (ok)
            {
                feat |= F_MATCH;
                if (e > b)
                    feat |= F_NONEMPTY;
                r.g[0] = {b, e - b};
                for (int i = 1; i <= ncap; ++i)
                    if (cap[i].b >= 0)
                    {
                        r.g[i] = {cap[i].b, cap[i].e - cap[i].b};
                        if (r.g[i].len)
                            feat |= F_CAP;
                    }
            }
            else if (steps > 2)
                feat |= F_FAILED;
            return r;
        }

        Res match_at(long at, bool whole)
        {
            cap.assign(ncap + 1, Cap{});
            long e = -1;
            auto k = [&](long p) {
                if (whole && p != n)
                    return false;
                e = p;
                return true;
            };
            bool ok = m(root, at, +1, k);
            return result(ok, at, e);
        }

        Res search_from(long at)
        {
            for (;; ++at)
            {
                Res r = match_at(at, false);
                if (r.matched || at == n)
                    return r;
            }
        }

        std::vector<Res> iterate(bool anchored)
        {
            std::vector<Res> out;
            long at = 0;
            while (true)
            {
                Res r = anchored ? match_at(at, false) : search_from(at);
                if (!r.matched)
                    break;
                at = r.g[0].pos + r.g[0].len;
                bool empty = r.g[0].len == 0;
                out.push_back(std::move(r));
                if (empty)
                    break;
            }
            if (out.size() > 1)
                feat |= F_MULTI;
            return out;
        }

        std::vector<Res> run(int sem, std::string const &in, std::uint64_t bud)
        {
            start(in, bud);
            switch (sem)
            {
                case MATCH: return {match_at(0, true)};
                case PREFIX: return {match_at(0, false)};
                case SEARCH: return {search_from(0)};
                case TOKENS: return iterate(true);
                case FINDALL: return iterate(false);
            }
            return {};
        }
    };
}
#endif
