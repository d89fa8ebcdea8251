// C13: results computed in constant expressions
#pragma once
#include "harness.hpp"
namespace vf
{
    // results of a generator reduced to positions; plain arrays because gcc 13 fails on aggregates of results
    template<std::size_t Groups>
    struct Collected
    {
        static constexpr std::size_t groups = Groups;
        std::size_t n = 0;
        long pos[32 * Groups] = {};
        long len[32 * Groups] = {};
    };

    template<class G>
    constexpr auto collect(G g, char const *b)
    {
        using result = decltype(g.next());
        Collected<result::group_count> c;
        while (c.n < 32)
        {
            auto r = g.next();
            if (!r)
                break;
            std::size_t k = c.n++ * result::group_count;
            bool first = true;
            r.for_each_group([&](auto const &x) {
                c.len[k] = (long) x.length();
                c.pos[k] = c.len[k] || first ? x.begin() - b : -1;
                first = false;
                ++k;
            });
        }
        return c;
    }

    template<class C>
    void emit(C const &c, Out &o)
    {
        for (std::size_t i = 0; i < c.n; ++i)
        {
            Res x;
            x.matched = true;
            for (std::size_t g = 0; g < C::groups; ++g)
                x.g.push_back({c.pos[i * C::groups + g], c.len[i * C::groups + g]});
            o.rs.push_back(x);
        }
    }

    // iterators of the weaker categories that are usable in constant expressions
    template<class Tag>
    struct CIter
    {
        using iterator_category = Tag;
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using pointer = char const *;
        using reference = char const &;
        char const *p = nullptr;
        constexpr reference operator*() const { return *p; }
        constexpr CIter &operator++() { ++p; return *this; }
        constexpr CIter operator++(int) { auto c = *this; ++p; return c; }
        constexpr CIter &operator--() requires std::is_same_v<Tag, std::bidirectional_iterator_tag> { --p; return *this; }
        constexpr CIter operator--(int) requires std::is_same_v<Tag, std::bidirectional_iterator_tag> { auto c = *this; --p; return c; }
        constexpr bool operator==(CIter const &) const = default;
    };

    // one result reduced to positions
    template<std::size_t Groups>
    struct Fixed
    {
        static constexpr std::size_t groups = Groups;
        bool matched = false, consistent = true;
        long pos[Groups] = {};
        long len[Groups] = {};
    };

    template<class C>
    void emit_fixed(C const &c, Out &o)
    {
        Res x;
        x.matched = c.matched;
        for (std::size_t g = 0; g < C::groups; ++g)
            x.g.push_back({c.pos[g], c.len[g]});
        o.rs.push_back(x);
        if (!c.consistent)
            o.fail("accessors of the result disagree in a constant expression");
    }

    template<class Result, class Pos>
    constexpr auto fix(Result const &r, Pos pos)
    {
        Fixed<Result::group_count> f;
        f.matched = r.matched();
        std::size_t k = 0;
        r.for_each_group([&](auto const &x) {
            f.len[k] = (long) x.length();
            f.pos[k] = f.len[k] || (k == 0 && f.matched) ? (long) pos(x.begin()) : -1;
            ++k;
        });
        return f;
    }

    template<class R, int Sem, class... A>
    constexpr auto operate(A &&...a)
    {
        if constexpr (Sem == MATCH)
            return R::match(std::forward<A>(a)...);
        else if constexpr (Sem == PREFIX)
            return R::match_prefix(std::forward<A>(a)...);
        else
            return R::search(std::forward<A>(a)...);
    }

    template<class R, int Sem, class Tag>
    constexpr auto through_iterators(char const *s, std::size_t n)
    {
        return fix(operate<R, Sem>(CIter<Tag>{s}, CIter<Tag>{s + n}), [s](CIter<Tag> i) { return i.p - s; });
    }

    template<class R, int Sem, class C>
    constexpr auto through_container(char const *s, std::size_t n)
    {
        C c(s, s + n);
        return fix(operate<R, Sem>(c), [&](auto i) { return i - c.cbegin(); });
    }

    // the accessors of one result, in a constant expression
    template<class R, int Sem>
    constexpr auto accessors(char const *s, std::size_t n)
    {
        auto r = operate<R, Sem>(s, s + n);
        auto f = fix(r, [s](char const *p) { return p - s; });
        constexpr std::size_t groups = decltype(r)::group_count;
        auto at = [&](std::size_t k) { return f.len[k] > 0 ? std::string_view(s + f.pos[k], (std::size_t) f.len[k]) : std::string_view(); };
        bool ok = static_cast<bool>(r) == f.matched && (r == true) == f.matched && (long) r.length() == f.len[0] && (long) (r.end() - r.begin()) == f.len[0] && std::string_view(r) == at(0);
        auto texts = r.transform_groups([](auto const &x) { return x.content(); });
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            ((ok = ok && std::get<I>(texts) == at(I) && r.template group<I>().content() == at(I) && std::string_view(r.template get<I>()) == at(I)
                   && (long) meta::get_group<I>(r).length() == f.len[I] && r.template group<I>().is_empty() == (f.len[I] == 0)), ...);
        }(std::make_index_sequence<groups>{});
        auto opt = r.as_optional();
        ok = ok && opt.has_value() == f.matched;
        if (opt)
            ok = ok && std::string_view(*opt) == at(0) && opt->matched();
        std::size_t visited = 0;
        r.for_each_group([&](auto &x) { ok = ok && x.content() == at(visited++); });
        f.consistent = ok && visited == groups;
        return f;
    }

    // find_all() and tokenize() as ranges
    template<class Range>
    constexpr auto collect_range(Range range, char const *b)
    {
        using result = typename Range::value_type;
        Collected<result::group_count> c;
        for (auto const &r : range)
        {
            if (c.n == 32)
                break;
            std::size_t k = c.n++ * result::group_count;
            bool first = true;
            r.for_each_group([&](auto const &x) {
                c.len[k] = (long) x.length();
                c.pos[k] = c.len[k] || first ? x.begin() - b : -1;
                first = false;
                ++k;
            });
        }
        return c;
    }

    // verdicts for every single byte, and for all pairs of bytes of a small alphabet
    template<class R>
    struct ByteTable
    {
        bool match[256] = {}, search[256] = {};
    };

    template<class R>
    constexpr auto byte_table()
    {
        ByteTable<R> t;
        for (int i = 0; i < 256; ++i)
        {
            char c = static_cast<char>(i);
            t.match[i] = R::match(&c, &c + 1).matched();
            t.search[i] = R::search(&c, &c + 1).matched();
        }
        return t;
    }

    template<class R, std::size_t N>
    struct PairTable
    {
        bool matched[N * N] = {};
        long pos[N * N] = {}, len[N * N] = {};
    };

    template<class R, std::size_t N>
    constexpr auto pair_table(char const (&alpha)[N])
    {
        PairTable<R, N> t;
        for (std::size_t i = 0; i < N; ++i)
            for (std::size_t j = 0; j < N; ++j)
            {
                char s[2] = {alpha[i], alpha[j]};
                auto r = R::search(s, s + 2);
                t.matched[i * N + j] = r.matched();
                t.len[i * N + j] = (long) r.length();
                t.pos[i * N + j] = r.matched() ? r.begin() - s : -1;
            }
        return t;
    }

    // verdict from the table and extent at run time; both are compared with the model
    template<class R, class Table>
    void from_bytes(bool const (Table::*member)[256], Table const &t, Input const &i, Out &o, Res run)
    {
        if (i.n == 1 && (t.*member)[(unsigned char) *i.b] != run.matched)
            o.fail("constant expression: " + std::string(run.matched ? "no match" : "match") + " on byte " + std::to_string((unsigned char) *i.b) + ", run time: the opposite");
        o.rs.push_back(run);
    }

    template<class R, class Table, std::size_t N>
    void from_pairs(Table const &t, char const (&alpha)[N], Input const &i, Out &o, Res run)
    {
        o.rs.push_back(run);
        if (i.n != 2)
            return;
        auto at = [&](char c) { return (std::size_t) (std::find(alpha, alpha + N, c) - alpha); };
        std::size_t a = at(i.b[0]), b = at(i.b[1]);
        if (a == N || b == N)
            return;
        std::size_t k = a * N + b;
        if (t.matched[k] != run.matched || (run.matched && (t.pos[k] != run.g[0].pos || t.len[k] != run.g[0].len)))
            o.fail("constant expression: " + std::string(t.matched[k] ? "match at " + std::to_string(t.pos[k]) + "+" + std::to_string(t.len[k]) : "no match") + ", run time: " + text(run));
    }
}
