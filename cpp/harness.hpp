// Carriers: ways of performing an operation with the library, reduced to positions in the input.
// Only the public API of the library is used.
#ifndef VF_HARNESS_HPP
#define VF_HARNESS_HPP
#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>
#include <mregex.hpp>
#include "iface.hpp"

namespace vf
{
    // pos(it): offset of an iterator of the input
    template<class R, class Pos>
    Res convp(R const &r, Pos pos)
    {
        Res x;
        x.matched = r.matched();
        bool first = true;
        r.for_each_group([&](auto const &c) {
            long n = (long) c.length();
            x.g.push_back({n || (first && x.matched) ? (long) pos(c.begin()) : -1, n});
            first = false;
        });
        return x;
    }

    template<class R>
    Res conv(R const &r, char const *b)
    {
        return convp(r, [b](char const *p) { return p - b; });
    }

    inline bool same_res(Res const &a, Res const &b)
    {
        if (a.matched != b.matched || a.g.size() != b.g.size())
            return false;
        for (std::size_t i = 0; i < a.g.size(); ++i)
            if (a.g[i].len != b.g[i].len || a.g[i].pos != b.g[i].pos)
                return false;
        return true;
    }

    inline std::string text(Res const &x)
    {
        std::string r = x.matched ? "M" : "-";
        for (auto const &g : x.g)
            r += "(" + std::to_string(g.pos) + "+" + std::to_string(g.len) + ")";
        return r;
    }

    inline std::string text(std::vector<Res> const &v)
    {
        std::string r;
        for (auto const &x : v)
            r += text(x) + ";";
        return r;
    }

    // the three basic operations on pointers
    template<class R>
    void add_basic(Case &c)
    {
        c.add(MATCH, "ptr", [](Input const &i, Out &o) { o.rs.push_back(conv(R::match(i.b, i.b + i.n), i.b)); });
        c.add(PREFIX, "ptr", [](Input const &i, Out &o) { o.rs.push_back(conv(R::match_prefix(i.b, i.b + i.n), i.b)); });
        c.add(SEARCH, "ptr", [](Input const &i, Out &o) { o.rs.push_back(conv(R::search(i.b, i.b + i.n), i.b)); });
    }

    template<class R>
    void add_match_search(Case &c)
    {
        c.add(MATCH, "ptr", [](Input const &i, Out &o) { o.rs.push_back(conv(R::match(i.b, i.b + i.n), i.b)); });
        c.add(SEARCH, "ptr", [](Input const &i, Out &o) { o.rs.push_back(conv(R::search(i.b, i.b + i.n), i.b)); });
    }

    template<class R>
    void add_search(Case &c)
    {
        c.add(SEARCH, "ptr", [](Input const &i, Out &o) { o.rs.push_back(conv(R::search(i.b, i.b + i.n), i.b)); });
    }

    // the same on iterators that cannot do more than their category demands (0 forward, 1 bidirectional)
    template<int Cat>
    struct PlainIt
    {
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using reference = char const &;
        using pointer = char const *;
        using iterator_category = std::conditional_t<Cat == 0, std::forward_iterator_tag, std::bidirectional_iterator_tag>;
        char const *p = nullptr;

        reference operator*() const { return *p; }
        pointer operator->() const { return p; }
        PlainIt &operator++() { return ++p, *this; }
        PlainIt operator++(int) { return PlainIt{p++}; }
        PlainIt &operator--() requires (Cat >= 1) { return --p, *this; }
        PlainIt operator--(int) requires (Cat >= 1) { return PlainIt{p--}; }
        friend bool operator==(PlainIt a, PlainIt b) { return a.p == b.p; }
    };

    template<class R, int Cat>
    void add_other(Case &c)
    {
        static char const *const names[] = {"forward iterators", "bidirectional iterators", "reverse iterators"};
        if constexpr (Cat < 2)
        {
            using I = PlainIt<Cat>;
            c.add(MATCH, names[Cat], [](Input const &i, Out &o) { o.rs.push_back(convp(R::match(I{i.b}, I{i.b + i.n}), [&](I x) { return x.p - i.b; })); });
            c.add(SEARCH, names[Cat], [](Input const &i, Out &o) { o.rs.push_back(convp(R::search(I{i.b}, I{i.b + i.n}), [&](I x) { return x.p - i.b; })); });
        }
        else
        {
            c.add(MATCH, names[Cat], [](Input const &i, Out &o) {
                std::string const s(std::make_reverse_iterator(i.b + i.n), std::make_reverse_iterator(i.b));
                o.rs.push_back(convp(R::match(s.rbegin(), s.rend()), [&](auto x) { return x - s.rbegin(); }));
            });
            c.add(SEARCH, names[Cat], [](Input const &i, Out &o) {
                std::string const s(std::make_reverse_iterator(i.b + i.n), std::make_reverse_iterator(i.b));
                o.rs.push_back(convp(R::search(s.rbegin(), s.rend()), [&](auto x) { return x - s.rbegin(); }));
            });
        }
    }

    // operations on an object of an empty regex type (expression API)
    template<class R>
    void add_basic_of(Case &c, R)
    {
        add_basic<R>(c);
    }

    constexpr std::size_t too_many = 300000; // results of one iteration over one input

    template<class G, class Pos>
    std::vector<Res> drain(G &g, Pos pos, Out &o)
    {
        std::vector<Res> v;
        while (true)
        {
            auto r = g.next();
            if (!r)
                return v;
            v.push_back(convp(r, pos));
            if (v.size() > too_many)
            {
                o.fail("the generator does not stop yielding matches");
                return v;
            }
        }
    }

    // searcher/tokenizer: results until the first failure
    template<class R>
    void add_iter(Case &c)
    {
        c.add(FINDALL, "searcher", [](Input const &i, Out &o) {
            auto g = R::searcher(i.b, i.b + i.n);
            o.rs = drain(g, [&](char const *p) { return p - i.b; }, o);
        });
        c.add(TOKENS, "tokenizer", [](Input const &i, Out &o) {
            auto g = R::tokenizer(i.b, i.b + i.n);
            o.rs = drain(g, [&](char const *p) { return p - i.b; }, o);
        });
    }

    template<class R>
    void add_all(Case &c)
    {
        add_basic<R>(c);
        add_iter<R>(c);
    }
}
#endif
