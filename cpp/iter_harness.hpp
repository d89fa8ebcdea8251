// C12: iterators of every category, with every operation checked against the bounds of the input
#pragma once
#include "harness.hpp"
#include <compare>
#include <span>
#include <ranges>
#include <list>
#include <string>
#include <vector>
namespace vf
{
    struct Watch
    {
        char const *lo = nullptr, *hi = nullptr;
        char const *err = nullptr;
        std::uint64_t ops = 0;
        void bad(char const *e)
        {
            if (!err)
                err = e;
        }
    };
    inline thread_local Watch watch;

    template<int Cat>
    using tag_of = std::conditional_t<Cat == 0, std::forward_iterator_tag, std::conditional_t<Cat == 1, std::bidirectional_iterator_tag, std::random_access_iterator_tag>>;

    // a character by value: what the iterators of views like std::views::transform yield. Such iterators are forward, bidirectional or
    // random access iterators for the concepts of C++20, but input iterators by their iterator_category
    template<int Cat, bool ByValue>
    struct ItTypes
    {
        using reference = char const &;
        using iterator_category = tag_of<Cat>;
    };
    template<int Cat>
    struct ItTypes<Cat, true>
    {
        using reference = char;
        using iterator_concept = tag_of<Cat>;
        using iterator_category = std::input_iterator_tag;
    };

    // category: 0 forward, 1 bidirectional, 2 random access
    template<int Cat, bool ByValue = false>
    struct It : ItTypes<Cat, ByValue>
    {
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using reference = typename ItTypes<Cat, ByValue>::reference;
        using pointer = char const *;
        char const *p = nullptr;

        constexpr It() = default;
        constexpr explicit It(char const *q) : p{q} {}

        static inline char const nothing = 0;

        reference operator*() const
        {
            ++watch.ops;
            if (!p || p < watch.lo || p >= watch.hi)
            {
                watch.bad("an iterator outside of [begin, end) was dereferenced");
                return nothing;
            }
            return *p;
        }
        pointer operator->() const requires (!ByValue) { return &**this; }
        It &operator++()
        {
            ++watch.ops;
            if (!p || p >= watch.hi)
                watch.bad("an iterator was moved past the end");
            else
                ++p;
            return *this;
        }
        It operator++(int)
        {
            It t = *this;
            ++*this;
            return t;
        }
        It &operator--() requires (Cat >= 1)
        {
            ++watch.ops;
            if (!p || p <= watch.lo)
                watch.bad("an iterator was moved before the beginning");
            else
                --p;
            return *this;
        }
        It operator--(int) requires (Cat >= 1)
        {
            It t = *this;
            --*this;
            return t;
        }
        It &operator+=(difference_type n) requires (Cat >= 2)
        {
            ++watch.ops;
            if (!p ? n != 0 : (n > watch.hi - p || n < watch.lo - p))
                watch.bad("an iterator was moved out of [begin, end]");
            else
                p += n;
            return *this;
        }
        It &operator-=(difference_type n) requires (Cat >= 2) { return *this += -n; }
        friend It operator+(It a, difference_type n) requires (Cat >= 2) { return a += n; }
        friend It operator+(difference_type n, It a) requires (Cat >= 2) { return a += n; }
        friend It operator-(It a, difference_type n) requires (Cat >= 2) { return a -= n; }
        friend difference_type operator-(It a, It b) requires (Cat >= 2)
        {
            ++watch.ops;
            if (!a.p != !b.p)
                watch.bad("a singular iterator was compared with an iterator of the input");
            return a.p - b.p;
        }
        reference operator[](difference_type n) const requires (Cat >= 2) { return *(*this + n); }
        friend bool operator==(It a, It b)
        {
            ++watch.ops;
            if (!a.p != !b.p)
                watch.bad("a singular iterator was compared with an iterator of the input");
            return a.p == b.p;
        }
        friend std::strong_ordering operator<=>(It a, It b) requires (Cat >= 2)
        {
            ++watch.ops;
            if (!a.p != !b.p)
                watch.bad("a singular iterator was compared with an iterator of the input");
            return a.p <=> b.p;
        }
    };
    static_assert(std::forward_iterator<It<0>> && !std::bidirectional_iterator<It<0>>);
    static_assert(std::bidirectional_iterator<It<1>> && !std::random_access_iterator<It<1>>);
    static_assert(std::random_access_iterator<It<2>> && !std::contiguous_iterator<It<2>>);
    static_assert(std::forward_iterator<It<0, true>> && !std::bidirectional_iterator<It<0, true>>);
    static_assert(std::bidirectional_iterator<It<1, true>> && !std::random_access_iterator<It<1, true>>);
    static_assert(std::random_access_iterator<It<2, true>> && !std::contiguous_iterator<It<2, true>>);

    template<int Cat, bool V = false, class Fn>
    void checked(Input const &i, Out &o, Fn fn)
    {
        watch = Watch{i.b, i.b + i.n, nullptr, 0};
        It<Cat, V> b{i.b}, e{i.b + i.n};
        fn(b, e, [&](It<Cat, V> x) { return x.p - i.b; });
        o.work += watch.ops;
        if (watch.err)
            o.fail(watch.err);
    }

    template<class R, int Cat, bool V = false>
    void add_checked(Case &c)
    {
        static char const *names[] = {"checked forward iterators", "checked bidirectional iterators", "checked random access iterators",
                                      "checked forward iterators by value", "checked bidirectional iterators by value", "checked random access iterators by value"};
        c.add(MATCH, names[Cat + 3 * V], [](Input const &i, Out &o) {
            checked<Cat, V>(i, o, [&](auto b, auto e, auto pos) { o.rs.push_back(convp(R::match(b, e), pos)); });
        });
        c.add(SEARCH, names[Cat + 3 * V], [](Input const &i, Out &o) {
            checked<Cat, V>(i, o, [&](auto b, auto e, auto pos) { o.rs.push_back(convp(R::search(b, e), pos)); });
        });
        c.add(FINDALL, names[Cat + 3 * V], [](Input const &i, Out &o) {
            checked<Cat, V>(i, o, [&](auto b, auto e, auto pos) {
                auto g = R::searcher(b, e);
                o.rs = drain(g, pos, o);
            });
        });
        c.add(PREFIX, names[Cat + 3 * V], [](Input const &i, Out &o) {
            checked<Cat, V>(i, o, [&](auto b, auto e, auto pos) { o.rs.push_back(convp(R::match_prefix(b, e), pos)); });
        });
        c.add(TOKENS, names[Cat + 3 * V], [](Input const &i, Out &o) {
            checked<Cat, V>(i, o, [&](auto b, auto e, auto pos) {
                auto g = R::tokenizer(b, e);
                o.rs = drain(g, pos, o);
            });
        });
    }

    // a container or view holding the input; pairs of iterators and the overloads for ranges
    template<class R, class Make>
    void add_container(Case &c, char const *name, Make)
    {
        c.add(MATCH, name, [](Input const &i, Out &o) {
            auto const s = Make{}(i.b, i.n);
            auto pos = [&](auto p) { return std::distance(std::cbegin(s), p); };
            o.rs.push_back(convp(R::match(s), pos));
            if (o.rs[0].matched != R::match(std::cbegin(s), std::cend(s)).matched())
                o.fail("match(range) and match(begin, end) differ");
        });
        c.add(SEARCH, name, [](Input const &i, Out &o) {
            auto const s = Make{}(i.b, i.n);
            auto pos = [&](auto p) { return std::distance(std::cbegin(s), p); };
            o.rs.push_back(convp(R::search(s), pos));
        });
        c.add(PREFIX, name, [](Input const &i, Out &o) {
            auto const s = Make{}(i.b, i.n);
            auto pos = [&](auto p) { return std::distance(std::cbegin(s), p); };
            o.rs.push_back(convp(R::match_prefix(s), pos));
        });
        c.add(FINDALL, name, [](Input const &i, Out &o) {
            auto const s = Make{}(i.b, i.n);
            auto pos = [&](auto p) { return std::distance(std::cbegin(s), p); };
            auto g = R::searcher(s);
            o.rs = drain(g, pos, o);
        });
        c.add(TOKENS, name, [](Input const &i, Out &o) {
            auto const s = Make{}(i.b, i.n);
            auto pos = [&](auto p) { return std::distance(std::cbegin(s), p); };
            auto g = R::tokenizer(s);
            o.rs = drain(g, pos, o);
        });
        // the overloads for ranges that return ranges, and all of them for a container that is not const
        c.add(FINDALL, name, [](Input const &i, Out &o) {
            auto s = Make{}(i.b, i.n);
            auto pos = [&](auto p) { return std::distance(std::cbegin(s), p); };
            for (auto const &r : R::find_all(s))
                if (o.rs.push_back(convp(r, pos)); o.rs.size() > too_many)
                    return o.fail("find_all does not end");
        });
        c.add(TOKENS, name, [](Input const &i, Out &o) {
            auto s = Make{}(i.b, i.n);
            auto pos = [&](auto p) { return std::distance(std::cbegin(s), p); };
            for (auto const &r : R::tokenize(s))
                if (o.rs.push_back(convp(r, pos)); o.rs.size() > too_many)
                    return o.fail("tokenize does not end");
        });
        c.add(MATCH, name, [](Input const &i, Out &o) {
            auto s = Make{}(i.b, i.n);
            o.rs.push_back(convp(R::match(s), [&](auto p) { return std::distance(std::cbegin(s), p); }));
        });
        c.add(PREFIX, name, [](Input const &i, Out &o) {
            auto s = Make{}(i.b, i.n);
            o.rs.push_back(convp(R::match_prefix(s), [&](auto p) { return std::distance(std::cbegin(s), p); }));
        });
        c.add(SEARCH, name, [](Input const &i, Out &o) {
            auto s = Make{}(i.b, i.n);
            o.rs.push_back(convp(R::search(s), [&](auto p) { return std::distance(std::cbegin(s), p); }));
        });
    }

    // a view given by its iterators
    template<class R, class Make>
    void add_view(Case &c, char const *name, Make)
    {
        auto both = []<class Fn>(Input const &i, Out &, Fn fn) {
            std::string const s(i.b, i.n);
            Make{}(s, [&](auto &v) {
                auto b = v.begin();
                decltype(b) e = std::ranges::next(b, v.end());
                fn(b, e, [b](auto p) { return std::ranges::distance(b, p); });
            });
        };
        using B = decltype(both);
        c.add(MATCH, name, [](Input const &i, Out &o) { B{}(i, o, [&](auto b, auto e, auto pos) { o.rs.push_back(convp(R::match(b, e), pos)); }); });
        c.add(SEARCH, name, [](Input const &i, Out &o) { B{}(i, o, [&](auto b, auto e, auto pos) { o.rs.push_back(convp(R::search(b, e), pos)); }); });
        c.add(PREFIX, name, [](Input const &i, Out &o) { B{}(i, o, [&](auto b, auto e, auto pos) { o.rs.push_back(convp(R::match_prefix(b, e), pos)); }); });
        c.add(FINDALL, name, [](Input const &i, Out &o) {
            B{}(i, o, [&](auto b, auto e, auto pos) {
                auto g = R::searcher(b, e);
                o.rs = drain(g, pos, o);
            });
        });
        c.add(TOKENS, name, [](Input const &i, Out &o) {
            B{}(i, o, [&](auto b, auto e, auto pos) {
                auto g = R::tokenizer(b, e);
                o.rs = drain(g, pos, o);
            });
        });
    }

    struct ViewTransform
    {
        template<class Fn>
        void operator()(std::string const &s, Fn fn) const
        {
            auto v = s | std::views::transform([](char c) { return c; });
            fn(v);
        }
    };
    struct ViewFilter
    {
        template<class Fn>
        void operator()(std::string const &s, Fn fn) const
        {
            // every second character is left out by the filter
            std::vector<int> w;
            for (char c : s)
            {
                w.push_back(1000);
                w.push_back((unsigned char) c);
            }
            auto v = w | std::views::filter([](int c) { return c < 256; }) | std::views::transform([](int c) { return (char) c; });
            fn(v);
        }
    };
    struct ViewJoin
    {
        template<class Fn>
        void operator()(std::string const &s, Fn fn) const
        {
            std::vector<std::string> w;
            for (std::size_t k = 0, n = 1; k < s.size(); k += n, n = 1 + (n * 5 + k) % 3)
            {
                w.push_back(s.substr(k, n));
                if (k % 4 == 1)
                    w.push_back(""), w.push_back(""), w.push_back(""), w.push_back("");
            }
            auto v = w | std::views::join;
            fn(v);
        }
    };
    struct ViewReverse
    {
        template<class Fn>
        void operator()(std::string const &s, Fn fn) const
        {
            std::list<char> w(s.rbegin(), s.rend());
            auto v = w | std::views::reverse;
            fn(v);
        }
    };

    // strings that end with a null character: pointers and arrays. One operation per entry: the others may be too slow on this input
    template<int Op, class R, class S>
    std::vector<Res> operate(S &&s, char const *b, Out &o)
    {
        auto pos = [b](char const *p) { return p - b; };
        if constexpr (Op == MATCH)
            return {convp(R::match(s), pos)};
        else if constexpr (Op == PREFIX)
            return {convp(R::match_prefix(s), pos)};
        else if constexpr (Op == SEARCH)
            return {convp(R::search(s), pos)};
        else if constexpr (Op == FINDALL)
        {
            auto g = R::searcher(s);
            auto v = drain(g, pos, o);
            std::size_t k = 0;
            for (auto const &r : R::find_all(s))
                if (k >= v.size() || !same_res(convp(r, pos), v[k++]))
                {
                    o.fail("searcher and find_all differ");
                    break;
                }
            return v;
        }
        else
        {
            auto g = R::tokenizer(s);
            auto v = drain(g, pos, o);
            std::size_t k = 0;
            for (auto const &r : R::tokenize(s))
                if (k >= v.size() || !same_res(convp(r, pos), v[k++]))
                {
                    o.fail("tokenizer and tokenize differ");
                    break;
                }
            return v;
        }
    }

    template<int Op, class R>
    void add_cstring_op(Case &c)
    {
        c.add(Op, "char const *", [](Input const &i, Out &o) {
            std::string const s(i.b, i.n);
            if (s.find('\0') != s.npos)
                o.rs = operate<Op, R>(std::string_view(i.b, i.n), i.b, o); // not a string of that kind
            else
                o.rs = operate<Op, R>(s.c_str(), s.c_str(), o);
        });
        c.add(Op, "array with a null terminated string", [](Input const &i, Out &o) {
            char a[12] = {};
            if (i.n >= sizeof a || std::string_view(i.b, i.n).find('\0') != std::string_view::npos)
            {
                o.rs = operate<Op, R>(std::string_view(i.b, i.n), i.b, o);
                return;
            }
            std::copy(i.b, i.b + i.n, a);
            if (i.n % 2)
                o.rs = operate<Op, R>(a, a, o);
            else
                o.rs = operate<Op, R>(std::as_const(a), a, o);
        });
    }

    template<class R>
    void add_cstring(Case &c)
    {
        add_cstring_op<MATCH, R>(c);
        add_cstring_op<PREFIX, R>(c);
        add_cstring_op<SEARCH, R>(c);
        add_cstring_op<FINDALL, R>(c);
        add_cstring_op<TOKENS, R>(c);
    }

    template<class C>
    struct MakeC
    {
        C operator()(char const *b, std::size_t n) const { return C(b, b + n); }
    };
    struct MakeView
    {
        std::string_view operator()(char const *b, std::size_t n) const { return {b, n}; }
    };
    struct MakeSpan
    {
        std::span<char const> operator()(char const *b, std::size_t n) const { return {b, n}; }
    };
    // exactly sized heap block: out of bounds access is visible to address sanitizer
    struct Heap
    {
        std::unique_ptr<char[]> p;
        std::size_t n;
        char const *begin() const { return p.get(); }
        char const *end() const { return p.get() + n; }
    };
    struct MakeHeap
    {
        Heap operator()(char const *b, std::size_t n) const
        {
            Heap h{std::make_unique<char[]>(n), n};
            std::copy(b, b + n, h.p.get());
            return h;
        }
    };

    // the input read backwards from its mirror image
    template<class R, class C>
    void add_reverse(Case &c, char const *name)
    {
        c.add(MATCH, name, [](Input const &i, Out &o) {
            C s(i.b, i.b + i.n);
            std::reverse(s.begin(), s.end());
            auto b = s.rbegin(), e = s.rend();
            auto pos = [&](auto p) { return std::distance(b, p); };
            o.rs.push_back(convp(R::match(b, e), pos));
        });
        c.add(SEARCH, name, [](Input const &i, Out &o) {
            C s(i.b, i.b + i.n);
            std::reverse(s.begin(), s.end());
            auto b = s.rbegin(), e = s.rend();
            auto pos = [&](auto p) { return std::distance(b, p); };
            o.rs.push_back(convp(R::search(b, e), pos));
        });
        c.add(FINDALL, name, [](Input const &i, Out &o) {
            C s(i.b, i.b + i.n);
            std::reverse(s.begin(), s.end());
            auto b = s.rbegin(), e = s.rend();
            auto pos = [&](auto p) { return std::distance(b, p); };
            auto g = R::searcher(b, e);
            o.rs = drain(g, pos, o);
        });
    }

    // iterators that permit modification: the input must stay as it is
    template<class R>
    void add_mutable(Case &c)
    {
        c.add(SEARCH, "mutable string iterators", [](Input const &i, Out &o) {
            std::string s(i.b, i.n);
            auto b = s.begin();
            o.rs.push_back(convp(R::search(s.begin(), s.end()), [&](auto p) { return p - b; }));
            if (s != std::string_view(i.b, i.n))
                o.fail("the input was modified");
        });
        c.add(MATCH, "char *", [](Input const &i, Out &o) {
            std::string s(i.b, i.n);
            char *b = s.data();
            o.rs.push_back(convp(R::match(b, b + s.size()), [&](char *p) { return p - b; }));
            if (s != std::string_view(i.b, i.n))
                o.fail("the input was modified");
        });
    }
}
