// C14: ways of reading a result
#pragma once
#include "harness.hpp"
namespace vf
{
    inline std::string quote(std::string_view s)
    {
        std::string r = "'";
        for (unsigned char c : s)
        {
            char b[8];
            if (c < 32 || c > 126)
            {
                static char const *h = "0123456789abcdef";
                b[0] = '\\', b[1] = 'x', b[2] = h[c >> 4], b[3] = h[c & 15], b[4] = 0;
                r += b;
            }
            else
                r += (char) c;
        }
        return r + "'";
    }

    // not the range constructor: it fails for value-initialized std::list iterators with libstdc++
    template<class It>
    std::string spell(It b, It e)
    {
        std::string r;
        for (; b != e; ++b)
            r += (char) *b;
        return r;
    }

    // contents as they should be
    struct Truth
    {
        bool matched;
        std::vector<std::string> g;
    };

    struct Checker
    {
        Out &o;
        Truth const &t;
        char const *what;

        void same(std::size_t i, std::string_view got, char const *how)
        {
            if (o.err.empty() && (i >= t.g.size() || got != t.g[i]))
                o.fail(std::string(what) + ": group " + std::to_string(i) + " by " + how + " is " + quote(got) + " instead of " +
                       (i < t.g.size() ? quote(t.g[i]) : "nothing"));
        }
        void flag(bool got, bool want, char const *how)
        {
            if (got != want)
                o.fail(std::string(what) + ": " + how + " is " + (got ? "true" : "false"));
        }
        template<class Cap>
        void capture(std::size_t i, Cap const &c, char const *how)
        {
            std::string s;
            for (auto ch : c)
                s += (char) ch;
            same(i, s, how);
            same(i, spell(c.begin(), c.end()), "begin/end");
            {
                auto &&x = c.content();
                same(i, std::string(std::begin(x), std::end(x)), "content()");
            }
            if (c.length() != s.size())
                o.fail(std::string(what) + ": length() of group " + std::to_string(i) + " is " + std::to_string(c.length()));
            flag(c.is_empty(), s.empty(), "is_empty()");
            if constexpr (requires { c[0]; })
            {
                for (std::size_t k = 0; k < s.size(); ++k)
                    if (c[k] != s[k])
                        o.fail(std::string(what) + ": operator[] differs");
            }
            if constexpr (std::is_convertible_v<Cap const &, std::string_view>)
            {
                std::string_view v = c;
                same(i, v, "conversion to string_view");
            }
            std::ostringstream os;
            os << c;
            same(i, os.str(), "operator<<");
        }
        // also through the accessors of a modifiable and of an expiring group
        template<class Cap>
        void capture_mut(std::size_t i, Cap &c, char const *how)
        {
            capture(i, c, how);
            std::string s;
            for (auto &&ch : c)
                s += (char) ch;
            same(i, s, how);
            same(i, spell(c.begin(), c.end()), "begin/end of a modifiable group");
            if constexpr (requires { c[0]; })
            {
                for (std::size_t k = 0; k < s.size(); ++k)
                    if (c[k] != s[k])
                        o.fail(std::string(what) + ": operator[] of a modifiable group differs");
            }
            {
                auto &&x = c.content();
                same(i, std::string(std::begin(x), std::end(x)), "content() &");
            }
            {
                auto const d = c;
                std::string x(std::move(d).content());
                same(i, x, "content() const &&");
                capture(i, d, "group after content() const &&");
            }
            {
                auto d = c;
                std::string x(std::move(d).content());
                same(i, x, "content() &&");
            }
        }
    };

    template<class R, std::size_t... I>
    void all_groups(Checker &k, R const &r, std::index_sequence<I...>)
    {
        (k.capture(I, r.template group<I>(), "group<N>()"), ...);
        (k.capture(I, r.template get<I>(), "get<N>()"), ...);
        (k.capture(I, meta::get_group<I>(r), "get_group<N>"), ...);
    }

    template<class R, std::size_t... I>
    void all_groups_mut(Checker &k, R &r, std::index_sequence<I...>)
    {
        (k.capture_mut(I, r.template group<I>(), "group<N>() &"), ...);
        (k.capture_mut(I, r.template get<I>(), "get<N>() &"), ...);
        (k.capture_mut(I, meta::get_group<I>(r), "get_group<N> &"), ...);
    }

    template<class Named, class R>
    void read(Checker &k, R const &r)
    {
        constexpr std::size_t n = R::group_count;
        using idx = std::make_index_sequence<n>;
        if (n != k.t.g.size())
            k.o.fail(std::string(k.what) + ": group_count is " + std::to_string(n));
        if (std::tuple_size_v<R> != n)
            k.o.fail("tuple_size differs from group_count");
        k.flag(r.matched(), k.t.matched, "matched()");
        k.flag(static_cast<bool>(r), k.t.matched, "operator bool");
        k.flag(r == true, k.t.matched, "== true");
        k.flag(r == false, !k.t.matched, "== false");
        if (r.length() != k.t.g[0].size())
            k.o.fail(std::string(k.what) + ": length() is " + std::to_string(r.length()));
        k.same(0, spell(r.begin(), r.end()), "begin/end of the result");
        if constexpr (std::is_convertible_v<R const &, std::string_view>)
        {
            std::string_view v = r;
            k.same(0, v, "string_view conversion of the result");
        }
        std::ostringstream os;
        os << r;
        k.same(0, os.str(), "operator<< of the result");
        all_groups(k, r, idx{});
        std::size_t i = 0;
        r.for_each_group([&](auto const &c) { k.capture(i++, c, "for_each_group const &"); });
        if (i != n)
            k.o.fail("for_each_group visits " + std::to_string(i) + " groups");
        R copy = r;
        all_groups_mut(k, copy, idx{});
        i = 0;
        copy.for_each_group([&](auto &c) { k.capture_mut(i++, c, "for_each_group &"); });
        if (i != n)
            k.o.fail("for_each_group & visits " + std::to_string(i) + " groups");
        i = 0;
        R(r).for_each_group([&](auto &&c) { k.capture(i++, c, "for_each_group &&"); });
        if (i != n)
            k.o.fail("for_each_group && visits " + std::to_string(i) + " groups");
        i = 0;
        std::move(std::as_const(copy)).for_each_group([&](auto &&c) { k.capture(i++, c, "for_each_group const &&"); });
        if (i != n)
            k.o.fail("for_each_group const && visits " + std::to_string(i) + " groups");
        auto tup = r.transform_groups([](auto const &c) { return spell(c.begin(), c.end()); });
        static_assert(std::tuple_size_v<decltype(tup)> == n);
        [&]<std::size_t... I>(std::index_sequence<I...>) { (k.same(I, std::get<I>(tup), "transform_groups"), ...); }(idx{});
        Named::read(k, r);
        Named::bind(k, r);
        // moving
        R moved = std::move(copy);
        all_groups(k, moved, idx{});
        R assigned{};
        k.flag(assigned.matched(), false, "matched() of a default constructed result");
        assigned = moved;
        all_groups(k, assigned, idx{});
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            (k.capture(I, R(r).template group<I>(), "group<N>() &&"), ...);
            (k.capture(I, std::move(std::as_const(assigned)).template group<I>(), "group<N>() const &&"), ...);
            (k.capture(I, meta::get_group<I>(R(r)), "get_group<N> &&"), ...);
            (k.capture(I, meta::get_group<I>(std::move(std::as_const(assigned))), "get_group<N> const &&"), ...);
            (k.capture(I, R(r).template get<I>(), "get<N>() &&"), ...);
            (k.capture(I, std::move(std::as_const(assigned)).template get<I>(), "get<N>() const &&"), ...);
        }(idx{});
        // a group moved out of an expiring result keeps its content
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            ([&] {
                R tmp = r;
                auto g = std::move(tmp).template group<I>();
                k.capture_mut(I, g, "moved group");
                R tmp2 = r;
                auto h = std::move(tmp2).template get<I>();
                k.capture_mut(I, h, "group moved by get<N>()");
                // reading groups of an expiring result one after the other
                R tmp3 = r;
                (void) std::move(tmp3).template group<I>();
                all_groups(k, tmp3, idx{});
            }(), ...);
        }(idx{});
    }

    template<class Named, class R>
    void read_optional(Checker &k, R const &r)
    {
        using idx = std::make_index_sequence<R::group_count>;
        auto check = [&](auto &&opt) {
            k.flag(opt.has_value(), k.t.matched, "as_optional().has_value()");
            if (opt)
            {
                k.flag(opt->matched(), true, "matched() of the optional");
                all_groups(k, *opt, idx{});
                Named::read(k, *opt);
            }
        };
        R a = r;
        check(a.as_optional());
        check(std::as_const(a).as_optional());
        check(std::move(std::as_const(a)).as_optional());
        all_groups(k, a, idx{}); // not moved from
        check(std::move(a).as_optional());
    }

    // everything about the result of one operation; Op::call(args...)
    template<class Named, class Op>
    void results(Input const &i, Out &o, Op op)
    {
        Rng r{i.seed};
        auto buf = std::make_unique<std::string>(i.b, i.n);
        char const *b = buf->data(), *e = b + buf->size();
        auto view = op(b, e);
        o.rs.push_back(convp(view, [b](char const *p) { return p - b; }));
        Truth t;
        t.matched = o.rs[0].matched;
        for (auto const &s : o.rs[0].g)
            t.g.push_back(s.len > 0 ? std::string(b + s.pos, s.len) : std::string());
        Checker k{o, t, "view"};
        read<Named>(k, view);
        read_optional<Named>(k, view);
        k.what = "owning result";
        auto own = view.as_memory_owner();
        read<Named>(k, own);
        read_optional<Named>(k, own);
        // over iterators that are not contiguous
        k.what = "view of a deque";
        std::deque<char> d(buf->begin(), buf->end());
        auto dview = op(d.cbegin(), d.cend());
        auto down = dview.as_memory_owner();
        if (r.chance(20))
            read<Named>(k, dview);
        // the owning results do not depend on the input
        k.what = "owning result after the input was overwritten";
        std::fill(buf->begin(), buf->end(), '#');
        std::fill(d.begin(), d.end(), '#');
        read<Named>(k, own);
        buf.reset();
        d.clear();
        d.shrink_to_fit();
        k.what = "owning result after the input was destroyed";
        auto own2 = own;
        read<Named>(k, own2);
        k.what = "owning result of a deque after the input was destroyed";
        read<Named>(k, down);
        // changing an owning result changes neither its copies nor other groups
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            ((own2.template group<I>().content() += "changed"), ...);
        }(std::make_index_sequence<decltype(own2)::group_count>{});
        k.what = "original of a modified owning copy";
        read<Named>(k, own);
    }

    // overloads that take expiring ranges own their content
    template<class Named, class Op>
    void expiring(Input const &i, Out &o, Op op, Truth const &t)
    {
        Checker k{o, t, "result for an expiring string"};
        {
            auto s = std::make_unique<std::string>(i.b, i.n);
            auto r = op(std::move(*s));
            static_assert(!decltype(r)::is_view);
            s->assign(i.n + 40, '#');
            s.reset();
            read<Named>(k, r);
        }
        k.what = "result for a temporary string";
        {
            auto r = op(std::string(i.b, i.n));
            static_assert(!decltype(r)::is_view);
            read<Named>(k, r);
        }
        k.what = "result for a temporary vector";
        {
            auto r = op(std::vector<char>(i.b, i.b + i.n));
            static_assert(!decltype(r)::is_view);
            read<Named>(k, r);
        }
        k.what = "result for a temporary list";
        {
            auto r = op(std::list<char>(i.b, i.b + i.n));
            static_assert(!decltype(r)::is_view);
            read<Named>(k, r);
        }
        k.what = "view of a list";
        {
            std::list<char> l(i.b, i.b + i.n);
            auto r = op(l);
            static_assert(decltype(r)::is_view);
            read<Named>(k, r);
            auto own = r.as_memory_owner();
            std::fill(l.begin(), l.end(), '#');
            k.what = "owning result of a list";
            all_groups(k, own, std::make_index_sequence<decltype(own)::group_count>{});
        }
        k.what = "result for a string view";
        {
            auto r = op(std::string_view(i.b, i.n));
            static_assert(decltype(r)::is_view);
            read<Named>(k, r);
        }
        k.what = "result for a string";
        {
            std::string s(i.b, i.n);
            auto r = op(s);
            static_assert(decltype(r)::is_view);
            read<Named>(k, r);
            std::string const &cs = s;
            auto q = op(cs);
            static_assert(decltype(q)::is_view);
            read<Named>(k, q);
        }
    }
}
