// C11: histories of generators and ranges
#pragma once
#include "harness.hpp"
namespace vf
{
    // what a fresh generator yields, then `more` further calls
    template<class G>
    void history(Input const &i, Out &o, G fresh, std::vector<Res> const &seq)
    {
        Rng r{i.seed};
        auto pos = [&](char const *p) { return p - i.b; };
        Res none;
        none.matched = false;
        struct Slot
        {
            G g;
            std::size_t at;   // how many calls so far
        };
        std::vector<Slot> v;
        v.push_back({fresh, 0});
        bool const last_empty = !seq.empty() && seq.back().g[0].len == 0;
        std::string log;
        std::size_t steps = 4 + r.below(3 * seq.size() + 12);
        if (steps > 60)
            steps = 60;
        for (std::size_t s = 0; s < steps && o.err.empty(); ++s)
        {
            std::size_t k = r.below(v.size());
            auto expect_active = [&](Slot const &x) {
                if (x.at > seq.size())
                    return false;             // a failure was reported
                if (x.at == seq.size() && last_empty && x.at > 0)
                    return false;             // the empty match was reported
                return true;
            };
            switch (r.below(v.size() < 5 ? 7 : 6))
            {
                case 0: case 1: case 2: case 3:
                {
                    bool call = r.chance(30);
                    log += std::string(call ? "call" : "next") + std::to_string(k) + " ";
                    auto res = call ? v[k].g() : v[k].g.next();
                    Res got = convp(res, pos);
                    bool should = v[k].at < seq.size();
                    if (got.matched != should)
                        o.fail("call " + std::to_string(v[k].at + 1) + (should ? " should match" : " should not match") + " after: " + log);
                    else if (should && !same_res(got, seq[v[k].at]))
                        o.fail("call " + std::to_string(v[k].at + 1) + " yields " + text(got) + " instead of " + text(seq[v[k].at]) + " after: " + log);
                    else if (!should)
                        for (auto const &g : got.g)
                            if (g.len)
                                o.fail("a failed call has a non-empty group after: " + log);
                    ++v[k].at;
                    if (v[k].g.active() != expect_active(v[k]))
                        o.fail(std::string("active() is ") + (v[k].g.active() ? "true" : "false") + " after: " + log);
                    break;
                }
                case 4:
                    log += "active" + std::to_string(k) + " ";
                    if (v[k].g.active() != expect_active(v[k]))
                        o.fail(std::string("active() is ") + (v[k].g.active() ? "true" : "false") + " after: " + log);
                    break;
                case 5:
                {
                    std::size_t j = r.below(v.size());
                    log += "assign" + std::to_string(k) + "=" + std::to_string(j) + " ";
                    if (r.chance(50))
                        v[k] = v[j];
                    else
                    {
                        Slot t = v[j];
                        v[k] = std::move(t);
                    }
                    break;
                }
                case 6:
                    log += "copy" + std::to_string(k) + " ";
                    if (r.chance(25))
                        v.push_back({fresh, 0});
                    else
                        v.push_back(Slot(v[k]));
                    break;
            }
        }
    }

    // V: which two of the six ways of iterating
    template<int V, class Range, class Pos>
    std::vector<Res> walk_range(Range range, Pos pos, Rng r, Out &o)
    {
        std::vector<Res> v;
        auto over = [&] {
            if (v.size() > too_many)
                o.fail("the range does not end");
            return v.size() > too_many;
        };
        bool first = r.chance(50);
        if constexpr (V == 0)
        {
            if (first)
                for (auto &&m : range)
                {
                    v.push_back(convp(m, pos));
                    if (over())
                        break;
                }
            else
                for (auto it = range.begin(); it != range.end() && !over(); ++it)
                    v.push_back(convp(*it, pos));
        }
        if constexpr (V == 1)
        {
            if (first)
                for (auto it = range.begin(); it != range.end() && !over();)
                    v.push_back(convp(*it++, pos));
            else
                for (auto it = range.begin(); it != range.end() && !over();)
                {
                    // several iterators and repeated reading of the same position
                    auto it2 = range.begin();
                    Res a = convp(*it, pos), b = convp(*it2, pos);
                    if (!same_res(a, b))
                        o.fail("two iterators at the same position show different results");
                    if (it->matched() != true)
                        o.fail("the range holds a failed match");
                    v.push_back(a);
                    if (r.chance(50))
                        ++it;
                    else
                        it++;
                }
        }
        if constexpr (V == 2)
        {
            if (first)
                std::ranges::for_each(range, [&](auto const &m) {
                    if (!over())
                        v.push_back(convp(m, pos));
                });
            else
            {
                for (auto it = range.begin(); it && !over(); ++it)
                    v.push_back(convp(*it, pos));
                if (range.begin() != range.end())
                    o.fail("the range is not at its end after iteration");
            }
        }
        return v;
    }

    template<class R, int V>
    void add_gen(Case &c)
    {
        add_iter<R>(c);
        c.add(FINDALL, "find_all", [](Input const &i, Out &o) {
            o.rs = walk_range<V>(R::find_all(i.b, i.b + i.n), [&](char const *p) { return p - i.b; }, Rng{i.seed}, o);
        });
        c.add(TOKENS, "tokenize", [](Input const &i, Out &o) {
            o.rs = walk_range<V>(R::tokenize(i.b, i.b + i.n), [&](char const *p) { return p - i.b; }, Rng{i.seed}, o);
        });
        c.add(SELF, "searcher history", [](Input const &i, Out &o) {
            auto g = R::searcher(i.b, i.b + i.n), h = g;
            auto seq = drain(g, [&](char const *p) { return p - i.b; }, o);
            if (o.err.empty())
                history(i, o, h, seq);
        });
        c.add(SELF, "tokenizer history", [](Input const &i, Out &o) {
            auto g = R::tokenizer(i.b, i.b + i.n), h = g;
            auto seq = drain(g, [&](char const *p) { return p - i.b; }, o);
            if (o.err.empty())
                history(i, o, h, seq);
        });
    }

    // overloads for ranges
    template<class R, int V>
    void add_gen_ranges(Case &c)
    {
        c.add(FINDALL, "searcher(string_view)", [](Input const &i, Out &o) {
            std::string_view s(i.b, i.n);
            auto g = R::searcher(s);
            o.rs = drain(g, [&](auto p) { return p - s.begin(); }, o);
        });
        c.add(TOKENS, "tokenizer(string)", [](Input const &i, Out &o) {
            std::string const s(i.b, i.n);
            auto g = R::tokenizer(s);
            o.rs = drain(g, [&](auto p) { return p - s.begin(); }, o);
        });
        c.add(FINDALL, "find_all(vector)", [](Input const &i, Out &o) {
            std::vector<char> const s(i.b, i.b + i.n);
            o.rs = walk_range<V>(R::find_all(s), [&](auto p) { return p - s.begin(); }, Rng{i.seed}, o);
        });
        c.add(TOKENS, "tokenize(string_view)", [](Input const &i, Out &o) {
            std::string_view s(i.b, i.n);
            o.rs = walk_range<V>(R::tokenize(s), [&](auto p) { return p - s.begin(); }, Rng{i.seed}, o);
        });
        c.add(FINDALL, "find_all(string)", [](Input const &i, Out &o) {
            std::string const s(i.b, i.n);
            o.rs = walk_range<V>(R::find_all(s), [&](auto p) { return p - s.begin(); }, Rng{i.seed}, o);
        });
        c.add(TOKENS, "tokenize(vector)", [](Input const &i, Out &o) {
            std::vector<char> const s(i.b, i.b + i.n);
            o.rs = walk_range<V>(R::tokenize(s), [&](auto p) { return p - s.begin(); }, Rng{i.seed}, o);
        });
    }
}
