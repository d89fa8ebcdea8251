// C18: operations whose results are kept and read again later
#pragma once
#include "harness.hpp"
namespace vf
{
    template<class R>
    void add_pure(Case &c)
    {
        c.add(MATCH, "match", [](Input const &i, Out &o) {
            auto r = R::match(i.b, i.b + i.n);
            o.rs.push_back(conv(r, i.b));
            o.held = [r, b = i.b] { return std::vector<Res>{conv(r, b)}; };
        });
        c.add(PREFIX, "match_prefix", [](Input const &i, Out &o) {
            auto r = R::match_prefix(i.b, i.b + i.n);
            o.rs.push_back(conv(r, i.b));
            o.held = [r, b = i.b] { return std::vector<Res>{conv(r, b)}; };
        });
        c.add(SEARCH, "search", [](Input const &i, Out &o) {
            auto r = R::search(i.b, i.b + i.n);
            o.rs.push_back(conv(r, i.b));
            o.held = [r, b = i.b] { return std::vector<Res>{conv(r, b)}; };
        });
        c.add(SEARCH, "search, owned", [](Input const &i, Out &o) {
            auto r = R::search(i.b, i.b + i.n);
            o.rs.push_back(conv(r, i.b));
            auto own = r.as_memory_owner();
            auto rs = o.rs;
            o.held = [own, b = i.b, rs] {
                auto x = rs;
                std::size_t k = 0;
                own.for_each_group([&](auto const &g) {
                    auto const &s = rs[0].g[k];
                    if (std::string(g.begin(), g.end()) != (s.len > 0 ? std::string(b + s.pos, s.len) : std::string()))
                        x[0].g[k] = Span{-7, -7};
                    ++k;
                });
                return x;
            };
        });
        c.add(FINDALL, "find_all, kept", [](Input const &i, Out &o) {
            auto g = R::searcher(i.b, i.b + i.n);
            std::vector<decltype(g.next())> kept;
            while (true)
            {
                auto r = g.next();
                if (!r || kept.size() > too_many)
                    break;
                kept.push_back(r);
            }
            for (auto const &r : kept)
                o.rs.push_back(conv(r, i.b));
            if (kept.size() < 16)
                o.held = [kept, b = i.b] {
                    std::vector<Res> v;
                    for (auto const &r : kept)
                        v.push_back(conv(r, b));
                    return v;
                };
        });
        c.add(SELF, "interleaved generators", [](Input const &i, Out &o) {
            Rng r{i.seed};
            std::string other(i.b, i.n);
            if (!other.empty())
                std::rotate(other.begin(), other.begin() + r.below(other.size()), other.end());
            char const *ob = other.data(), *oe = ob + other.size();
            auto pa = [&](char const *p) { return p - i.b; };
            auto pb = [&](char const *p) { return p - ob; };
            std::vector<Res> want[4];
            auto a = R::searcher(i.b, i.b + i.n), b = R::searcher(ob, oe);
            auto c = R::tokenizer(i.b, i.b + i.n), d = R::tokenizer(ob, oe);
            {
                auto x = a, y = b;
                auto z = c, w = d;
                want[0] = drain(x, pa, o);
                want[1] = drain(y, pb, o);
                want[2] = drain(z, pa, o);
                want[3] = drain(w, pb, o);
            }
            std::vector<Res> got[4];
            bool live[4] = {true, true, true, true};
            std::size_t guard = 0;
            while ((live[0] || live[1] || live[2] || live[3]) && ++guard < 4 * too_many)
            {
                std::size_t k = r.below(4);
                auto step = [&](auto &g, auto pos) {
                    auto x = g.next();
                    if (x)
                        got[k].push_back(convp(x, pos));
                    else
                        live[k] = false;
                };
                if (k == 0) step(a, pa);
                if (k == 1) step(b, pb);
                if (k == 2) step(c, pa);
                if (k == 3) step(d, pb);
            }
            for (int k = 0; k < 4; ++k)
                if (text(want[k]) != text(got[k]))
                    o.fail("interleaved with others, a generator yields " + text(got[k]) + " instead of " + text(want[k]));
        });
    }
}
