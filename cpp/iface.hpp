// Interface between generated pattern units and the driver.
#ifndef VF_IFACE_HPP
#define VF_IFACE_HPP
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vf
{
    // semantic operations
    enum Sem { MATCH = 0, PREFIX = 1, SEARCH = 2, TOKENS = 3, FINDALL = 4, SELF = 5 };

    // pos: offset of the first byte relative to the input (-1 if the extent is empty and has no known position)
    struct Span
    {
        long pos, len;
    };

    struct Res
    {
        bool matched = false;
        std::vector<Span> g; // g[0] = whole match
    };

    struct Out
    {
        std::vector<Res> rs;
        std::string err;          // a carrier found something inconsistent by itself
        std::uint64_t work = 0;   // optional measure (iterator operations)
        std::function<std::vector<Res>()> held; // reads the result objects again
        void fail(std::string const &e)
        {
            if (err.empty())
                err = e;
        }
    };

    struct Input
    {
        char const *b;
        std::size_t n;
        std::uint64_t seed;       // for carriers that make choices of their own
        std::uint64_t steps;      // what the model needed
    };

    using Fn = void (*)(Input const &, Out &);

    struct Entry
    {
        int sem;
        char const *carrier;
        Fn fn;
        char const *fixed;        // if set, this entry is only meaningful for this input
        std::size_t fixed_n;
    };

    struct Case
    {
        int id = 0;
        std::vector<Entry> entries;
        void add(int sem, char const *carrier, Fn fn) { entries.push_back({sem, carrier, fn, nullptr, 0}); }
        void add_fixed(int sem, char const *carrier, Fn fn, char const *s, std::size_t n) { entries.push_back({sem, carrier, fn, s, n}); }
    };

    struct Reg
    {
        int id;
        void (*make)(Case &);
    };

    extern Reg const *const regs;
    extern int const nregs;

    struct Rng
    {
        std::uint64_t s;
        std::uint64_t next()
        {
            std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }
        std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
        bool chance(unsigned pct) { return below(100) < pct; }
    };
}
#endif
