// Runs the cases of one generated unit: makes inputs, evaluates the reference model and every registered
// way of performing the operation, compares, and reports.
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <unordered_set>
#include "model.hpp"

using namespace vf;

namespace
{
    struct State // shared with the python side through a file, survives a crash
    {
        volatile std::int64_t id, entry, n, op, hang;
        char subject[1 << 18];
    };
    State *state;
    char *arena; // one page block between two inaccessible pages
    constexpr std::size_t arena_size = 1 << 18;

    int hang_ticks = 0;
    std::int64_t last_op = -1;
    int hang_limit = 20;

    void tick(int)
    {
        if (state->op == last_op && state->entry >= 0)
        {
            if (++hang_ticks >= hang_limit)
            {
                state->hang = 1;
                _exit(88);
            }
        }
        else
        {
            hang_ticks = 0;
            last_op = state->op;
        }
    }

    std::string hex(std::string const &s)
    {
        static char const *d = "0123456789abcdef";
        std::string r;
        for (unsigned char c : s)
        {
            r += d[c >> 4];
            r += d[c & 15];
        }
        return r.empty() ? "-" : r;
    }

    std::string unhex(std::string const &h)
    {
        std::string r;
        if (h == "-")
            return r;
        auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
        for (std::size_t i = 0; i + 1 < h.size(); i += 2)
            r += (char) (v(h[i]) * 16 + v(h[i + 1]));
        return r;
    }

    std::string show(std::vector<Res> const &rs)
    {
        std::string r;
        for (auto const &x : rs)
        {
            r += x.matched ? "M" : "-";
            for (auto const &g : x.g)
                r += g.len ? "(" + std::to_string(g.pos) + "+" + std::to_string(g.len) + ")" : (&g == &x.g[0] && x.matched ? "(" + std::to_string(g.pos) + "+0)" : "()");
            r += ";";
        }
        return r.empty() ? "none" : r;
    }

    bool same(std::vector<Res> const &want, std::vector<Res> const &got)
    {
        if (want.size() != got.size())
            return false;
        for (std::size_t i = 0; i < want.size(); ++i)
        {
            auto const &w = want[i], &g = got[i];
            if (w.matched != g.matched || w.g.size() != g.g.size())
                return false;
            for (std::size_t j = 0; j < w.g.size(); ++j)
            {
                if (w.g[j].len != g.g[j].len)
                    return false;
                bool positioned = w.g[j].len > 0 || (j == 0 && w.matched);
                if (positioned && g.g[j].pos >= 0 && w.g[j].pos != g.g[j].pos)
                    return false;
            }
        }
        return true;
    }

    // ---- inputs
    struct Sampler
    {
        Model const &m;
        Rng &r;
        std::string const &big;
        int maxlen;
        std::vector<std::string> caps;
        std::string out;

        char member(Node const &x)
        {
            for (int i = 0; i < 40; ++i)
            {
                unsigned char c = r.chance(75) && !big.empty() ? (unsigned char) big[r.below(big.size())] : (unsigned char) r.below(256);
                if (m.accepts(x, c))
                    return (char) c;
            }
            for (unsigned c = 0; c < 256; ++c)
                if (m.accepts(x, c))
                    return (char) c;
            return 'a';
        }

        void go(int id)
        {
            if ((int) out.size() > maxlen)
                return;
            Node const &x = m.nodes[id];
            switch (x.k)
            {
                case 1: case 2: out += member(x); break;
                case 3:
                    if (r.chance(15))
                        out += x.a >= 4 ? ' ' : '\n';
                    break;
                case 4: for (int c : x.c) go(c); break;
                case 5: go(x.c[r.below(x.c.size())]); break;
                case 6:
                {
                    std::size_t b = out.size();
                    go(x.c[0]);
                    caps[x.a] = out.substr(b);
                    break;
                }
                case 7: go(x.c[0]); break;
                case 8:
                {
                    long lo = x.lo, hi = x.hi < 0 ? x.lo + 4 : x.hi;
                    long t = r.below(8), cnt;
                    if (t == 0) cnt = lo;
                    else if (t == 1) cnt = hi;
                    else if (t == 2) cnt = hi + 1;
                    else if (t == 3) cnt = lo ? lo - 1 : 0;
                    else cnt = lo + (long) r.below(hi - lo + 1);
                    if (x.hi < 0 && r.chance(10))
                        cnt += r.below(12);
                    for (long i = 0; i < cnt && (int) out.size() <= maxlen; ++i)
                        go(x.c[0]);
                    break;
                }
                case 9:
                    if (!x.neg ? r.chance(60) : r.chance(25))
                    {
                        std::size_t b = out.size();
                        go(x.c[0]);
                        if (x.a && r.chance(50))
                            out.resize(b + (out.size() > b ? r.below(out.size() - b + 1) : 0));
                    }
                    break;
                case 10:
                    if (m.icase && r.chance(50))
                    {
                        for (unsigned char c : caps[x.a])
                            out += (char) (r.chance(50) ? Model::flip(c) : c);
                    }
                    else
                        out += caps[x.a];
                    break;
            }
        }

        std::string sample()
        {
            caps.assign(m.ncap + 1, "");
            out.clear();
            go(m.root);
            return out;
        }

        std::string junk(std::size_t n)
        {
            std::string s;
            for (std::size_t i = 0; i < n; ++i)
                s += big[r.below(big.size())];
            return s;
        }

        std::string mutate(std::string s)
        {
            int k = (int) r.below(4);
            for (int i = 0; i < k; ++i)
            {
                switch (r.below(7))
                {
                    case 0: if (!s.empty()) s.erase(r.below(s.size()), 1); break;
                    case 1: s.insert(s.begin() + r.below(s.size() + 1), big[r.below(big.size())]); break;
                    case 2: if (!s.empty()) s[r.below(s.size())] = big[r.below(big.size())]; break;
                    case 3: s = junk(1 + r.below(3)) + s; break;
                    case 4: s += junk(1 + r.below(3)); break;
                    case 5: if (!s.empty()) { auto a = r.below(s.size()), l = 1 + r.below(3); s.insert(a, s.substr(a, l)); } break;
                    case 6: if (!s.empty()) { auto &c = s[r.below(s.size())]; c = (char) Model::flip((unsigned char) c); } break;
                }
            }
            return s;
        }
    };

    std::vector<std::string> make_inputs(Model const &m, std::uint64_t seed, std::string const &small, std::string const &big,
                                         long n_exh, long n_guided, long n_rand, int maxlen, std::vector<std::string> const &extra, long n_long, long n_huge)
    {
        std::vector<std::string> v;
        std::unordered_set<std::string> seen;
        auto add = [&](std::string const &s) {
            if ((int) s.size() <= maxlen && seen.insert(s).second)
                v.push_back(s);
        };
        for (auto const &s : extra)
        {
            if (seen.insert(s).second)
                v.push_back(s);
        }
        if (n_exh > 0)
        {
            add("");
            std::vector<std::string> layer{""};
            long total = 1;
            while (true)
            {
                if (total + (long) layer.size() * (long) small.size() > n_exh)
                    break;
                std::vector<std::string> next;
                for (auto const &p : layer)
                    for (char c : small)
                    {
                        next.push_back(p + c);
                        add(next.back());
                    }
                total += (long) next.size();
                layer.swap(next);
                if ((int) layer[0].size() >= maxlen)
                    break;
            }
        }
        Rng r{seed};
        Sampler sm{m, r, big, maxlen, {}, {}};
        for (long i = 0; i < n_guided; ++i)
        {
            std::string s = sm.sample();
            long t = (long) r.below(10);
            if (t >= 3)
                s = sm.mutate(s);
            if (t >= 8)
                s += sm.mutate(sm.sample());
            add(s);
        }
        for (long i = 0; i < n_rand; ++i)
        {
            std::size_t len = r.below(maxlen < 24 ? maxlen + 1 : (r.chance(80) ? 16 : maxlen + 1));
            std::string s;
            std::string const &al = r.chance(60) ? small : big;
            for (std::size_t j = 0; j < len; ++j)
                s += r.chance(3) ? (char) r.below(256) : al[r.below(al.size())];
            add(s);
        }
        // long inputs: repetitions of samples, pieces and single characters
        for (long i = 0; i < n_long + n_huge; ++i)
        {
            static int const lens[] = {60, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 513, 700, 1025, 2000};
            static int const huge[] = {32767, 32768, 65534, 65535, 65536, 65537, 70000, 131071};
            std::size_t len = i < n_long ? lens[r.below(sizeof lens / sizeof *lens)] + r.below(3) : huge[r.below(sizeof huge / sizeof *huge)] + r.below(2);
            std::string s, piece;
            switch (r.below(4))
            {
                case 0: piece = std::string(1, small[r.below(small.size())]); break;
                case 1: piece = sm.sample(); break;
                case 2: piece = sm.junk(1 + r.below(4)); break;
                default: break;
            }
            while (s.size() < len)
            {
                if (piece.empty())
                    s += r.chance(50) ? sm.sample() + small[r.below(small.size())] : std::string(1 + r.below(i < n_long ? 40 : len), small[r.below(small.size())]);
                else
                    s += piece;
            }
            if (r.chance(60))
                s.resize(len);
            if (r.chance(50))
                s += sm.sample();
            if (r.chance(30))
                s = sm.mutate(s);
            if (s.size() <= arena_size && seen.insert(s).second)
                v.push_back(s);
        }
        return v;
    }

    // the model recurses with the length of the input; the library under test runs on the ordinary stack
    template<class F>
    void on_big_stack(F &f)
    {
        pthread_t th;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, (std::size_t) 2 << 30);
        if (pthread_create(&th, &at, [](void *p) -> void * { (*(F *) p)(); return nullptr; }, &f) != 0)
            throw std::runtime_error("no thread for the model");
        pthread_join(th, nullptr);
        pthread_attr_destroy(&at);
    }

    std::vector<std::string> split(std::string const &s, char d)
    {
        std::vector<std::string> r;
        std::size_t i = 0;
        while (true)
        {
            auto j = s.find(d, i);
            r.push_back(s.substr(i, j == s.npos ? s.npos : j - i));
            if (j == s.npos)
                return r;
            i = j + 1;
        }
    }

    // ---- C18: the same operations repeated, interleaved, with earlier results kept, and from several threads
    struct Task { Entry const *e; int id; char const *p; std::string s; std::vector<Res> want; std::uint64_t seed, steps; };

    struct Mixed
    {
        std::vector<Task> const &tasks;
        std::uint64_t seed;
        std::uint64_t rounds;
        bool first;
        std::uint64_t evals = 0;
        std::string fail;
        int thread = 0;
        bool threads = false;

        void bad(Task const &t, std::string const &kind, std::string act)
        {
            static char const *sems[] = {"match", "prefix", "search", "tokens", "findall", "self"};
            for (auto &c : act)
                if (c == '\t' || c == '\n')
                    c = ' ';
            if (fail.empty())
                fail = "FAIL\t" + std::to_string(t.id) + "\t" + t.e->carrier + "\t" + sems[t.e->sem] + "\t" + hex(t.s) + "\t" + kind + "\t" + show(t.want) + "\t" + act + "\n";
        }

        void go()
        {
            Rng r{seed};
            struct Held { Task const *t; std::function<std::vector<Res>()> f; };
            std::vector<Held> held(64);
            for (std::uint64_t k = 0; k < rounds && fail.empty(); ++k)
            {
                Task const &t = tasks[r.below(tasks.size())];
                if (!threads)
                {
                    state->id = t.id;
                    std::memcpy(state->subject, t.s.data(), t.s.size());
                    state->n = (std::int64_t) t.s.size();
                    state->entry = (std::int64_t) 0;
                    state->op = (std::int64_t) (1000000000 + k);
                }
                int again = r.chance(25) ? 2 : 1;
                for (int a = 0; a < again; ++a)
                {
                    Out o;
                    Input inp{t.p, t.s.size(), t.seed, t.steps};
                    t.e->fn(inp, o);
                    ++evals;
                    if (!o.err.empty())
                        bad(t, threads ? "thread" : "mixed", o.err);
                    else if (t.e->sem != SELF && !same(t.want, o.rs))
                        bad(t, threads ? "thread" : "mixed", show(o.rs));
                    if (o.held)
                        held[r.below(held.size())] = Held{&t, o.held};
                }
                auto const &h = held[r.below(held.size())];
                if (h.t)
                {
                    ++evals;
                    auto now = h.f();
                    if (!same(h.t->want, now))
                        bad(*h.t, "kept", "a result kept since an earlier operation now reads " + show(now));
                }
            }
            for (auto const &h : held)
                if (h.t && fail.empty())
                {
                    auto now = h.f();
                    if (!same(h.t->want, now))
                        bad(*h.t, "kept", "a result kept since an earlier operation now reads " + show(now));
                }
        }
    };

    void *mixed_thread(void *p)
    {
        ((Mixed *) p)->go();
        return nullptr;
    }

    std::string mixed(std::vector<Task> &tasks, std::uint64_t seed, std::uint64_t rounds, int nthreads, std::uint64_t &evals)
    {
        // all inputs in one block that cannot be written to
        std::size_t total = 0;
        for (auto const &t : tasks)
            total += t.s.size() + 1;
        total = (total + 8191) & ~(std::size_t) 4095;
        char *mem = (char *) mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        std::size_t at = 0;
        for (auto &t : tasks)
        {
            std::memcpy(mem + at, t.s.data(), t.s.size());
            t.p = mem + at;
            at += t.s.size() + 1;
            mem[at - 1] = 'a';
        }
        mprotect(mem, total, PROT_READ);
        Mixed one{tasks, seed, rounds, true};
        one.go();
        evals += one.evals;
        std::string fail = one.fail;
        if (fail.empty() && nthreads > 1)
        {
            state->entry = -1;
            std::vector<Mixed> ms;
            for (int i = 0; i < nthreads; ++i)
            {
                ms.push_back(Mixed{tasks, seed ^ (0x1234567ull * (i + 1)), rounds, false});
                ms.back().threads = true;
            }
            std::vector<pthread_t> th(nthreads);
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstacksize(&at, 64u << 20);
            for (int i = 0; i < nthreads; ++i)
                if (pthread_create(&th[i], &at, mixed_thread, &ms[i]) != 0)
                    _exit(2);
            for (int i = 0; i < nthreads; ++i)
                pthread_join(th[i], nullptr);
            for (auto const &m : ms)
            {
                evals += m.evals;
                if (fail.empty())
                    fail = m.fail;
            }
        }
        munmap(mem, total);
        return fail;
    }

    int mix_rounds = 0, mix_threads = 0, probe = 0;

    int run(std::string plan, std::string outfile, unsigned mask)
    {
        std::map<int, Reg const *> reg;
        for (int i = 0; i < nregs; ++i)
            reg[regs[i].id] = &regs[i];
        std::ifstream in(plan);
        std::ofstream out(outfile);
        std::string line;
        std::int64_t op = 0;
        std::uint64_t feat_count[20] = {};
        std::vector<Task> tasks;
        std::vector<std::unique_ptr<Case>> kept_cases;
        bool any_failed = false;
        std::uint64_t mix_seed = 0;
        static char const *sems[] = {"match", "prefix", "search", "tokens", "findall", "self"};
        while (std::getline(in, line))
        {
            auto f = split(line, '\t');
            if (f.size() < 12)
                continue;
            int id = std::stoi(f[0]);
            if (!probe && !reg.count(id))
                continue;
            Model m;
            m.load(f[3], f[1]);
            std::vector<std::string> extra;
            if (!f[11].empty())
                for (auto const &h : split(f[11], ','))
                    extra.push_back(unhex(h));
            auto inputs = make_inputs(m, std::stoull(f[2]), unhex(f[4]), unhex(f[5]), std::stol(f[6]), std::stol(f[7]),
                                      std::stol(f[8]), std::stoi(f[9]), extra, f.size() > 12 ? std::stol(f[12]) : 0, f.size() > 13 ? std::stol(f[13]) : 0);
            std::uint64_t budget = std::stoull(f[10]);
            if (probe)
            {
                // choose inputs for constant evaluation: cheap ones that make the model do different things
                std::vector<std::pair<std::string, unsigned>> pool;
                for (auto const &s : inputs)
                {
                    if (pool.size() >= 400)
                        break;
                    unsigned feat = 0;
                    bool ok = true;
                    for (int sem : {MATCH, PREFIX, SEARCH, FINDALL, TOKENS})
                    {
                        try { m.run(sem, s, budget); feat |= m.feat; }
                        catch (Budget) { ok = false; break; }
                    }
                    if (ok)
                        pool.push_back({s, feat});
                }
                Rng r{std::stoull(f[2]) ^ 77};
                std::string list;
                unsigned covered = 0;
                for (int k = 0; k < probe && !pool.empty(); ++k)
                {
                    std::size_t best = 0;
                    int best_score = -1;
                    for (int t = 0; t < 60; ++t)
                    {
                        auto j = r.below(pool.size());
                        int sc = 4 * __builtin_popcount(pool[j].second & ~covered) + (pool[j].first.size() > 1 ? 2 : 0) + (int) r.below(3);
                        if (sc > best_score)
                            best_score = sc, best = j;
                    }
                    covered |= pool[best].second;
                    list += (list.empty() ? "" : ",") + hex(pool[best].first);
                    pool.erase(pool.begin() + best);
                }
                out << "PROBE\t" << id << '\t' << list << '\n';
                continue;
            }
            kept_cases.push_back(std::make_unique<Case>());
            Case &cs = *kept_cases.back();
            mix_seed ^= std::stoull(f[2]);
            cs.id = id;
            state->id = id;
            state->entry = -1;
            reg[id]->make(cs);
            for (auto const &e : cs.entries)
                if (e.fixed)
                {
                    std::string s(e.fixed, e.fixed_n);
                    bool known = false;
                    for (auto const &x : inputs)
                        known = known || x == s;
                    if (!known)
                        inputs.push_back(s);
                }
            std::uint64_t evals = 0, nontrivial = 0, matched = 0, skipped = 0, work = 0;
            bool failed = false;
            std::string sample;
            std::uint64_t index = 0;
            for (auto const &s : inputs)
            {
                if (failed)
                    break;
                ++index;
                struct Want { bool have = false, over = false; std::vector<Res> rs; std::uint64_t steps = 0; unsigned feat = 0; };
                Want want[6];
                bool counted = false;
                for (std::size_t ei = 0; ei < cs.entries.size() && !failed; ++ei)
                {
                    auto const &e = cs.entries[ei];
                    if (e.fixed && std::string(e.fixed, e.fixed_n) != s)
                        continue;
                    Want &w = want[e.sem];
                    if (!w.have)
                    {
                        w.have = true;
                        auto model = [&] {
                            try
                            {
                                w.rs = m.run(e.sem == SELF ? SEARCH : e.sem, s, budget + 40 * s.size());
                                if (e.sem == SELF)
                                {
                                    m.start(s, (budget + 40 * s.size()) * 4);
                                    m.iterate(false);
                                }
                            }
                            catch (Budget) { w.over = true; }
                        };
                        state->entry = -1; // the time of the model is not that of the library
                        if (s.size() > 4096)
                            on_big_stack(model);
                        else
                            model();
                        w.steps = m.steps;
                        w.feat = m.feat;
                    }
                    if (w.over)
                    {
                        ++skipped;
                        continue;
                    }
                    // the input lies against an inaccessible page, at its end or at its beginning
                    bool at_end = (index + ei) & 1;
                    char *p = at_end ? arena + arena_size - s.size() : arena;
                    std::memcpy(p, s.data(), s.size());
                    std::memcpy(state->subject, s.data(), s.size());
                    state->n = (std::int64_t) s.size();
                    state->entry = (std::int64_t) ei;
                    state->op = ++op;
                    Out o;
                    Input inp{p, s.size(), std::stoull(f[2]) ^ (index * 0x9e3779b97f4a7c15ull), w.steps};
                    e.fn(inp, o);
                    ++evals;
                    work += o.work;
                    std::string kind, act;
                    if (!o.err.empty())
                        kind = "err", act = o.err;
                    else if (std::memcmp(p, s.data(), s.size()) != 0)
                        kind = "mut", act = "the input was modified";
                    else if (e.sem != SELF && !same(w.rs, o.rs))
                        kind = "diff", act = show(o.rs);
                    if (!kind.empty())
                    {
                        for (auto &c : act)
                            if (c == '\t' || c == '\n')
                                c = ' ';
                        out << "FAIL\t" << id << '\t' << e.carrier << '\t' << sems[e.sem] << '\t' << hex(s) << '\t' << kind << '\t'
                            << show(w.rs) << '\t' << act << '\n';
                        failed = any_failed = true;
                    }
                    if (!counted)
                    {
                        for (int b = 0; b < 17; ++b)
                            if (w.feat >> b & 1)
                                ++feat_count[b];
                    }
                    if (mix_rounds && !failed && !e.fixed)
                        tasks.push_back(Task{&e, id, nullptr, s, w.rs, inp.seed, w.steps});
                    bool nt = (w.feat & mask) != 0;
                    if (nt)
                    {
                        ++nontrivial;
                        if (s.size() < 300 && (sample.empty() || (s.size() > 2 && sample.size() < 24)))
                            sample = std::string(sems[e.sem]) + "\t" + hex(s) + "\t" + show(w.rs);
                    }
                    if (w.feat & F_MATCH)
                        ++matched;
                    counted = true;
                }
            }
            state->entry = -1;
            out << "CASE\t" << id << '\t' << evals << '\t' << nontrivial << '\t' << matched << '\t' << skipped << '\t' << inputs.size() << '\t' << work << '\n';
            if (!sample.empty())
                out << "SAMPLE\t" << id << '\t' << sample << '\n';
            out.flush();
        }
        if (mix_rounds && !any_failed && !tasks.empty())
        {
            std::uint64_t evals = 0;
            std::string fail = mixed(tasks, mix_seed, mix_rounds, mix_threads, evals);
            out << fail << "MIX\t" << evals << '\n';
        }
        out << "FEAT";
        for (int b = 0; b < 17; ++b)
            out << '\t' << feat_count[b];
        out << "\nDONE\n";
        return 0;
    }

    struct Args { std::string plan, out; unsigned mask; int rc; };

    void *entry(void *p)
    {
        auto *a = (Args *) p;
        a->rc = run(a->plan, a->out, a->mask);
        return nullptr;
    }
}

int main(int argc, char **argv)
{
    if (argc < 5)
        return 2;
    int fd = open(argv[3], O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(State)) != 0)
        return 2;
    state = (State *) mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    state->id = -1;
    state->entry = -1;
    char *base = (char *) mmap(nullptr, arena_size + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED || mprotect(base + 4096, arena_size, PROT_READ | PROT_WRITE) != 0)
        return 2;
    arena = base + 4096;
    if (argc > 5)
        hang_limit = atoi(argv[5]);
    if (argc > 7)
    {
        mix_rounds = atoi(argv[6]);
        mix_threads = atoi(argv[7]);
        if (argc > 8)
            probe = atoi(argv[8]);
    }
    struct sigaction sa{};
    sa.sa_handler = tick;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval tv{{1, 0}, {1, 0}};
    setitimer(ITIMER_PROF, &tv, nullptr);
    struct rlimit no{0, 0};
    setrlimit(RLIMIT_CORE, &no);
    Args a{argv[1], argv[2], (unsigned) strtoul(argv[4], nullptr, 10), 0};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 256u << 20);
    pthread_t t;
    if (pthread_create(&t, &at, entry, &a) != 0)
        return 2;
    pthread_join(t, nullptr);
    return a.rc;
}
