"""Checks with machinery of their own: parser (C09, C10), constant evaluation (C13), results (C14), expressions (C15), purity (C18)."""
import concurrent.futures as cf
import hashlib
import os
import random
import re
import subprocess
import time

from . import rx, refparse
from .rx import Gen, E, DOT
from .core import Run, Maker, basic_body, needs_backwards, pointer_body, write_replay
from .engine import F, Toolchain, Spec, Failure, regex_type, flags_cpp, CheckError, JOBS, INC, CPP
from .gens import *
from .checks import random_part, body

# ---------------------------------------------------------------- C09
METACH = b'()[]{}*+?|\\^$.-,<>:=!'
PARTS = [b'(', b')', b'(?:', b'(?=', b'(?!', b'(?<=', b'(?<!', b'(?>', b'(?<n>', b'(?<', b'(?', b'[', b'[^', b']', b'{', b'}', b'{1}', b'{1,}', b'{1,2}', b'{2', b'{,', b'*', b'+', b'?', b'??', b'*+', b'|', b'\\', b'\\x', b'\\x4', b'\\x41',
         b'\\k', b'\\k<', b'\\k<n>', b'\\1', b'\\d', b'\\R', b'\\b', b'\\A', b'^', b'$', b'.', b'-', b',', b'<', b'>', b':', b'=', b'!', b'a', b'b', b'Z', b'0', b'1', b'9', b'_', b' ', b'\n', b'\x00', b'\xff', b'a-z', b'\\]', b'\\-', b'\\n']
CONTEXTS = [(b'', b''), (b'a', b''), (b'(', b''), (b'(', b')'), (b'(a', b')'), (b'(?', b')'), (b'(?', b'a)'), (b'(?<', b'>a)'), (b'(?<n', b'>a)'), (b'(?<n', b'a)'), (b'(?:', b')'), (b'(?>', b')'), (b'(?=', b')'), (b'(?<=', b')'), (b'(?<n>', b')'),
            (b'[', b']'), (b'[^', b']'), (b'[a', b']'), (b'[a-', b']'), (b'[a-z', b']'), (b'[a-z-', b']'), (b'[\\d', b']'), (b'[\\d-', b']'), (b'[\\', b']'), (b'[a-\\', b']'), (b'[a-\\x', b'0]'), (b'[\\x4', b']'), (b'[\\x', b'1]'), (b'[\\x41', b']'), (b'[]', b''), (b'[a]', b''),
            (b'\\', b''), (b'\\x', b''), (b'\\x', b'1'), (b'\\x4', b''), (b'\\x41', b''), (b'\\1', b''), (b'\\k', b''), (b'\\k<', b'>'), (b'\\k<n', b'>'), (b'\\k<n', b''), (b'\\k<n>', b''), (b'\\d', b''), (b'\\b', b''), (b'^', b''), (b'$', b''), (b'.', b''),
            (b'a{', b''), (b'a{', b'}'), (b'a{1', b''), (b'a{1', b'}'), (b'a{1,', b''), (b'a{1,', b'}'), (b'a{1,2', b'}'), (b'a{1,2', b''), (b'a{1}', b''), (b'a{1,}', b''), (b'a{1,2}', b''), (b'a{1}?', b''), (b'a*', b''), (b'a+', b''), (b'a?', b''), (b'a*?', b''), (b'a++', b''), (b'a??', b''),
            (b'a|', b''), (b'(a|', b')'), (b'(a)', b''), (b'(a)*', b''), (b'()', b''), (b'a{x', b''), (b'a{x{', b'}'), (b'({', b')'), (b'a|b', b''), (b'(?:a)', b''), (b'(?!a)', b''), (b'\\A', b''), (b'\\x4', b'}'), (b'a{0', b'}')]


def small_enough(p):
    """numbers stay far below any implementation limit"""
    return not re.search(rb'\d{8}', p) and len(p) < 400


class Verdicts:
    """compiles patterns in bulk and reports what the library's parser says about each"""
    SRC = '''#include <mregex.hpp>
#include <cstdio>
template<class V> struct where { static constexpr long v = -3; };
template<> struct where<meta::parsing::success> { static constexpr long v = -1; };
template<std::size_t I> struct where<meta::parsing::syntax_error<I>> { static constexpr long v = I; };
template<meta::static_string P> constexpr long verdict = meta::parser<P>::accepted == (where<meta::parser_verdict<P>>::v == -1) ? where<meta::parser_verdict<P>>::v : -2;
constexpr long table[] = {
%s
};
int main() { for (long x : table) std::printf("%%ld\\n", x); }
'''

    def __init__(self, R):
        self.R = R
        self.dir = R.eng.dir
        self.count = 0

    def compile(self, ps, cxx='g++'):
        with self.R.eng.lock:
            self.count += 1
            base = os.path.join(self.dir, 'v%d' % self.count)
        with open(base + '.cpp', 'w') as f:
            f.write(self.SRC % ',\n'.join('verdict<%s>' % rx.cpp_string(p) for p in ps))
        flags = ['-std=c++20', '-O0', '-w', '-ftemplate-depth=4096', '-I' + INC] + (['-fbracket-depth=4096'] if cxx == 'clang++' else [])
        t = time.time()
        rc, out = self.R.eng.sh([cxx, *flags, base + '.cpp', '-o', base], 300)
        with self.R.eng.lock:
            self.R.eng.stats['compile_s'] += time.time() - t
        os.unlink(base + '.cpp')
        if rc != 0:
            if rc == -999 and len(ps) == 1:
                raise CheckError('parsing %r exceeds the time limit' % ps[0])
            if len(ps) == 1:
                log = out.decode(errors='replace')
                if 'internal compiler error' in log or 'Killed' in log:
                    raise CheckError('compiler failure: ' + log[-500:])
                err = [l for l in log.split('\n') if 'error' in l]
                return ['does not compile: ' + (err or [log])[0][-300:]]
            h = len(ps) // 2
            return self.compile(ps[:h], cxx) + self.compile(ps[h:], cxx)
        rc, out = self.R.eng.sh([base], 60)
        os.unlink(base)
        vals = [int(x) for x in out.split()]
        if rc != 0 or len(vals) != len(ps):
            raise CheckError('verdict program failed')
        return vals


def want_verdict(p):
    e, rev = refparse.verdict(p)
    return (-1 if e is None else e), rev


def vtext(v):
    return 'accepted' if v == -1 else ('accepted and verdict disagree' if v == -2 else ('syntax error at %d' % v if isinstance(v, int) else v))


def c09_mutate(r, p):
    p = bytearray(p)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(p) + 1)
        t = r.randrange(6)
        if t == 0 and p:
            del p[min(i, len(p) - 1)]
        elif t == 1:
            p[i:i] = r.choice(PARTS)
        elif t == 2 and p:
            p[min(i, len(p) - 1)] = r.choice(METACH + b'a1xk')
        elif t == 3 and p:
            j = r.randrange(len(p) + 1)
            a, b = sorted((i, j))
            p[a:b] = b''
        elif t == 4 and p:
            del p[i:]
        elif p:
            j = r.randrange(len(p))
            p[i:i] = p[j:j + r.randrange(1, 4)]
    return bytes(p)


def c09_patterns(R):
    r = R.rng
    seen = set()
    out = []
    stats = dict(accepted=0, rejected=0, rejected_at_end=0)

    def add(p, kind):
        if p in seen or not small_enough(p):
            return False
        w, rev = want_verdict(p)
        if rev:
            return False
        seen.add(p)
        out.append((p, w, kind))
        if w == -1:
            stats['accepted'] += 1
        else:
            stats['rejected'] += 1
            if w == len(p):
                stats['rejected_at_end'] += 1
        return True
    # exhaustive: all strings of up to two characters over a syntax alphabet, and every byte in every context
    al = METACH + b'a1xk'
    for a in al:
        add(bytes([a]), 'short')
        for b in al:
            add(bytes([a, b]), 'short')
    full = [c for c in CONTEXTS]
    for pre, post in full:
        for b in range(256):
            # quick tier: all ASCII punctuation, letters and digits in every context; the other bytes sampled
            if R.thorough or 32 <= b < 127 or b in (0, 10, 128, 255) or r.random() < .06:
                add(pre + bytes([b]) + post, 'context')
    n = R.n(3000, 12)
    for _ in range(n):
        add(bytes(r.choice(al) for _ in range(r.choice([3, 3, 4, 5]))), 'short random')
    for _ in range(R.n(5000, 12)):
        add(b''.join(r.choice(PARTS) for _ in range(r.randrange(2, 9))), 'fragments')
    for _ in range(R.n(3500, 12)):
        g = Gen(r, depth=r.choice([2, 3, 4]), alphabet=r.choice(ALPHAS), w=dict(set=4, cap=4, look=2, bref=1.5, rep=6))
        t = g.finish(g.gen(g.depth))
        p = rx.spell(t, r, .15)
        add(p, 'valid')
        for _ in range(2):
            add(c09_mutate(r, p), 'mutated')
    return out, stats


def c09():
    R = Run('C09', 0xffffffff,
            'pattern strings: all of up to two syntax characters, every printable byte (and others) in %d syntactic contexts, random strings of syntax fragments, spellings of random trees, and mutations of them; the verdict and error position '
            'of the compile-time parser are compared with an independent recursive descent parser. A sample of rejected patterns and of patterns naming missing groups is instantiated as a regex and must not compile. '
            'Non-trivial: the pattern is rejected after its first character, or accepted with three or more characters.' % len(CONTEXTS), level='exploration')
    V = Verdicts(R)
    pats, stats = c09_patterns(R)
    r = R.rng
    r.shuffle(pats)
    B = 250
    groups = [pats[i:i + B] for i in range(0, len(pats), B)]
    kinds = {}
    bad = []

    def work(k):
        cxx = 'clang++' if k % 4 == 3 else 'g++'
        return k, cxx, V.compile([p for p, _, _ in groups[k]], cxx)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for k, cxx, vals in ex.map(work, range(len(groups))):
            for (p, w, kind), v in zip(groups[k], vals):
                R.extra_eval += 1
                kinds[kind] = kinds.get(kind, 0) + 1
                if (w == -1 and len(p) >= 3) or w > 0:
                    R.extra_nontrivial += 1
                if v != w:
                    bad.append((p, w, v, cxx))
    R.extra_cov.update(patterns_by_kind=kinds, **stats)
    R.extra_samples = [dict(pattern=p.decode('latin-1'), verdict=vtext(w), kind=k) for p, w, k in pats[:14]]
    if bad:
        p, w, v, cxx = min(bad, key=lambda x: (len(x[0]), x[0]))
        # shrink
        for _ in range(12):
            cands = []
            for l in (8, 4, 3, 2, 1):
                for i in range(0, len(p) - l + 1):
                    cands.append(p[:i] + p[i + l:])
            for i, c in enumerate(p):
                if c != 0x61:
                    cands.append(p[:i] + b'a' + p[i + 1:])
            cands = [c for c in dict.fromkeys(cands) if not want_verdict(c)[1]][:200]
            vals = V.compile(cands, cxx) if cands else []
            fails = [(c, want_verdict(c)[0], x, cxx) for c, x in zip(cands, vals) if x != want_verdict(c)[0]]
            fails = [f for f in fails if isinstance(f[2], str) == isinstance(v, str)]
            key = lambda c: (len(c), sum(b != 0x61 for b in c))
            fails = [f for f in fails if key(f[0]) < key(p)]
            if not fails:
                break
            p, w, v, cxx = min(fails, key=lambda x: key(x[0]))
        again = [V.compile([p], cxx)[0] == v for _ in range(3)]
        if not all(again):
            raise CheckError('a parser failure could not be reproduced on %r' % p)
        print('parser<%s>: expected %s, got %s [%s]' % (rx.cpp_string(p), vtext(w), vtext(v), cxx))
        R.violation(dict(property='C09', kind='verdict', pattern=p.decode('latin-1'), pattern_hex=p.hex(), expected=vtext(w), got=vtext(v), compiler=cxx, failing_patterns_in_this_run=len(bad),
                         rerun='cd /verif && python3 -m vf.replay <this file>'))
        return R
    # compile-time rejection
    rej = [p for p, w, k in pats if w >= 0]
    rej = r.sample(rej, min(len(rej), R.n(240, 6)))
    missing = []
    while len(missing) < R.n(120, 6):
        g = Gen(r, depth=r.choice([1, 2, 3]), alphabet=b'ab', names=.4)
        t = g.make()
        n = rx.ncaps(t)
        ref = r.choice([('\\', n + 1), ('\\', n + 1), ('\\', n + r.randrange(1, 20)), ('\\', 'missing'), ('\\', 'M_2')])
        t2 = rx.normalize(r.choice([seq(t, ref), ('|', (t, ref)), seq(ref, t), seq(t, rep(ref, 0, None)), seq(t, ('L', True, True, ref)), seq(('>', ref), t), seq(t, rep(ref, 2, 2, 'p'))]))
        names = rx.cap_names(t2)
        if isinstance(ref[1], str) and ref[1] in names:
            continue
        missing.append(rx.show(t2))
    bad = must_not_compile(R, rej, 'syntax error') + must_not_compile(R, missing, 'missing group')
    R.extra_eval += len(rej) + len(missing)
    R.extra_nontrivial += len(rej) + len(missing)
    R.extra_cov['instantiations_that_must_not_compile'] = len(rej) + len(missing)
    if bad:
        why, p = min(bad, key=lambda x: len(x[1]))
        print('regex<%s> compiles although it has a %s' % (rx.cpp_string(p), why))
        R.violation(dict(property='C09', kind='compiles', pattern=p.decode('latin-1'), pattern_hex=p.hex(), expected='rejected by the compiler: ' + why, got='compiles',
                         compiler='g++', rerun='cd /verif && python3 -m vf.replay <this file>'))
    return R


def compiles_alone(R, p, cxx='g++', tag=''):
    path = os.path.join(R.eng.dir, 'alone%s.cpp' % tag)
    with open(path, 'w') as f:
        f.write('#include <mregex.hpp>\nint main() { return meta::regex<%s>::match("") ? 1 : 0; }\n' % rx.cpp_string(p))
    rc, out = R.eng.sh([cxx, '-std=c++20', '-fsyntax-only', '-w', '-I' + INC, path], 120)
    if rc == -999:
        raise CheckError('compiler timeout')
    return rc == 0, out.decode(errors='replace')


def must_not_compile(R, ps, why):
    """-> [(why, pattern)] that compile although they must not"""
    groups = [ps[i:i + 15] for i in range(0, len(ps), 15)]

    def work(k):
        path = os.path.join(R.eng.dir, 'rej_%s_%d.cpp' % (why.split()[0], k))
        with open(path, 'w') as f:
            f.write('#include <mregex.hpp>\nint main() {\n' + ''.join('(void) meta::regex<%s>::match("");\n' % rx.cpp_string(p) for p in groups[k]) + '}\n')
        rc, out = R.eng.sh(['g++', '-std=c++20', '-fsyntax-only', '-w', '-fmax-errors=0', '-I' + INC, path], 300)
        lines = {int(m) for m in re.findall(r'rej_\w+\.cpp:(\d+)', out.decode(errors='replace'))}
        quiet = [p for i, p in enumerate(groups[k]) if i + 3 not in lines]
        return [p for j, p in enumerate(quiet) if compiles_alone(R, p, tag='%s%d_%d' % (why.split()[0], k, j))[0]]
    bad = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for res in ex.map(work, range(len(groups))):
            bad += [(why, p) for p in res]
    return bad


# ---------------------------------------------------------------- C10
def readable(t):
    """instantiable at reasonable cost"""
    if refparse.semantic_problems(t) or rx.size(t) > 60 or rx.ncaps(t) > 10:
        return False
    for x in rx.walk(t):
        if x[0] == '*' and max(x[2], x[3] or 0) > 70:
            return False
    return rx.compile_cost(t, True) <= 70


def c10():
    R = Run('C10', F['NONEMPTY'] | F['BACKTRACK'] | F['FAILED'],
            'accepted pattern texts made by random concatenation of syntax fragments and by mutating spellings of random trees, read by an independent parser into a tree whose model behaviour is the oracle; and two to three random spellings '
            '(groups, quantifier, escape and set notations) of the same tree on the same inputs. Non-trivial: the model consumed, backtracked, or failed after trying.')
    r = R.rng
    mk = Maker()
    frag = [b'(', b')', b'(?:', b'(?=', b'(?!', b'(?<=', b'(?<!', b'(?>', b'(?<n>', b'[', b'[^', b']', b'{', b'}', b'{1}', b'{2}', b'{0,}', b'{1,2}', b'{x', b'{,2}', b'{ ', b'*', b'+', b'?', b'??', b'*?', b'+?', b'*+', b'++', b'|', b'\\x61', b'\\1',
            b'\\k<n>', b'\\d', b'\\w', b'\\R', b'\\b', b'\\A', b'\\Z', b'^', b'$', b'.', b'-', b',', b'<', b'>', b':', b'=', b'!', b'a', b'a', b'a', b'b', b'b', b'c', b'A', b'1', b'_', b'a-c', b'\\]', b'\\-', b'\\n', b'\n', b'\\\\', b'\\.', b'\\*', b'ab', b'\\N', b'\\S', b'\\0']

    def fuzz():
        for _ in range(4000):
            if r.random() < .5:
                p = b''.join(r.choice(frag) for _ in range(r.randrange(3, 13)))
            else:
                # balanced frame around random content
                inner = b''.join(r.choice(frag) for _ in range(r.randrange(1, 6)))
                p = r.choice([b'(', b'(?:', b'(?<n>', b'a|(', b'[', b'[^', b'(a)(', b'(?=', b'(?<=', b'(?>', b'x(?:']) + inner
                p += (b']' if p[:1] == b'[' else b')') + b''.join(r.choice(frag) for _ in range(r.randrange(0, 4)))
            t, e = refparse.parse(p)
            if e is None and readable(t) and rx.size(t) >= 3:
                return mk(t, p, flagset(r, .3), r.getrandbits(32), subj=dict(exh=250, guided=200))
        return None

    def mutated():
        for _ in range(2000):
            g = Gen(r, depth=r.choice([2, 3]), alphabet=r.choice(ALPHAS), w=dict(set=4, cls=1.5, alt=4))
            p = c09_mutate(r, rx.spell(g.finish(g.gen(g.depth)), r, .2))
            if not small_enough(p):
                continue
            t, e = refparse.parse(p)
            if e is None and readable(t) and rx.size(t) >= 2:
                return mk(t, p, flagset(r, .3), r.getrandbits(32), subj=dict(exh=250, guided=200))
        return None
    def focused():
        # one or two special fragments in an otherwise plain context, so that every one of them meets every structure
        for _ in range(4000):
            special = r.sample(frag, r.choice([1, 1, 2]))
            toks = [b'a', b'b', b'c'] + special * 2 + r.choice([[b'|'], [b'|', b'(?:', b')'], [b'|', b'(', b')'], [b'*', b'|'], [b'{2}'], [b'(', b'|', b')', b'?']])
            p = b''.join(r.choice(toks) for _ in range(r.randrange(3, 9)))
            if not any(x in p for x in special):
                continue
            t, e = refparse.parse(p)
            if e is None and readable(t) and rx.size(t) >= 3:
                return mk(t, p, flagset(r, .2), r.getrandbits(32), subj=dict(exh=250, guided=200))
        return None
    if not R.go(uniq(focused, R.n(1100)), label='fragments in plain contexts'):
        return R
    if not R.go(uniq(fuzz, R.n(600)), label='fragments'):
        return R
    if not R.go(uniq(mutated, R.n(700)), label='mutated spellings'):
        return R
    specs = []
    seen = set()
    for _ in range(R.n(260)):
        g = Gen(r, depth=r.choice([2, 3, 3]), alphabet=r.choice(ALPHAS), w=dict(set=3, alt=4, rep=6))
        t = g.make()
        fl = flagset(r, .3)
        for _ in range(3):
            p = rx.spell(t, r, .35)
            if (p, fl) not in seen:
                seen.add((p, fl))
                specs.append(mk(t, p, fl, 1, subj=dict(exh=250, guided=200)))
    if not R.go(specs, label='spellings of one tree'):
        return R
    if not compose_part(R, mk, R.n(500)):
        return R
    rep_pairs(R, mk, [('C', 0x61), DOT, ('S', True, (('c', 0x62),)), lit('ab'), cap(('C', 0x61)), alt(('C', 0x61), lit('ab'))])
    return R


# ---------------------------------------------------------------- C13
class ConstMaker(Maker):
    """entries whose result is computed in a constant expression; the inputs are the first of `extra`"""

    def __init__(self, limit=4, **k):
        super().__init__(None, **k)
        self.limit = limit

    def __call__(self, tree, pattern=None, flags=(), seed=0, extra=(), subj=None, note=''):
        if pattern is None:
            pattern = rx.show(tree)
        sj = dict(self.subj)
        sj.update(subj or {})
        T = regex_type(pattern, flags)
        out = ['using R = %s;' % T]
        for j, s in enumerate([x for x in extra if len(x) <= 24][:self.limit] + [x for x in extra if len(x) > 24][:1]):
            n = len(s)
            out.append('static constexpr char s%d[] = %s;' % (j, rx.cpp_string(s)))
            for op, fn in (('MATCH', 'match'), ('PREFIX', 'match_prefix'), ('SEARCH', 'search')):
                out.append('static constexpr auto %s%d = R::%s(s%d, s%d + %d); c.add_fixed(%s, "constant expression", [](Input const &, Out &o) { o.rs.push_back(conv(%s%d, s%d)); }, s%d, %d);'
                           % (fn, j, fn, j, j, n, op, fn, j, j, j, n))
            if j < 2:
                for op, fn in (('FINDALL', 'searcher'), ('TOKENS', 'tokenizer')):
                    out.append('static constexpr auto %s%d = collect(R::%s(s%d, s%d + %d), s%d); c.add_fixed(%s, "constant expression", [](Input const &, Out &o) { emit(%s%d, o); }, s%d, %d);'
                               % (fn, j, fn, j, j, n, j, op, fn, j, j, n))
            if j == 1:
                for op, fn in (('FINDALL', 'find_all'), ('TOKENS', 'tokenize')):
                    out.append('static constexpr auto %s%d = collect_range(R::%s(s%d, s%d + %d), s%d); c.add_fixed(%s, "range in a constant expression", [](Input const &, Out &o) { emit(%s%d, o); }, s%d, %d);'
                               % (fn, j, fn, j, j, n, j, op, fn, j, j, n))
            rr = random.Random('const%d/%d' % (seed, j))
            ways = ['accessors<R, %s>', 'through_iterators<R, %s, std::bidirectional_iterator_tag>', 'through_container<R, %s, std::string>', 'through_container<R, %s, std::vector<char>>', 'through_container<R, %s, std::string_view>']
            if not needs_backwards(tree):
                ways += ['through_iterators<R, %s, std::forward_iterator_tag>'] * 2
            op = rr.choice(['MATCH', 'PREFIX', 'SEARCH', 'SEARCH'])
            w = rr.choice(ways) if j else ways[0]
            out.append('static constexpr auto way%d = %s(s%d, %d); c.add_fixed(%s, "%s in a constant expression", [](Input const &, Out &o) { emit_fixed(way%d, o); }, s%d, %d);' % (j, w % op, j, n, op, w.split('<')[0], j, j, n))
            if j == 0:
                # a string_view as the input, verdict used as a constant
                out.append('static constexpr std::string_view v%d(s%d, %d); static constexpr auto w%d = R::search(v%d); static_assert(w%d.matched() == search%d.matched() && w%d.length() == search%d.length());' % ((j, j, n) + (j,) * 6))
        out.append('add_basic<R>(c);')
        return Spec(tree, pattern, flags, '\n'.join(out), sj, extra, note, self, '', seed)


PAIR_BYTES = b'ab1_-AZz@[`{/:09 \t\n\x0b\x0c\r\x00\x7f\x80\xaa\xb5\xc0\xe0\xff'


def c13_bytes(tree, pattern, flags, seed):
    return ('using R = %s; static constexpr auto t = byte_table<R>();'
            'c.add(MATCH, "every byte in a constant expression", [](Input const &i, Out &o) { from_bytes<R>(&ByteTable<R>::match, t, i, o, conv(R::match(i.b, i.b + i.n), i.b)); });'
            'c.add(SEARCH, "every byte in a constant expression", [](Input const &i, Out &o) { from_bytes<R>(&ByteTable<R>::search, t, i, o, conv(R::search(i.b, i.b + i.n), i.b)); });' % regex_type(pattern, flags))


def c13_pairs(tree, pattern, flags, seed):
    return ('using R = %s; static constexpr char al[] = {%s}; static constexpr auto t = pair_table<R>(al);'
            'c.add(SEARCH, "pairs of bytes in a constant expression", [](Input const &i, Out &o) { from_pairs<R>(t, al, i, o, conv(R::search(i.b, i.b + i.n), i.b)); });'
            % (regex_type(pattern, flags), ', '.join("'\\x%02x'" % b for b in PAIR_BYTES)))


def c13_tables(R, tc, part):
    """single characters and neighbours: every byte in a constant expression"""
    r = R.rng
    mb = Maker(c13_bytes, subj=dict(exh=0, guided=0, rand=0, long=0, maxlen=4))
    mp = Maker(c13_pairs, subj=dict(exh=0, guided=0, rand=0, long=0, maxlen=4))
    rb = lambda: r.choice([r.randrange(256), r.choice(PAIR_BYTES), r.choice(b'agzAGZ05-^]')])
    fl = lambda: tuple(f for f, p in (('icase', .5), ('dotall', .3), ('multiline', .3), ('unroll', .1)) if r.random() < p)
    singles = [DOT] + [('K', k) for k in 'dDwWsSRN']

    def one():
        t = r.random()
        if t < .25:
            x = r.choice(singles)
        elif t < .4:
            x = ('C', rb())
        else:
            items = []
            for _ in range(r.choice([1, 1, 2, 3, 5])):
                q = r.random()
                a, b = sorted([rb(), rb()])
                items.append(('c', a) if q < .35 else ('r', a, b) if q < .75 else ('k', r.choice('dwsRDWSN')))
            x = ('S', r.random() < .4, tuple(items))
        x = r.choice([x, x, x, alt(x, ('C', rb())), seq(('L', True, r.random() < .5, x), DOT), ('Q', (DOT, ('L', False, r.random() < .5, x))), rep(x, 0, 1), rep(x, 1, None, 'l')])
        return mb(x, None, fl(), r.getrandbits(32), extra=[bytes([b]) for b in range(256)])

    def two():
        k = r.randrange(8)
        A = lambda: ('A', r.choice('^$bBAZ'))
        x = r.choice(singles + [('C', rb()), ('S', r.random() < .5, (('c', rb()), ('r', 0x41, 0x5a)))])
        if k < 3:
            t = r.choice([seq(cap(DOT), ('\\', 1)), seq(cap(x), ('\\', 1)), seq(('L', True, r.random() < .4, seq(cap(DOT), ('\\', 1))), DOT), ('Q', (DOT, DOT, ('L', False, r.random() < .4, seq(cap(DOT), ('\\', 1)))))])
        elif k < 6:
            t = r.choice([seq(DOT, A(), DOT), seq(A(), DOT), seq(DOT, A()), seq(x, A()), seq(A(), x), seq(x, A(), DOT), seq(('L', True, r.random() < .4, seq(DOT, A())), DOT), ('Q', (DOT, ('L', False, r.random() < .4, seq(A(), DOT))))])
        else:
            t = r.choice([rep(x, 2, 2), rep(x, 1, None, r.choice('glp')), seq(x, r.choice(singles)), ('Q', (x, ('L', False, r.random() < .5, seq(x, x))))])
        return mp(rx.fix_refs(t), None, fl(), r.getrandbits(32), extra=[bytes([a, b]) for a in PAIR_BYTES for b in PAIR_BYTES])
    return R.go(uniq(one, R.n(50 * part)), tc, batch=13, label='every byte, ' + tc.name) and R.go(uniq(two, R.n(36 * part)), tc, batch=5, label='pairs of bytes, ' + tc.name)


def long_pattern(r):
    """patterns of 60 to 200 characters of one kind each, in proportion to what they cost a compiler"""
    n = r.choice([60, 80, 100, 120, 140, 160, 180, 200])
    w = lambda a, k: ''.join(r.choice(a) for _ in range(k))
    k = r.randrange(9)
    if k == 0:
        return w('abcxyz019 _', n)
    if k == 1:
        s = w('abc', 4)
        while len(s) < n - 8:
            s += '|' + w('abcxyz', r.randrange(2, 8))
        return s
    if k == 2:
        s = '[' + r.choice(['', '^'])
        while len(s) < n - 5:
            s += r.choice(['a', '\\d', '\\x41', '0-9', 'a-f', '\\]', '\\s', '%'])
        return s + ']+'
    if k == 3:
        s = ''
        while len(s) < n * 2 // 3:
            s += r.choice(['a+', '\\w*?', '(b|c)', '[a-z]{2,3}', '\\s?', '(?:x|yz)+', '.', '\\.', '(?=a)', '\\b', '(?<!q)', 'abc', '\\d'])
        return s
    if k == 4:
        return '(?:' * (n // 4) + 'a' + ')' * (n // 4)
    if k == 5:
        return '(?<' + w('abcdefxyz_', n - 12) + '>a)b?'
    if k == 6:
        return '(?:a|' * (n // 6) + 'b' + ')' * (n // 6)
    if k == 7:
        return '\\x' + '\\x'.join(w('2345', 1) + w('0123456789', 1) for _ in range(n // 4))
    return '(a)' * (n // 8) + 'b?' * (n // 8) + '\\%d' % (n // 8)


def c13_long(R, tc, n):
    mk = Maker(pointer_body, subj=dict(exh=20, guided=60, rand=10, long=1))
    r = R.rng

    def one():
        q = long_pattern(r).encode()
        t, err = refparse.parse(q)
        if err is not None:
            return None
        return mk(t, q, flagset(r, .2), r.getrandbits(32))
    return R.go(uniq(one, R.n(n)), tc, batch=2, label="long patterns, default limits, " + tc.name)


def c13():
    R = Run('C13', F['NONEMPTY'] | F['BACKTRACK'] | F['FAILED'],
            'random trees; for each, four cheap inputs on which the model behaves differently are evaluated in constant expressions (match, match_prefix, search, searcher, tokenizer) and many more at run time, with gcc and clang at several '
            'optimisation levels, all compared with the model. Non-trivial: the model consumed, backtracked, or failed after trying.',
            harness='const_harness.hpp')
    r = R.rng
    R.eng.skip_compile_timeouts = True
    mk = ConstMaker(subj=dict(exh=200, guided=150, rand=30, long=1))
    pm = Maker(lambda *a: '', subj=dict(exh=150, guided=200, rand=30, maxlen=12, budget=250, long=0))
    lm = Maker(lambda *a: '', subj=dict(exh=0, guided=0, rand=0, maxlen=400, budget=1500, long=24))
    GL = ('-fconstexpr-ops-limit=2000000000', '-fconstexpr-loop-limit=100000000', '-fconstexpr-depth=20000')
    CL = ('-fconstexpr-steps=500000000', '-fconstexpr-depth=20000')
    g = [Toolchain('g++', ('-O2',) + GL, name='g++O2'), Toolchain('g++', ('-O3',) + GL, name='g++O3'), Toolchain('g++', ('-O0',) + GL, name='g++O0')]
    c = [Toolchain('clang++', ('-O2',) + CL, name='clang++O2'), Toolchain('clang++', ('-O3',) + CL, name='clang++O3'), Toolchain('clang++', ('-O0',) + CL, name='clang++O0')]
    k = R.seed % 3
    tcs = [(g[k], 1.0), (c[(k + 1) % 3], 1.0)]
    if R.thorough:
        tcs = [(t, 1.0) for t in g + c]
    n = R.n(230, 4)

    def one():
        if r.random() < .8:
            t = Gen(r, depth=r.choice([2, 3, 3, 4]), alphabet=r.choice(ALPHAS), w=dict(cap=3.5, look=1.5, bref=1.2), cost=45).make()
        else:
            t = flat(r, b'ab1')
        return pm(t, None, flagset(r), r.getrandbits(32))
    for tc, f in tcs:
        probes = uniq(one, int(n * f))
        inputs = R.eng.probe(probes, 4, tc)
        # one longer input per pattern
        lp = [lm(s.tree, None, s.flags, s.seed) for s in probes]
        longer = R.eng.probe(lp, 6, tc)
        longer = [[x for x in longer[s] if 24 < len(x) < 420][:1] for s in lp]
        specs = [mk(s.tree, rx.spell(s.tree, r) if r.random() < .4 else None, s.flags, s.seed, extra=list(inputs[s]) + l) for s, l in zip(probes, longer)]
        if not R.go(specs, tc, batch=15, label=tc.name):
            return R
        if not c13_tables(R, tc, 1):
            return R
    for cxx in ('g++', 'clang++'):
        if not c13_long(R, Toolchain(cxx, ('-O0',), name=cxx + ' defaults', limits=False), 22):
            return R
    return R


# ---------------------------------------------------------------- C14
def c14_body(tree, pattern, flags, seed):
    T = regex_type(pattern, flags)
    names = rx.cap_names(tree)
    n = len(names) + 1
    u = hashlib.sha256(repr((tree, pattern, flags, seed)).encode()).hexdigest()[:12]
    read, bind = [], []
    for j, x in enumerate(names, 1):
        read.append('if (std::string_view(r.template group<%d>().name()) != "%s" || r.template group<%d>().has_name() != %s) k.o.fail("name of group %d is wrong");' % (j, x or '', j, 'true' if x else 'false', j))
        if x:
            read.append('k.capture(%d, r.template group<"%s">(), "group<name>()"); k.capture(%d, meta::get_group_named<"%s">(r), "get_group_named"); k.capture(%d, R(r).template group<"%s">(), "group<name>() &&"); '
                        '{ R m = r; k.capture(%d, m.template group<"%s">(), "group<name>() &"); auto g = std::move(m).template group<"%s">(); k.capture_mut(%d, g, "moved named group"); } '
                        '{ R const m = r; k.capture(%d, std::move(m).template group<"%s">(), "group<name>() const &&"); k.capture(%d, meta::get_group_named<"%s">(std::move(m)), "get_group_named const &&"); } '
                        '{ R m = r; k.capture_mut(%d, meta::get_group_named<"%s">(m), "get_group_named &"); auto g = meta::get_group_named<"%s">(std::move(m)); k.capture_mut(%d, g, "get_group_named &&"); }'
                        % (j, x, j, x, j, x, j, x, x, j, j, x, j, x, j, x, x, j))
    vs = ', '.join('g%d' % j for j in range(n))
    chk = lambda how: ' '.join('k.capture(%d, g%d, "%s");' % (j, j, how) for j in range(n))
    bind.append('{ auto [%s] = r; %s }' % (vs, chk('structured binding')))
    bind.append('{ auto const &[%s] = r; %s }' % (vs, chk('structured binding by reference')))
    bind.append('{ R m = r; auto &[%s] = m; %s }' % (vs, chk('structured binding by mutable reference')))
    bind.append('{ auto &&[%s] = R(r); %s }' % (vs, chk('structured binding of a temporary')))
    bind.append('{ R const m = r; auto &&[%s] = std::move(m); %s }' % (vs, chk('structured binding of a const temporary')))
    pre = ('struct N%s { template<class R> static void read(Checker &k, R const &r) { %s } template<class R> static void bind(Checker &k, R const &r) { %s } };\n'
           % (u, '\n'.join(read), '\n'.join(bind)))
    rr = random.Random('res%d' % seed)
    sem, fn = rr.choice([('MATCH', 'match'), ('PREFIX', 'match_prefix'), ('SEARCH', 'search')])
    sem2, fn2 = rr.choice([('MATCH', 'match'), ('PREFIX', 'match_prefix'), ('SEARCH', 'search')])
    pre += 'struct O%s { template<class... A> auto operator()(A &&...a) const { return %s::%s(std::forward<A>(a)...); } };\n' % (u, T, fn)
    out = 'c.add(%s, "%s", [](Input const &i, Out &o) { results<N%s>(i, o, O%s{}); });\n' % (sem, fn, u, u)
    if seed % 2:
        pre += 'struct E%s { template<class... A> auto operator()(A &&...a) const { return %s::%s(std::forward<A>(a)...); } };\n' % (u, T, fn2)
        out += ('c.add(%s, "%s of ranges", [](Input const &i, Out &o) { auto v = %s::%s(i.b, i.b + i.n); o.rs.push_back(conv(v, i.b)); Truth t{v.matched(), {}}; '
                'for (auto const &s : o.rs[0].g) t.g.push_back(s.len > 0 ? std::string(i.b + s.pos, s.len) : std::string()); expiring<N%s>(i, o, E%s{}, t); });\n' % (sem2, fn2, T, fn2, u, u))
    return pre, out


def c14():
    R = Run('C14', F['MATCH'] | F['FAILED'],
            'random trees with up to six named and unnamed groups; for each input one result is read through every accessor, converted to owning and optional forms in every value category, copied, moved, bound, and read again after the input was '
            'overwritten and destroyed; results for expiring strings, vectors and lists likewise. Contents are compared with those of the model match. Non-trivial: the match succeeded, or failed after trying.',
            harness='result_harness.hpp')
    r = R.rng
    mk = Maker(c14_body, subj=dict(exh=60, guided=60, rand=10, maxlen=90, long=2))
    w = dict(cap=8, rep=4, alt=4, bref=.5, look=.7, anchor=.3)
    need = lambda n: 1 <= rx.ncaps(n) <= 6
    P = lambda r: dict(w=w, depth=r.choice([2, 3, 3]), alphabet=r.choice([b'ab', b'abc', b'a\n', b'ab\x00', b'a\xff']), names=.6, required=need, cost=25)
    ok = random_part(R, mk, R.n(100, 5), P, flags=lambda r: flagset(r, .1), label='random', tc=Toolchain(flags=('-O0',), name='O0'), batch=4)
    if not ok:
        return R
    san = Toolchain('clang++', ('-O0', '-g0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'), name='san', extra_driver=('-fsanitize=address,undefined',))
    R.eng.env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99'
    random_part(R, mk, R.n(48, 5), P, flags=lambda r: flagset(r, .1), label='sanitizers', tc=san, batch=4)
    return R


# ---------------------------------------------------------------- C15
MODE = {'g': 'meta::match_mode::greedy', 'l': 'meta::match_mode::lazy', 'p': 'meta::match_mode::possessive'}


class Xpr:
    """prints a tree as a C++ expression of the expression API"""

    def __init__(self, rng):
        self.r = rng
        self.cap = 0
        self.deep = 0

    def ch(self, b):
        c = chr(b)
        if 32 <= b < 127 and c not in "'\\":
            return "'%s'" % c
        return "'\\x%02x'" % b

    def one_class(self, k):
        return {'d': 'xpr::digit', 'w': 'xpr::word', 's': 'xpr::whitespace', 'R': 'xpr::linebreak'}[k]

    def neg(self, x):
        return self.r.choice(['(!%s)', 'xpr::negate(%s)', '(not %s)']) % x

    def embed(self, t):
        return 'xpr::regex<%s>' % rx.cpp_string(rx.spell(t, self.r, .1))

    def args(self, t):
        """argument list for the functions which concatenate their arguments"""
        if t[0] == 'Q' and self.r.random() < .7:
            return ', '.join(self.e(c) for c in t[1])
        return self.e(t)

    def flatlit(self, t):
        return t[0] == 'Q' and len(t[1]) > 0 and all(c[0] == 'C' and c[1] != 0 for c in t[1])

    def e(self, t):
        r = self.r
        k = t[0]
        if k not in ('E',) and not rx.ncaps(t) and not any(x[0] == '\\' for x in rx.walk(t)) and r.random() < .12 and rx.show(t):
            return self.embed(t)
        if rx.ncaps(t) and not self.cap and r.random() < .25:
            # a pattern with groups: it numbers them from 1, which is right if no group comes before it
            names = rx.cap_names(t)
            if all(x[0] != '\\' or (x[1] <= len(names) if isinstance(x[1], int) else x[1] in names) for x in rx.walk(t)):
                self.cap = len(names)
                return self.embed(t)
        if k in ('K', 'S', '.', 'A', 'L') and not rx.ncaps(t) and r.random() < .06:
            # negated twice
            self.deep += 1
            return self.neg(self.neg(self.e(t)))
        if k == 'E':
            return 'xpr::empty'
        if k == 'C':
            if t[1] != 0 and r.random() < .12:
                return 'xpr::str<%s>' % rx.cpp_string(bytes([t[1]]))
            return 'xpr::chr<%s>' % self.ch(t[1])
        if k == '.':
            return 'xpr::wildcard'
        if k == 'K':
            if t[1] in 'dwsR':
                return self.one_class(t[1])
            return self.neg(self.one_class({'D': 'd', 'W': 'w', 'S': 's', 'N': 'R'}[t[1]]))
        if k == 'S':
            neg, items = t[1], t[2]
            if not items:
                return self.embed(t) if r.random() < .5 else self.neg('xpr::nothing') if neg else 'xpr::nothing'
            if len(items) == 1 and r.random() < .8:
                i = items[0]
                if i[0] == 'c':
                    x = 'xpr::chr<%s>' % self.ch(i[1])
                elif i[0] == 'r' and i[1] < i[2]:
                    if (i[1], i[2]) == (0x61, 0x7a):
                        x = r.choice(['xpr::lower', "xpr::range<'a', 'z'>"])
                    elif (i[1], i[2]) == (0x41, 0x5a):
                        x = r.choice(['xpr::upper', "xpr::range<'A', 'Z'>"])
                    else:
                        x = 'xpr::range<%s, %s>' % (self.ch(i[1]), self.ch(i[2]))
                elif i[0] == 'k' and i[1] in 'dwsR':
                    x = self.one_class(i[1])
                else:
                    return self.embed(t)
                return self.neg(x) if neg else x
            if not neg and r.random() < .5:
                parts = []
                for i in items:
                    if i[0] == 'k' and i[1] not in 'dwsR':
                        return self.embed(t)
                    parts.append(self.e(('S', False, (i,))))
                return 'xpr::either(%s)' % ', '.join(parts) if len(parts) > 1 else parts[0]
            if neg and r.random() < .4 and all(i[0] != 'k' or i[1] in 'dwsR' for i in items) and len(items) > 1:
                # negation of alternative characters
                parts = [self.e(('S', False, (i,))) for i in items]
                return self.neg('xpr::either(%s)' % ', '.join(parts) if r.random() < .5 else '(' + ' | '.join(parts) + ')')
            if neg and r.random() < .4:
                # negation of a set given as a pattern
                return self.neg(self.embed(('S', False, items)))
            return self.embed(t)
        if k == 'A':
            if t[1] == 'B':
                return self.neg('xpr::word_boundary')
            return {'^': 'xpr::begin_line', '$': 'xpr::end_line', 'A': 'xpr::begin_input', 'Z': 'xpr::end_input', 'b': 'xpr::word_boundary'}[t[1]]
        if k == '\\':
            return 'xpr::group<%d>' % t[1] if isinstance(t[1], int) else 'xpr::group_named<"%s">' % t[1]
        if k == '(':
            self.cap += 1
            n = self.cap
            return 'xpr::capture<%d%s>(%s)' % (n, ', "%s"' % t[1] if t[1] else '', self.args(t[2]))
        if k == '>':
            return 'xpr::atomic(%s)' % self.args(t[1])
        if k == 'L':
            x = 'xpr::%s(%s)' % ('ahead' if t[1] else 'behind', self.args(t[3]))
            return self.neg(x) if t[2] else x
        if k in ('Q', '|'):
            ks = t[1]
            if k == 'Q' and self.flatlit(t) and r.random() < .5:
                return 'xpr::str<%s>' % rx.cpp_string(bytes(c[1] for c in ks))
            es = [self.e(c) for c in ks]
            op, fn = ('>>', 'concat') if k == 'Q' else ('|', 'either')
            form = r.randrange(4)
            if form == 0:
                return 'xpr::%s(%s)' % (fn, ', '.join(es))
            if form == 1:
                return '(' + (' %s ' % op).join(es) + ')'
            # nest arbitrarily: both are associative
            while len(es) > 1:
                i = r.randrange(len(es) - 1)
                if r.random() < .5:
                    es[i:i + 2] = ['(%s %s %s)' % (es[i], op, es[i + 1])]
                else:
                    es[i:i + 2] = ['xpr::%s(%s, %s)' % (fn, es[i], es[i + 1])]
            return es[0]
        if k == '*':
            m, lo, hi, x = t[1:]
            a = self.args(x)
            single = not ('Q' == x[0])
            forms = []
            M = MODE[m]
            if hi is None:
                forms.append('xpr::at_least<%d, %s>(%%s)' % (lo, M))
                if m == 'g':
                    forms.append('xpr::at_least<%d>(%%s)' % lo)
            else:
                forms.append('xpr::between<%d, %d, %s>(%%s)' % (lo, hi, M))
                if m == 'g':
                    forms.append('xpr::between<%d, %d>(%%s)' % (lo, hi))
                if lo == hi:
                    forms += ['xpr::exactly<%d, %s>(%%s)' % (lo, M)] * 2
                    if m == 'g':
                        forms.append('xpr::exactly<%d>(%%s)' % lo)
            for b, f in (((0, None), 'zero_or_more'), ((1, None), 'one_or_more'), ((0, 1), 'maybe')):
                if (lo, hi) == b:
                    forms += ['xpr::%s<%s>(%%s)' % (f, M)] * 2
                    if m == 'g':
                        forms += ['xpr::%s(%%s)' % f] * 2
            f = r.choice(forms)
            if m == 'g' and (lo, hi) in ((0, None), (1, None)) and r.random() < .4:
                # unary operators take one expression; evaluate the argument list as a concatenation
                return '(%s(%s))' % ('*' if lo == 0 else '+', a if single or ', ' not in a else 'xpr::concat(%s)' % a)
            return f % a
        raise ValueError(t)


def c15_body(tree, pattern, flags, seed):
    rr = random.Random('xpr%d' % seed)
    x = Xpr(rr).e(tree)
    fl = list(flags)
    rr.shuffle(fl)
    if rr.random() < .15:
        x = 'xpr::clear_flags(%s)' % ('xpr::add_flags<meta::regex_flag::%s>(%s)' % (rr.choice(rx.FLAGS), x) if rr.random() < .7 else x)
    while fl:
        k = rr.randrange(1, len(fl) + 1)
        x = 'xpr::add_flags<%s>(%s)' % (', '.join('meta::regex_flag::' + f for f in fl[:k]), x)
        fl = fl[k:]
    names = rx.cap_names(tree)
    meta = ''
    if names:
        meta = (' c.add(SELF, "groups", [](Input const &i, Out &o) { using R = std::remove_cvref_t<decltype(e)>; if (R::capture_count != %d) o.fail("capture_count is " + std::to_string(R::capture_count)); '
                'static char const *const names[] = {%s}; std::size_t k = 0; R::search(i.b, i.b + i.n).for_each_group([&](auto const &g) { if (k > %d || g.name() != std::string_view(names[k])) o.fail("name of group " + std::to_string(k)); ++k; }); });'
                % (len(names), ', '.join(['""'] + ['"%s"' % (n or '') for n in names]), len(names)))
    return 'namespace xpr = meta::xpr; using namespace meta::xpr::operators; { static constexpr auto e = %s; add_basic_of(c, e);%s }' % (x, meta)


def c15():
    R = Run('C15', F['NONEMPTY'] | F['BACKTRACK'] | F['FAILED'],
            'random trees printed as C++ expressions of the expression API (random choice among equivalent functions, operators, association, argument counts and embedded patterns) and, through the model, compared with the meaning of the equivalent '
            'pattern string. Non-trivial: the model consumed, backtracked, or failed after trying.')
    r = R.rng
    mk = Maker(c15_body)
    ok = random_part(R, mk, R.n(1000), lambda r: dict(depth=r.choice(DEPTHS), alphabet=r.choice([b'ab', b'abc', b'aA', b'ab1 ', b'a\n', b'\x80a']), names=.35, w=dict(look=1.6, cap=3.5, atomic=1.2, bref=1.2)), spellings=False, label='random')
    if not ok:
        return R

    def compose():
        """functions with several arguments and deep associativity"""
        g = Gen(r, depth=2, alphabet=r.choice([b'ab', b'abc']), names=.3)
        xs = tuple(g.gen(r.choice([0, 0, 1])) for _ in range(r.randrange(2, 6)))
        t = r.choice([('Q', xs), ('|', xs), ('(', True, ('Q', xs)), ('>', ('Q', xs)), ('L', r.random() < .5, r.random() < .4, ('Q', xs)), ('*', r.choice('glp'), *r.choice([(0, None), (1, None), (0, 1), (2, 2), (1, 3), (2, None), (0, 2)]), ('Q', xs)),
                      ('Q', (('|', xs), ('C', 0x61))), ('|', (('Q', xs), ('|', xs[:2])))])
        t = g.finish(t)
        if rx.compile_cost(t, True) > 60:
            return None
        return mk(t, None, flagset(r, .25), r.getrandbits(32))
    if not R.go(uniq(compose, R.n(500)), label='argument lists'):
        return R

    def repetition():
        """every repetition function, mode and kind of bounds on operands with a choice inside, where a later element may ask for another choice"""
        a, b, c = ('C', 0x61), ('C', 0x62), ('C', 0x63)
        x = r.choice([alt(a, lit('ab')), alt(lit('ab'), a), cap(alt(a, lit('ab'))), rep(a, 0, 1), rep(a, 1, 2, 'l'), alt(a, b), rep(a, 0, None), a, lit('ab'), cap(a), DOT, alt(E, a), cap(rep(a, 1, None, 'l')), seq(a, rep(b, 0, 1, 'l'))])
        lo, hi = r.choice([(0, None), (1, None), (0, 1), (1, 1), (2, 2), (3, 3), (4, 4), (0, 2), (1, 2), (1, 3), (2, 4), (2, None), (3, None), (0, 0)])
        t = rep(x, lo, hi, r.choice('glpp'))
        t = r.choice([lambda: seq(t, b), lambda: seq(t, c), lambda: seq(t, a), lambda: seq(cap(t), r.choice([a, b])), lambda: rep(t, 1, 2, r.choice('glp')), lambda: alt(seq(t, b), a), lambda: seq(a, t, b), lambda: t])()
        if rx.compile_cost(t, True) > 60:
            return None
        return mk(t, None, flagset(r, .3), r.getrandbits(32), subj=dict(alpha=3))
    R.go(uniq(repetition, R.n(300)), label='repetition functions')
    return R


# ---------------------------------------------------------------- C18
def c18():
    R = Run('C18', F['NONEMPTY'] | F['BACKTRACK'] | F['FAILED'],
            'units of 15 regexes; after each operation was checked once, all operations on all inputs of the unit are repeated in random interleavings with earlier results kept and read again, then the same from six threads over shared read-only inputs, and generators '
            'are advanced alternately; a further part runs under the thread sanitizer. All results are compared with the model. Non-trivial: the model consumed, backtracked, or failed after trying.',
            harness='pure_harness.hpp')
    r = R.rng
    mk = Maker(body('add_pure'), subj=dict(exh=80, guided=80, rand=20, long=1))
    R.eng.driver_args = ['40000' if not R.thorough else '120000', '6']
    R.impure = True
    P = lambda r: dict(depth=r.choice([2, 3, 3]), alphabet=r.choice(ALPHAS[:8]), w=dict(cap=4, bref=1.2))
    if not random_part(R, mk, R.n(520), P, label='interleavings and threads', batch=15):
        return R
    R.eng.driver_args = ['4000', '4']
    R.eng.env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=97'
    tsan = Toolchain('clang++', ('-O1', '-g0', '-fsanitize=thread'), name='tsan', extra_driver=('-fsanitize=thread',))
    random_part(R, mk, R.n(60), P, label='thread sanitizer', tc=tsan, batch=8)
    R.extra_cov['mixed_evaluations'] = R.eng.stats.get('mixed', 0)
    return R
