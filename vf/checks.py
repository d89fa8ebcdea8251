"""One function per property: generators, ways of performing the operation, and what counts as non-trivial."""
import random

from . import rx
from .rx import Gen, E, DOT
from .core import Run, Maker, basic_body, needs_backwards, other_iterators
from .engine import F, Toolchain, regex_type, flags_cpp, CheckError, JOBS
from .gens import *

FAST = dict(exh=500, guided=300, rand=80, maxlen=64, budget=4000)


def body(fn, share=.14):
    def b(tree, pattern, flags, seed):
        T = regex_type(pattern, flags)
        return '%s<%s>(c);' % (fn, T) + (other_iterators(tree, T, seed, share) if fn == 'add_all' else '')
    return b


def random_part(R, mk, n, profile, spellings=True, flags=flagset, label=None, tc=None, required=None, batch=None):
    r = R.rng

    def one():
        g = Gen(r, **profile(r))
        t = g.make()
        return mk(t, rx.spell(t, r) if spellings and r.random() < 0.6 else None, flags(r), r.getrandbits(32))
    return R.go(uniq(one, n), tc, batch, label=label)


# ---------------------------------------------------------------- C01
def c01():
    R = Run('C01', F['NONEMPTY'] | F['BACKTRACK'] | F['FAILED'],
            'random regex trees over all constructs plus rows of elements as people write them, printed with random spelling; inputs: all short '
            'strings over a pattern-specific alphabet, samples drawn from the tree and mutated, random and long strings; match, match_prefix and '
            'search compared with the reference model. Non-trivial: the model consumed input, backtracked or failed after trying something.')
    r = R.rng
    mk = Maker()
    if not random_part(R, mk, R.n(1500), lambda r: dict(depth=r.choice(DEPTHS + [4, 5]), alphabet=r.choice(ALPHAS)), label='random trees'):
        return R

    def one():
        t = flat(r, r.choice([b'ab', b'ab1 ', b'ab1-.', b'xy\n', b'aA0']))
        return mk(t, rx.spell(t, r), flagset(r), r.getrandbits(32))
    if not R.go(uniq(one, R.n(450)), label='rows'):
        return R

    def big():
        # larger alternations, sequences and nestings
        k = r.randrange(4)
        a = r.choice(ALPHAS[:8])
        g = Gen(r, depth=2, alphabet=a)
        if k == 0:
            t = ('|', tuple(lit(bytes(r.choice(a) for _ in range(r.randrange(1, 6)))) for _ in range(r.randrange(5, 30))))
        elif k == 1:
            t = ('Q', tuple(g.gen(1) for _ in range(r.randrange(8, 20))))
        elif k == 2:
            t = g.gen(1)
            for _ in range(r.randrange(5, 14)):
                t = r.choice([('(', None, t), ('>', t), ('Q', (t, ('C', r.choice(a)))), ('Q', (('C', r.choice(a)), t)), ('|', (t, ('C', r.choice(a)))),
                              ('|', (('C', r.choice(a)), t)), ('*', 'g', 0, 1, t)])
        else:
            t = lit(bytes(r.choice(a) for _ in range(r.choice([16, 31, 32, 33, 63, 64, 65, 100, 128, 200]))))
            if r.random() < .5:
                t = seq(t, g.gen(1))
        t = g.finish(t)
        if rx.compile_cost(t, True) > 260:
            return None
        return mk(t, None, flagset(r), r.getrandbits(32), subj=dict(maxlen=300))
    if not R.go(uniq(big, R.n(160)), label='large'):
        return R
    if not compose_part(R, mk, R.n(500)):
        return R
    huge_part(R, R.n(60))
    return R


# ---------------------------------------------------------------- C02
def c02():
    R = Run('C02', F['CAP'] | F['CAPROLL'],
            'random trees rich in capturing groups inside alternatives, repetitions, lookarounds and atomic groups; all groups of match, match_prefix '
            'and search compared with the model. Non-trivial: a group is non-empty in the result, or a capture was undone on the way.')
    r = R.rng
    mk = Maker()
    w = dict(cap=9, alt=5, rep=6, bref=1.2, look=1.2, atomic=1.2, anchor=.5, empty=.3)
    ok = random_part(R, mk, R.n(1350), lambda r: dict(w=w, depth=r.choice([2, 3, 3, 4]), alphabet=r.choice([b'ab', b'ab', b'abc', b'aA', b'a\n']), names=.2,
                                                      required=has('(')), label='random')
    if not ok:
        return R
    # a group that takes part in several iterations and is left out in some of them
    w2 = dict(cap=10, alt=6, rep=9, seq=5, look=.6, atomic=.8, bref=1.5)

    def one():
        g = Gen(r, w=w2, depth=3, alphabet=r.choice([b'ab', b'abc']), names=.1, required=lambda n: has('(')(n))
        inner = g.gen(2)
        t = ('*', r.choice('ggglllp'), r.choice([0, 0, 1, 2]), r.choice([None, None, 2, 3]), ('|', (inner, g.gen(1))) if r.random() < .6 else ('Q', (inner, g.gen(1))))
        if t[3] is not None and t[3] < t[2]:
            return None
        t = g.finish(('Q', (t, g.gen(1))) if r.random() < .6 else t)
        if not has('(')(t) or rx.compile_cost(t, True) > 60:
            return None
        return mk(t, None, flagset(r, .2), r.getrandbits(32), subj=dict(alpha=3, exh=800))
    if not R.go(uniq(one, R.n(550)), label='groups in repetitions'):
        return R

    def many():
        t = many_groups(r, r.choice([3, 4, 5, 6, 8, 10, 12]), r.choice([b'ab', b'abc']))
        return mk(t, None, flagset(r, .2), r.getrandbits(32), subj=dict(alpha=3))
    if not R.go(uniq(many, R.n(120)), label='many groups'):
        return R
    compose_part(R, mk, R.n(400), ops=['rep', 'rep', 'cap', 'cap', 'cap', 'alt', 'alt3', 'factor', 'twice', 'seq', 'atomic', 'look', 'neg'], required=has('('))
    return R


# ---------------------------------------------------------------- C03
BOUNDS = [(0, 0), (1, 1), (2, 2), (3, 3), (0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3), (2, 4), (2, 5), (3, 5), (0, None), (1, None), (2, None), (3, None), (4, None)]
BIGB = [(5, 5), (7, 7), (8, 8), (9, 9), (10, 10), (12, 12), (15, 15), (16, 16), (17, 17), (19, 19), (20, 20), (31, 31), (32, 32), (33, 33), (63, 63), (64, 64), (65, 65),
        (99, 99), (100, 100), (101, 101), (127, 127), (128, 128), (129, 129), (200, 200), (255, 255), (256, 256), (257, 257), (300, 300),
        (0, 10), (0, 16), (0, 100), (0, 255), (0, 256), (0, 300), (5, 10), (9, 11), (10, 20), (10, 12), (15, 17), (16, 32), (30, 35), (64, 65), (99, 101), (100, 110), (128, 130),
        (250, 260), (255, 257), (10, None), (12, None), (16, None), (31, None), (32, None), (64, None), (100, None), (128, None), (200, None), (256, None), (300, None)]


def c03():
    R = Run('C03', F['REP'] | F['GIVEBACK'] | F['EMPTYITER'],
            'a grid of bounds (0 to 300, equal, unequal, open) x greedy/lazy/possessive x operand kind x surrounding context x flags, plus random trees '
            'rich in nested quantifiers; inputs contain the operand repeated around both bounds. Non-trivial: the model made two or more iterations, '
            'a lazy step, or stopped at an empty iteration.')
    r = R.rng
    mk = Maker()
    w = dict(rep=10, alt=3, cap=2, look=.5, bref=.5, atomic=.8)
    ok = random_part(R, mk, R.n(700), lambda r: dict(w=w, depth=r.choice([2, 3, 3, 4]), alphabet=r.choice([b'ab', b'ab', b'abc', b'aA', b'a\n']), big=.1), label='random')
    if not ok:
        return R

    def trivial_operand():
        return r.choice([('C', 0x61), ('C', 0x61), DOT, ('K', 'w'), ('K', 'd'), ('K', 'S'), ('S', False, (('c', 0x61), ('c', 0x62))), ('S', True, (('c', 0x62),)),
                         ('S', False, (('r', 0x61, 0x66),)), ('|', (('C', 0x61), ('C', 0x62))), ('S', True, (('k', 'd'), ('c', 0x78)))])

    def operand():
        a, b = ('C', 0x61), ('C', 0x62)
        return r.choice([lit('ab'), cap(a), cap(lit('ab')), alt(a, lit('ab')), cap(alt(a, lit('ab'))), alt(lit('ab'), a), rep(a, 0, None), rep(a, 1, None), rep(a, 0, 1), rep(a, 1, 2),
                         cap(rep(a, 0, 1)), rep(alt(a, b), 1, 2, 'l'), cap(rep(a, 1, None, 'l')), ('>', alt(a, lit('ab'))), seq(a, rep(b, 0, 1)), seq(('L', True, False, a), DOT),
                         seq(('L', False, True, a), DOT), seq(cap(a), ('\\', 1)), cap(cap(a)), alt(cap(a), cap(b)), alt(cap(a), E), E, ('A', 'b'), ('L', True, False, a), seq(a, alt(b, E)),
                         rep(a, 0, None, 'l'), rep(a, 0, None, 'p'), rep(lit('ab'), 2, 2), cap(rep(DOT, 1, 3))])

    def context(x, last):
        a, b = ('C', 0x61), ('C', 0x62)
        f = rx.kids
        t = r.randrange(15)
        if t < 4:
            return x
        if t == 4:
            return seq(x, a)
        if t == 5:
            return seq(x, r.choice([b, lit('ab'), last]))
        if t == 6:
            return cap(x)
        if t == 7:
            return seq(cap(x), r.choice([a, b, ('\\', 1 if not rx.ncaps(x) else 1)]))
        if t == 8:
            return ('Q', (('L', False, r.random() < .3, x), r.choice([a, b, DOT])))
        if t == 9:
            return alt(seq(x, b), a)
        if t == 10:
            return alt(b, x)
        if t == 11:
            return seq(r.choice([a, b]), x, r.choice([a, b]))
        if t == 12:
            return seq(x, r.choice([rep(a, 0, None), rep(a, 1, None, 'l'), ('A', '$'), ('A', 'b')]))
        if t == 13:
            return seq(('L', True, r.random() < .3, x), rep(DOT, 0, None))
        return ('>', x)

    def small():
        x = trivial_operand() if r.random() < .45 else operand()
        lo, hi = r.choice(BOUNDS)
        t = rep(x, lo, hi, r.choice('glp'))
        t = rx.normalize(context(t, x if rx.trivial(x) else ('C', 0x61)))
        if rx.compile_cost(t, True) > 60:
            return None
        return mk(t, rx.spell(t, r) if r.random() < .4 else None, flagset(r, .3), r.getrandbits(32))
    if not R.go(uniq(small, R.n(900)), label='grid, small bounds'):
        return R

    def large():
        lo, hi = r.choice(BIGB)
        triv = r.random() < .8
        x = trivial_operand() if triv else r.choice([lit('ab'), cap(('C', 0x61)), alt(('C', 0x61), lit('ab')), cap(alt(('C', 0x61), ('C', 0x62)))])
        if not triv and ((hi is not None and hi - lo > 20) or lo > 130):
            return None
        t = rep(x, lo, hi, r.choice('glp'))
        t = rx.normalize(context(t, x if rx.trivial(x) else ('C', 0x61)))
        fl = flagset(r, .3)
        if not triv and 'unroll' in fl and lo > 40:
            return None
        top = max(lo, hi or 0)
        m = 1 if triv else 2
        ex = []
        s = b'ab' if x == lit('ab') else b'a'
        for n in sorted({0, 1, lo - 1, lo, lo + 1, top - 1, top, top + 1, top + 2, lo // 2, 2 * lo, lo + 7}):
            if n < 0:
                continue
            for tail in (b'', b'a', b'b', b'ab', b'x'):
                for head in (b'', b'b'):
                    q = head + s * n + tail
                    if len(q) < 4000:
                        ex.append(q)
                        if triv and n > 2:
                            i = r.randrange(len(q))
                            ex.append(q[:i] + r.choice([b'b', b'\n', b'1']) + q[i + 1:])
        r.shuffle(ex)
        return mk(t, None, fl, r.getrandbits(32), extra=ex[:90], subj=dict(exh=30, guided=60, rand=10, maxlen=top * m + 40, budget=60000, long=6))
    if not R.go(uniq(large, R.n(420)), label='grid, large bounds'):
        return R
    if not compose_part(R, mk, R.n(300), ops=['rep', 'rep', 'rep', 'reps', 'atomic', 'alt', 'twice', 'cap', 'seq'], required=has('*')):
        return R
    a, b = ('C', 0x61), ('C', 0x62)
    if not rep_pairs(R, mk, [a, alt(a, lit('ab')), cap(a), alt(a, b), lit('ab'), cap(alt(lit('ab'), a))]):
        return R
    huge_part(R, R.n(90), required=has('*'))
    return R


# ---------------------------------------------------------------- C04
def c04():
    R = Run('C04', F['BEHIND'] | F['AHEAD'] | F['NEGLOOK'] | F['NESTLOOK'],
            'random trees with lookaheads and lookbehinds in every position (nested, quantified, with groups, backreferences, anchors, atomic groups and '
            'quantifiers inside), compared with a model that matches lookbehind content backwards. Non-trivial: the content of a lookaround read a '
            'character of the input, or a negative or nested lookaround was decided.')
    r = R.rng
    mk = Maker(body('add_all'), subj=dict(exh=300, guided=200))
    mkb = Maker()
    w = dict(look=7, cap=2.5, bref=1, anchor=1.2, alt=3, rep=4)
    ok = random_part(R, mkb, R.n(1000), lambda r: dict(w=w, depth=r.choice([2, 3, 3, 4]), alphabet=r.choice([b'ab', b'ab', b'abc', b'aA', b'a\n', b'a ']), required=has('L')), label='random')
    if not ok:
        return R

    def behind():
        g = Gen(r, w=dict(look=1.2, cap=3, bref=1.2, anchor=1.2, rep=6, seq=8, alt=3), depth=3, alphabet=r.choice([b'ab', b'abc', b'a\n', b'aA']), names=.15)
        inner = g.gen(3)
        neg = r.random() < .3
        pre = g.gen(1) if r.random() < .5 else E
        post = g.gen(1) if r.random() < .7 else E
        x = ('L', r.random() < .15, neg, inner)
        if r.random() < .2:
            x = r.choice([('(', None, x), ('*', r.choice('glp'), 0, r.choice([1, None]), x), ('|', (x, ('C', 0x61))), ('>', x)])
        t = g.finish(('Q', (pre, x, post)))
        if rx.compile_cost(t, True) > 70:
            return None
        return mkb(t, None, flagset(r), r.getrandbits(32), subj=dict(alpha=3, exh=700))
    if not R.go(uniq(behind, R.n(700)), label='lookbehind'):
        return R
    ok = random_part(R, mk, R.n(220), lambda r: dict(w=w, depth=r.choice([2, 3]), alphabet=r.choice([b'ab', b'a\n', b'a ']), required=has('L')), label='iteration')
    if not ok:
        return R
    compose_part(R, mkb, R.n(400), ops=['look', 'look', 'neg', 'neg', 'rep', 'rep', 'alt', 'alt3', 'factor', 'twice', 'seq', 'cap', 'atomic', 'reps'], required=has('L'))
    return R


# ---------------------------------------------------------------- C05
def c05():
    R = Run('C05', F['BREF'],
            'random trees rich in groups and references (by number and by name, before, inside and after the group, in alternatives, repetitions, lookarounds, '
            'ten and more groups, with icase). Non-trivial: the content of a set, non-empty group was compared with the input.')
    r = R.rng
    mk = Maker()
    w = dict(bref=6, cap=6, rep=5, alt=3, look=1, atomic=.6)
    need = lambda n: has('\\')(n) and has('(')(n)
    ok = random_part(R, mk, R.n(1100), lambda r: dict(w=w, depth=r.choice([2, 3, 3, 4]), alphabet=r.choice([b'ab', b'ab', b'aA', b'aAbB', b'a\xe1\xc1', b'@`a', b'[{a']), names=.4, required=need),
                     flags=lambda r: flagset(r, .4), label='random')
    if not ok:
        return R

    def many():
        n = r.choice([9, 10, 10, 11, 11, 12, 13, 15, 20])
        a = r.choice([b'abc', b'ab', b'aA'])
        gs = []
        for i in range(n):
            x = r.choice([('C', r.choice(a)), ('S', False, (('r', a[0], a[-1]),)) if a[0] <= a[-1] else ('K', 'w'), rep(('C', r.choice(a)), 0, 2), DOT])
            gs.append(('(', True if r.random() < .25 else None, x))
        tail = []
        for _ in range(r.randrange(1, 4)):
            tail.append(('\\', None if r.random() < .2 else r.choice([1, n, n - 1, 10 if n >= 10 else 9, r.randrange(1, n + 1)])))
            if r.random() < .3:
                tail.append(('C', r.choice(b'0123a')))
        if r.random() < .2:
            tail = [('*', r.choice('glp'), r.choice([0, 1]), r.choice([2, None]), x) for x in tail]
        if r.random() < .15:
            tail = [('L', False, r.random() < .3, ('Q', tuple(tail)))]
        g = Gen(r, alphabet=a)
        t = g.finish(('Q', tuple(gs + tail)))
        return mk(t, rx.spell(t, r, .05), flagset(r, .3), r.getrandbits(32), subj=dict(exh=100, guided=400, rand=50))
    if not R.go(uniq(many, R.n(200)), label='ten and more groups'):
        return R

    def shape():
        """references in every relation to their group"""
        a = r.choice([b'ab', b'aA', b'abc'])
        g = Gen(r, depth=2, alphabet=a, names=0)
        x = r.choice([rep(('C', a[0]), 1, None), g.gen(1), rep(('S', False, (('c', a[0]), ('c', a[1]))), 1, 3), rep(DOT, 0, None, 'l'), lit('ab'), rep(DOT, 1, None)])
        nm = r.choice([None, None, 'n', 'name_1', '_'])
        ref = ('\\', nm if nm and r.random() < .7 else 1)
        G = ('(', nm, x)
        t = r.choice([
            seq(G, ref), seq(G, rep(ref, 1, None)), seq(G, rep(ref, 2, 2)), seq(rep(G, 0, 1), ref), seq(alt(G, ('C', a[0])), ref), seq(G, g.gen(1), ref), seq(('L', True, False, G), ref),
            rep(seq(G, ref), 1, None), rep(alt(seq(G, ('C', a[1])), ref), 1, None), seq(ref, G), rep(seq(ref, G), 1, 3), seq(G, ('L', True, r.random() < .5, ref), rep(DOT, 0, 2)),
            seq(G, rep(DOT, 0, 1), ('L', False, r.random() < .4, ref)), ('Q', (('L', False, False, seq(ref, G)), DOT)), ('Q', (('L', False, False, seq(G, ref)), DOT)),
            seq(G, ('>', rep(ref, 0, None)), ('C', a[0])), seq(('(', nm, seq(x, rep(('\\', 1), 0, 1))), ('C', a[1])), seq(G, rep(ref, 0, None, r.choice('glp')), ('C', a[0])),
            seq(('L', True, True, G), ref, DOT), seq(cap(G[2], nm), cap(ref), ('\\', 2)), seq(('>', G), ref)])
        t = g.finish(t)
        if rx.compile_cost(t, True) > 60:
            return None
        return mk(t, None, flagset(r, .35), r.getrandbits(32), subj=dict(alpha=3, exh=800))
    if not R.go(uniq(shape, R.n(600)), label='relations'):
        return R

    def long_content(r):
        n = r.choice(HUGE_BOUNDS)
        x = r.choice([rep(('C', 0x61), n, n), rep(DOT, n, n, 'p'), rep(('S', False, (('c', 0x61), ('c', 0x62))), 1, None, r.choice('gp')), rep(('C', 0x61), 0, n), rep(('S', True, (('c', 0x62),)), n, None)])
        nm = r.choice([None, 'n'])
        ref = ('\\', nm or 1)
        return seq(cap(x, nm), r.choice([E, E, ('C', 0x62), rep(('C', 0x62), 0, None), rep(('C', 0x62), 0, 1, 'l')]), r.choice([ref, ref, ('L', True, r.random() < .3, ref), ('>', ref), ('Q', (ref, ref))]), r.choice([E, E, ('C', 0x61), DOT]))
    huge_part(R, R.n(60), make=long_content, required=has('\\'))
    return R


# ---------------------------------------------------------------- C06
ALLB = [bytes([i]) for i in range(256)]


def c06():
    R = Run('C06', F['MATCH'] | F['FAILED'] | F['NONEMPTY'],
            'every byte value as a raw literal, as an escape, as \\xHH in both cases, alone and in sets and ranges, and random sets and classes, with and without icase and '
            'dotall, in several contexts; each is matched against all 256 single-byte inputs (embedded in the context). All byte x byte pairs are covered exhaustively for '
            'raw and hex literals. Non-trivial: the model accepted a byte, or rejected the input after testing more than one position or alternative.')
    r = R.rng
    R.eng.mask = 0xffffffff
    mk = Maker(body('add_match_search'), subj=dict(exh=0, guided=0, rand=4, maxlen=8, long=0))
    one = Maker(lambda t, p, f, s: 'add_search<%s>(c);' % regex_type(p, f), subj=dict(exh=0, guided=0, rand=0, maxlen=8, long=0))

    specs = []
    META = rx.META
    for b in range(256):
        # raw literal (quoted only if it has a meaning), hexadecimal
        raw = bytes([b]) if b not in META else b'\\' + bytes([b])
        hx = b'\\x' + r.choice([b'%02x', b'%02X'])[:] % b
        t = ('C', b)
        for fl in ((), ('icase',)):
            specs.append(one(t, raw, fl, b, extra=ALLB))
            specs.append(one(t, hx, fl, b, extra=ALLB))
        neg = r.random() < .5
        form = r.choice([hx, raw if b not in b'\\]^-' else b'\\' + bytes([b])])
        if form == b'\\b' or (len(form) == 2 and form[1:] in b'[({|.*+?$)}'):
            form = hx
        specs.append(one(('S', neg, (('c', b),)), b'[' + (b'^' if neg else b'') + form + b']', ('icase',) if r.random() < .5 else (), b, extra=ALLB))
    # every escape letter outside and inside sets
    for b in range(256):
        p = b'\\' + bytes([b])
        if b in b'123456789kxAZbB':
            continue
        from . import refparse
        t, err = refparse.parse(p)
        if err is None and not refparse.semantic_problems(t):
            specs.append(one(t, p, ('icase',) if r.random() < .3 else (), b, extra=ALLB))
        for neg in (b'', b'^'):
            q = b'[' + neg + p + b']'
            t, err = refparse.parse(q)
            if err is None and not refparse.semantic_problems(t) and (not neg or r.random() < .3):
                specs.append(one(t, q, ('icase',) if r.random() < .3 else (), b, extra=ALLB))
    for f in ((), ('dotall',), ('icase',), ('multiline',), ('unroll', 'ungreedy')):
        specs.append(one(DOT, b'.', f, 1, extra=ALLB))
        for k in 'dDwWsSRN':
            specs.append(one(('K', k), None, f, 1, extra=ALLB))
            specs.append(one(('S', False, (('k', k),)), None, f, 1, extra=ALLB))
            specs.append(one(('S', True, (('k', k),)), None, f, 1, extra=ALLB))
    if not R.go(specs, batch=60, label='single bytes, escapes, classes'):
        return R

    def rb():
        t = r.random()
        if t < .35:
            return r.randrange(256)
        if t < .7:
            return r.choice(b'abyzABYZ[\\]^_`@{/:09 \t\n\r\x0b\x0c\x00\x7f\x80\xff')
        return r.choice(b'agzAGZ05-^]')

    def rset():
        items = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6, 10])):
            t = r.random()
            if t < .4:
                items.append(('c', rb()))
            elif t < .8:
                a, b = sorted([rb(), rb()])
                if r.random() < .2:
                    b = a
                items.append(('r', a, b))
            else:
                items.append(('k', r.choice('dwsRDWSN')))
        return ('S', r.random() < .4, tuple(items))

    def sets():
        x = rset()
        t = r.randrange(12)
        A, B = ('C', 0x61), ('C', 0x62)
        if t < 5:
            tree, ex = x, ALLB
        elif t == 5:
            tree, ex = rep(x, 2, 2), [c + d for c in ALLB for d in (c, b'a')]
        elif t == 6:
            tree, ex = alt(B, x), ALLB
        elif t == 7:
            tree, ex = seq(A, x, B), [b'a' + c + b'b' for c in ALLB]
        elif t == 8:
            tree, ex = ('Q', (DOT, ('L', False, r.random() < .4, x))), ALLB
        elif t == 9:
            tree, ex = seq(('L', True, r.random() < .4, x), DOT), ALLB
        elif t == 10:
            tree, ex = seq(rep(x, 0, None, r.choice('glp')), A), [c + b'a' for c in ALLB] + [c + c + b'a' for c in ALLB]
        else:
            y = rset()
            tree, ex = cap(alt(x, y)), ALLB
        return mk(tree, rx.spell(tree, r, .1), tuple(f for f in ('icase', 'dotall') if r.random() < .45) + (('unroll',) if r.random() < .15 else ()), r.getrandbits(32), extra=ex)
    if not R.go(uniq(sets, R.n(2100)), label='sets'):
        return R
    # the text between the brackets: all pairs joined by '-', and random texts
    from . import refparse
    items = [b'a', b'g', b'Z', b'0', b'-', b'^', b'\\d', b'\\w', b'\\s', b'\\R', b'\\D', b'\\W', b'\\S', b'\\N', b'\\n', b'\\t', b'\\b', b'\\0', b'\\x41', b'\\xe9', b'\\]', b'\\-', b'\\\\', b'.', b'[', b'(', b'|', b'$', b'{', b'a-f', b'\\x30-9', b',', b'\xe9', b'\n', b'+--']
    texts = [x + b'-' + y for x in items for y in items]
    for _ in range(R.n(900)):
        texts.append(b''.join(r.choice(items + [b'-'] * 5) for _ in range(r.choice([2, 3, 3, 4, 5]))))
    specs, seen = [], set()
    for x in texts:
        q = b'[' + (b'^' if r.random() < .25 else b'') + x + b']'
        if q in seen:
            continue
        seen.add(q)
        t, err = refparse.parse(q)
        if err is None and not refparse.semantic_problems(t):
            specs.append(one(t, q, tuple(f for f in ('icase', 'dotall') if r.random() < .3), 1, extra=ALLB))
    R.go(specs, batch=60, label='set texts')
    R.extra_cov['exhaustive_part'] = 'all 256 bytes as raw and as \\xHH literal against all 256 one-byte inputs'
    return R


# ---------------------------------------------------------------- C07
def c07():
    R = Run('C07', F['ANCHOR'],
            'random trees rich in ^ $ \\A \\Z \\b \\B (in alternatives, repetitions, groups, lookaheads and lookbehinds, next to every kind of element) with and without multiline; '
            'match, match_prefix, search, searcher and tokenizer on inputs dense in line breaks and word boundaries. Non-trivial: the model decided an anchor.')
    r = R.rng
    mk = Maker(body('add_all', .3), subj=dict(exh=500, guided=200))
    w = dict(anchor=8, look=1.3, cap=1.5, rep=4, alt=3, bref=.3, dot=2, cls=2)
    fl = lambda r: tuple(f for f, p in (('icase', .1), ('dotall', .3), ('multiline', .55), ('ungreedy', .1), ('unroll', .1)) if r.random() < p)
    ok = random_part(R, mk, R.n(1400), lambda r: dict(w=w, depth=r.choice([2, 2, 3, 3, 4]), alphabet=r.choice([b'a\n', b'a\n\r', b'a\r', b'a ', b'a_ ', b'ab', b'a-1', b'a\x80', b'Z{a', b'@A ', b'`z', b'/09:']), required=has('A')), flags=fl, label='random')
    if not ok:
        return R

    # every anchor between every two neighbours: all pairs of bytes for the boundary
    def pair():
        k = r.choice('bB^$AZ')
        a = ('A', k)
        t = r.choice([seq(DOT, a, DOT), seq(a, DOT), seq(DOT, a), ('Q', (DOT, ('L', False, r.random() < .5, seq(a, DOT)))), seq(('L', True, r.random() < .5, seq(DOT, a)), DOT),
                      rep(seq(a, DOT), 1, 3), alt(seq(a, ('C', 0x61)), seq(DOT, a))])
        ex = []
        for _ in range(700):
            c = bytes([r.randrange(256)])
            d = bytes([r.choice([r.randrange(256), r.choice(b'aZ09_@[`{/: \n\r\t')])])
            ex.append(r.choice([c + d, d + c, c + d + c, b'a' + c + b'\n', c]))
        return mk(t, None, ('dotall',) + (('multiline',) if r.random() < .5 else ()), r.getrandbits(32), extra=ex, subj=dict(exh=50, guided=20))
    R.go(uniq(pair, R.n(60), tries=3), label='pairs of bytes around an anchor')
    return R


# ---------------------------------------------------------------- C08
def flag_forms(r, flags):
    """C++ types that should be the same regex with the set `flags`; P stands for the pattern"""
    Q = lambda fs: ''.join(', meta::regex_flag::' + f for f in fs)
    L = lambda fs: ', '.join('meta::regex_flag::' + f for f in fs)
    fs = list(flags)

    def perm(dup=True):
        x = fs[:]
        if dup:
            x += [r.choice(fs) for _ in range(r.choice([0, 1, 2, 3]))] if fs else []
        r.shuffle(x)
        return x
    junk = [f for f in rx.FLAGS if r.random() < .5]
    cut = r.randrange(len(fs) + 1)
    x = perm()
    forms = [('template arguments', 'meta::regex<P%s>' % Q(perm())), ('repeated template arguments', 'meta::regex<P%s>' % Q(x + x)),
             ('add_flags', 'meta::regex<P%s>::template add_flags<%s>' % (Q(fs[:cut]), L(fs[cut:] + fs[:r.randrange(cut + 1)]))),
             ('chained add_flags', 'meta::regex<P>' + ''.join('::template add_flags<%s>' % L([f]) for f in perm())),
             ('clear_flags and add_flags', 'meta::regex<P%s>::clear_flags::template add_flags<%s>' % (Q(junk), L(perm()))),
             ('xpr::add_flags', 'decltype(meta::xpr::add_flags<%s>(meta::regex<P%s>{}))' % (L(fs[cut:]), Q(fs[:cut])) if fs[cut:] else 'decltype(meta::xpr::add_flags<>(meta::regex<P%s>{}))' % Q(fs)),
             ('xpr::clear_flags and xpr::add_flags', 'decltype(meta::xpr::add_flags<%s>(meta::xpr::clear_flags(meta::regex<P%s>{})))' % (L(perm()), Q(junk))),
             ('xpr::regex with add_flags', 'decltype(meta::xpr::add_flags<%s>(meta::xpr::regex<P>))' % L(perm()))]
    if not fs:
        forms += [('clear_flags', 'meta::regex<P%s>::clear_flags' % Q(junk))]
    return forms


def c08():
    R = Run('C08', F['NONEMPTY'] | F['BACKTRACK'] | F['FAILED'],
            'random trees of all constructs with random flag sets (mostly several flags); each pattern is instantiated through three randomly chosen ways of supplying the same set '
            '(order, duplicates, add_flags, chained, clear_flags, xpr functions), one of them with unroll toggled, all compared with the model. Non-trivial: the model consumed, '
            'backtracked, or failed after trying.')
    r = R.rng

    def b(tree, pattern, flags, seed):
        rr = random.Random('flags%d' % seed)
        base = [f for f in flags if f != 'unroll']
        sets = [list(flags), list(flags), base + ([] if 'unroll' in flags else ['unroll'])]
        out = []
        for s in sets:
            name, typ = rr.choice(flag_forms(rr, s))
            out.append('{ using R = %s; c.add(MATCH, "%s", [](Input const &i, Out &o) { o.rs.push_back(conv(R::match(i.b, i.b + i.n), i.b)); });'
                       'c.add(SEARCH, "%s", [](Input const &i, Out &o) { o.rs.push_back(conv(R::search(i.b, i.b + i.n), i.b)); }); }'
                       % (typ.replace('P', rx.cpp_string(pattern), 1), name, name))
        out.append(other_iterators(tree, regex_type(pattern, sets[rr.choice([0, 2])]), seed, .3))
        return '\n'.join(out)
    mk = Maker(b)
    w = dict(dot=3, anchor=2, set=3, rep=6, cls=1.5, bref=1)
    fl = lambda r: tuple(f for f in rx.FLAGS if r.random() < .5)
    random_part(R, mk, R.n(1300), lambda r: dict(w=w, depth=r.choice([2, 2, 3, 3, 4]), alphabet=r.choice([b'aA', b'aAbB', b'a\nA', b'ab\n', b'a\r', b'zZ{', b'@A`a', b'ab'])), flags=fl, label='random')
    return R


# ---------------------------------------------------------------- C11
def c11():
    R = Run('C11', F['MULTI'] | F['NONEMPTY'],
            'random trees; searcher, tokenizer, find_all and tokenize over the same inputs compared with the model (which continues after the previous match and stops at the first failure '
            'or empty match), and random histories of next, call, active, copy, assign and calls after the end on up to five generators. Non-trivial: the sequence has a non-empty match.',
            harness='gen_harness.hpp')
    r = R.rng
    bd = lambda t, p, f, s: 'add_gen<%s, %d>(c);%s' % (regex_type(p, f), s // 16 % 3, ' add_gen_ranges<%s, %d>(c);' % (regex_type(p, f), s // 16 % 3) if s % 10 == 0 else '')
    mk = Maker(bd, subj=dict(exh=350, guided=250, rand=80, long=4))
    w = dict(anchor=1.4, look=1.6, rep=5, cap=2)
    ok = random_part(R, mk, R.n(340), lambda r: dict(w=w, depth=r.choice([1, 2, 2, 3, 3]), alphabet=r.choice(ALPHAS)), label='random')
    if not ok:
        return R

    def small():
        g = Gen(r, depth=r.choice([1, 2]), alphabet=r.choice([b'ab', b'a\n', b'a ', b'abc']), modes='gggllp', w=dict(look=1.5, anchor=2))
        t = g.gen(g.depth)
        t = g.finish(r.choice([t, alt(t, ('C', 0x61)), alt(t, ('K', 'w')), rep(t, 0, None), rep(t, 1, 2, 'l'), seq(('L', False, r.random() < .4, ('C', 0x61)), t), seq(('A', r.choice('^bBA')), t), seq(t, ('A', r.choice('$bBZ'))),
                               seq(t, ('L', True, r.random() < .4, ('C', 0x61)))]))
        if rx.compile_cost(t, True) > 50:
            return None
        return mk(t, None, flagset(r, .3), r.getrandbits(32))
    R.go(uniq(small, R.n(340)), label='small')
    return R


# ---------------------------------------------------------------- C12
CONTAINERS = [('"string"', 'MakeC<std::string>{}', 2), ('"vector"', 'MakeC<std::vector<char>>{}', 2), ('"deque"', 'MakeC<std::deque<char>>{}', 2), ('"list"', 'MakeC<std::list<char>>{}', 1),
              ('"forward_list"', 'MakeC<std::forward_list<char>>{}', 0), ('"string_view"', 'MakeView{}', 2), ('"span"', 'MakeSpan{}', 2), ('"heap block"', 'MakeHeap{}', 2)]


def c12_body(kind):
    def b(tree, pattern, flags, seed):
        rr = random.Random('it%d' % seed)
        low = 1 if needs_backwards(tree) else 0
        T = regex_type(pattern, flags)
        out = []
        if kind == 'checked':
            cats = list(range(low, 3))
            rr.shuffle(cats)
            for c in cats[:2]:
                out.append('add_checked<%s, %d, %s>(c);' % (T, c, 'true' if rr.random() < .3 else 'false'))
            if rr.random() < .35:
                out.append('add_reverse<%s, std::%s>(c, "reverse iterators");' % (T, rr.choice(['string', 'vector<char>', 'deque<char>', 'list<char>'])))
            if rr.random() < .2:
                out.append('add_mutable<%s>(c);' % T)
        elif kind == 'containers':
            for n, m, c in rr.sample([x for x in CONTAINERS if x[2] >= low], 2):
                out.append('add_container<%s>(c, %s, %s);' % (T, n, m))
            if rr.random() < .5:
                n, m = rr.choice([('"transform view"', 'ViewTransform'), ('"filter view"', 'ViewFilter'), ('"join view"', 'ViewJoin'), ('"reverse view"', 'ViewReverse')])
                out.append('add_view<%s>(c, %s, %s{});' % (T, n, m))
            if rr.random() < .5:
                out.append('add_cstring<%s>(c);' % T)
        elif kind == 'sanitized':
            out.append('add_container<%s>(c, "heap block", MakeHeap{});' % T)
        elif kind == 'debug':
            for n, m, c in rr.sample([x for x in CONTAINERS[:6] if x[2] >= low], 2):
                out.append('add_container<%s>(c, %s, %s);' % (T, n, m))
        return '\n'.join(out)
    return b


def c12():
    R = Run('C12', F['NONEMPTY'] | F['BACKTRACK'] | F['FAILED'],
            'random trees run on forward, bidirectional and random access iterators that check every dereference, movement and comparison against the bounds of the input, on standard containers, views and reverse '
            'iterators, on exactly sized heap blocks under address and undefined behaviour sanitizers, and with checked standard iterators; all compared with the model. Lookbehinds and word boundaries are '
            'only used with bidirectional iterators, as documented. Non-trivial: the model consumed, backtracked, or failed after trying.',
            harness='iter_harness.hpp')
    r = R.rng
    W = dict(rep=6, cap=3, bref=1.2, anchor=1, seq=8)
    P = lambda r: dict(w=W, depth=r.choice([2, 3, 3, 4]), alphabet=r.choice(ALPHAS), big=.12, **(dict(behind_ok=False, wb_ok=False) if r.random() < .45 else {}))
    fl = lambda r: flagset(r, .4)
    S = dict(exh=350, guided=250, rand=60, long=4)
    if not random_part(R, Maker(c12_body('checked'), subj=S), R.n(320), P, flags=fl, label='checked iterators'):
        return R
    if not random_part(R, Maker(c12_body('containers'), subj=dict(S, exh=200, guided=150)), R.n(130), P, flags=fl, label='containers and views'):
        return R
    san = Toolchain('clang++', ('-O1', '-g0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'), name='san', extra_driver=('-fsanitize=address,undefined',))
    R.eng.env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0'
    if not random_part(R, Maker(c12_body('sanitized'), subj=dict(S, exh=150, guided=120, long=2)), R.n(110), P, flags=fl, label='sanitizers', tc=san, batch=20):
        return R
    dbg = Toolchain('g++', ('-O1', '-D_GLIBCXX_DEBUG'), name='dbg')
    random_part(R, Maker(c12_body('debug'), subj=dict(S, exh=150, guided=120, long=2)), R.n(70), P, flags=fl, label='checked standard iterators', tc=dbg, batch=12)
    return R


# ---------------------------------------------------------------- C16
def c16():
    R = Run('C16', F['EMPTYITER'],
            'random trees in which an unbounded quantifier has an operand that can match the empty string (optional, starred, empty groups, lookarounds, anchors, references to empty groups), nested and in every mode '
            'and direction; the operation must end and agree with the model. Non-trivial: the model stopped an unbounded repetition because an iteration consumed nothing.',
            harness='iter_harness.hpp', hang=12)
    r = R.rng

    def b(tree, pattern, flags, seed):
        T = regex_type(pattern, flags)
        x = 'add_basic<%s>(c);' % T
        if seed % 3 == 0:
            low = 1 if needs_backwards(tree) else 0
            x += 'add_checked<%s, %d>(c);' % (T, random.Random(seed).choice(range(low, 3)))
        return x
    mk = Maker(b, subj=dict(exh=400, guided=200, rand=60, maxlen=24, budget=6000, long=1))
    loops = lambda n: any(x[0] == '*' and x[3] is None and rx.nullable(x[4]) for x in rx.walk(n))
    w = dict(rep=9, empty=1.5, look=2, anchor=2, bref=1.6, cap=4, alt=4, atomic=1.3)
    reps = [(0, None), (0, None), (1, None), (2, None), (0, 1), (0, 2), (1, 2), (2, 2), (0, 0), (3, None)]
    ok = random_part(R, mk, R.n(800), lambda r: dict(w=w, depth=r.choice([2, 3, 3, 4]), alphabet=r.choice([b'ab', b'ab', b'a\n', b'a ', b'aA']), reps=reps, required=loops), label='random')
    if not ok:
        return R

    def direct():
        """one nullable operand of a chosen kind directly under an unbounded quantifier, in a context"""
        a, b_ = ('C', 0x61), ('C', 0x62)
        m = lambda: r.choice('glp')
        ops = [E, cap(E), ('A', r.choice('^$AZbB')), ('L', r.random() < .5, r.random() < .5, r.choice([a, E, b_])), rep(a, 0, None, m()), rep(a, 0, 1, m()), rep(a, 0, 0, m()), cap(rep(a, 0, None, m())),
               alt(a, E), alt(E, a), alt(cap(a), E), seq(rep(a, 0, 1, m()), rep(b_, 0, 1, m())), ('>', rep(a, 0, None)), seq(cap(rep(a, 0, 1)), ('\\', 1)), cap(seq(('L', True, False, a), rep(a, 0, 1))),
               rep(rep(a, 0, None, m()), 0, None, m()), rep(cap(rep(a, 0, 1, m())), 2, 2, m()), rep(alt(a, E), 1, 2, m()), rep(E, 2, 3), seq(('A', 'b'), rep(a, 0, None)), alt(('A', '$'), a), rep(cap(alt(a, E)), 0, 2, m()),
               ('|', (rep(a, 0, None, m()), rep(b_, 0, None, m()))), alt(seq(a, ('\\', 1)), E), cap(alt(('\\', 1), a)), ('\\', 1), seq(('\\', 1), rep(a, 0, 1)), alt(('L', False, False, a), b_)]
        x = r.choice(ops)
        t = rep(x, r.choice([0, 0, 1, 2]), None, m())
        if r.random() < .4:
            t = rep(r.choice([t, cap(t), alt(t, b_), seq(t, rep(b_, 0, 1))]), r.choice([0, 1]), None, m())
        if '\\' in [y[0] for y in rx.walk(t)] and not rx.ncaps(t):
            t = seq(cap(rep(a, 0, 1)), t)
        t = r.choice([t, seq(t, b_), seq(cap(t), rep(a, 0, 1)), ('Q', (('L', False, r.random() < .3, t), DOT)), seq(('L', True, r.random() < .3, t), DOT), alt(seq(t, b_), a), seq(rep(a, 0, 1), t)])
        t = rx.normalize(rx.fix_refs(t))
        if rx.compile_cost(t, True) > 60:
            return None
        return mk(t, None, flagset(r, .3, pool=['multiline', 'ungreedy', 'unroll', 'icase']), r.getrandbits(32), subj=dict(alpha=2, exh=600))
    R.go(uniq(direct, R.n(650)), label='nullable operands')
    return R


# ---------------------------------------------------------------- C17
def c17_body(tree, pattern, flags, seed):
    T = regex_type(pattern, flags)
    names = rx.cap_names(tree)
    n = len(names)
    chk = ['if (R::capture_count != %d) o.fail("capture_count is " + std::to_string(R::capture_count) + ", not %d");' % (n, n),
           'auto r = R::search(i.b, i.b + i.n); using Q = decltype(r);',
           'if (std::tuple_size_v<Q> != %d || Q::group_count != %d) o.fail("group_count is " + std::to_string(Q::group_count));' % (n + 1, n + 1),
           'static char const *const names[] = {%s}; std::size_t k = 0;' % ', '.join(['nullptr'] + ['nullptr' if x is None else '"%s"' % x for x in names]),
           'r.for_each_group([&](auto const &g) { bool h = names[k] != nullptr; if (g.has_name() != h) o.fail("has_name() of group " + std::to_string(k) + " is wrong");'
           ' if (g.name() != std::string_view(h ? names[k] : "")) o.fail("name() of group " + std::to_string(k) + " is " + std::string(g.name())); ++k; });',
           'if (k != %d) o.fail("for_each_group visits " + std::to_string(k) + " groups");' % (n + 1)]
    for j, x in enumerate(names, 1):
        if x is not None:
            chk.append('{ auto const &g = r.template group<"%s">(); auto const &h = r.template group<%d>(); if (g.begin() != h.begin() || g.end() != h.end() || g.length() != h.length())'
                       ' o.fail("group<%s>() is not group<%d>()"); if (&g != &meta::get_group_named<"%s">(r)) o.fail("get_group_named differs"); }' % (x, j, x, j, x))
    return 'add_match_search<%s>(c); c.add(SELF, "metadata", [](Input const &i, Out &o) { using R = %s; [&](auto i2) { auto const &i = i2; %s }(i); });' % (T, T, ' '.join(chk))


def c17():
    R = Run('C17', F['CAP'],
            'random trees with up to 24 named and unnamed groups (names of varied length and characters) nested in all constructs; capture_count, group_count, names, access by name and the content of every group compared '
            'with numbering by opening parenthesis. Non-trivial: a group is non-empty in the result.')
    r = R.rng
    mk = Maker(c17_body, subj=dict(exh=200, guided=300, rand=40))
    w = dict(cap=10, alt=4, rep=4, look=2, atomic=1.5, bref=1.5)
    ok = random_part(R, mk, R.n(650), lambda r: dict(w=w, depth=r.choice([2, 3, 3, 4]), alphabet=r.choice([b'ab', b'abc', b'abcd']), names=.5, required=has('('), cost=50), flags=lambda r: flagset(r, .15), label='random')
    if not ok:
        return R

    def many():
        n = r.choice([4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 24])
        t = many_groups(r, n, r.choice([b'abc', b'abcd', b'ab']), names=r.choice([.2, .5, .9]), flatness=r.choice([.2, .5, .8]))
        if rx.compile_cost(t, True) > 140:
            return None
        return mk(t, None, flagset(r, .1), r.getrandbits(32), subj=dict(exh=60, guided=250, rand=20))
    R.go(uniq(many, R.n(170)), batch=10, label='many groups')
    return R
