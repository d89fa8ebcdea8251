"""Pattern generators shared by the checks."""
from . import rx
from .rx import Gen, E, DOT
from .core import Maker, pointer_body


def flagset(r, p=0.35, pool=rx.FLAGS, none=0.4):
    return tuple(f for f in pool if r.random() < p) if r.random() > none else ()


ALPHAS = [b'ab', b'ab', b'abc', b'abc', b'aAb', b'ab1', b'ab ', b'a\n', b'xyz', b'aB_', b'ab\n\r', b'a-b', b'\x80\xffa', b'\x00ab']
DEPTHS = [2, 3, 3, 3, 4]


def uniq(make, n, seen=None, tries=20):
    """n distinct (pattern, flags) specs"""
    seen = set() if seen is None else seen
    out = []
    misses = 0
    while len(out) < n and misses < n * tries + 1000:
        s = make()
        if s is None:
            misses += 1
            continue
        key = (s.pattern, s.flags, s.note)
        if key in seen:
            misses += 1
            continue
        seen.add(key)
        out.append(s)
    return out


def has(kind, pred=None):
    def f(n):
        return any(x[0] == kind and (pred is None or pred(x)) for x in rx.walk(n))
    return f


def lit(s):
    s = s.encode('latin-1') if isinstance(s, str) else s
    return rx.normalize(('Q', tuple(('C', b) for b in s))) if s else E


def rep(x, lo, hi, mode='g'):
    return ('*', mode, lo, hi, x)


def seq(*xs):
    return rx.normalize(('Q', tuple(xs)))


def alt(*xs):
    return ('|', tuple(xs))


def cap(x, name=None):
    return ('(', name, x)


def flat(r, alphabet=b'ab1 -.@', names=0.3):
    """the kind of pattern people write: a row of small elements"""
    g = Gen(r, alphabet=alphabet, names=names)

    def atom():
        t = r.random()
        if t < 0.35:
            return ('C', r.choice(alphabet))
        if t < 0.6:
            return ('K', r.choice('ddwwsSDN'))
        if t < 0.85:
            return g.setnode()
        return DOT

    def elem(d):
        t = r.random()
        if t < 0.5:
            x = atom()
        elif t < 0.62:
            x = lit(bytes(r.choice(alphabet) for _ in range(r.randrange(2, 6))))
        elif t < 0.8 and d > 0:
            x = ('(', True if r.random() < names else None, row(d - 1, r.randrange(1, 4)))
        elif t < 0.92 and d > 0:
            x = ('|', tuple(row(d - 1, r.randrange(1, 3)) for _ in range(r.randrange(2, 5))))
        elif t < 0.95:
            return ('A', r.choice('^$bB'))
        elif t < 0.975 and d > 0:
            return ('L', r.random() < 0.5, r.random() < 0.5, row(d - 1, r.randrange(1, 3)))
        else:
            return ('\\', None)
        if r.random() < 0.45:
            lo, hi = r.choice([(0, None), (1, None), (0, 1), (1, 2), (1, 3), (2, 4), (2, 2), (3, 3), (1, 3), (2, None)])
            x = ('*', r.choice('ggggglp'), lo, hi, x)
        return x

    def row(d, n):
        return ('Q', tuple(elem(d) for _ in range(n)))
    for _ in range(1000):
        t = g.finish(row(2, r.randrange(3, 10)))
        if rx.compile_cost(t, True) <= 70 and rx.size(t) <= 70:
            return t
    return g.make()


def many_groups(r, n, alphabet=b'abc', names=0.4, refs=0.35, flatness=0.5):
    """a tree with exactly n groups, nested and in alternatives, with references to any of them"""
    used = [0]

    def leaf():
        t = r.random()
        if t < 0.6:
            return ('C', r.choice(alphabet))
        if t < 0.8:
            return ('S', False, tuple(('c', b) for b in r.sample(list(alphabet), min(2, len(alphabet)))))
        if t < 0.9:
            return rep(('C', r.choice(alphabet)), 0, r.choice([1, None]), r.choice('gglp'))
        return DOT

    def build(k, d):
        """a tree with k groups"""
        if k == 0:
            return leaf()
        if k == 1 or (d > 0 and r.random() > flatness):
            inner = build(k - 1, d - 1) if k > 1 else (leaf() if r.random() < 0.8 else seq(leaf(), leaf()))
            x = ('(', True if r.random() < names else None, seq(leaf(), inner) if r.random() < 0.3 else inner)
        else:
            a = r.randrange(1, k)
            p, q = build(a, d), build(k - a, d)
            t = r.random()
            x = ('|', (p, q)) if t < 0.25 else ('Q', (p, q))
        t = r.random()
        if t < 0.12:
            x = rep(x, r.choice([0, 0, 1, 2]), r.choice([2, 2, 3, None]), r.choice('gglp'))
        elif t < 0.2:
            x = rep(x, 0, 1, r.choice('glp'))
        elif t < 0.24:
            x = ('L', r.random() < 0.6, r.random() < 0.25, x)
        elif t < 0.28:
            x = ('>', x)
        return x
    g = Gen(r, alphabet=alphabet, names=names)
    for _ in range(300):
        t = build(n, 6)
        parts = [t]
        for _ in range(r.choice([0, 1, 1, 2]) if r.random() < refs else 0):
            parts.append(('\\', None))
        t = g.finish(('Q', tuple(parts)))
        if rx.ncaps(t) == n and rx.compile_cost(t, True) <= 40 + 8 * n:
            return t
    return g.finish(('Q', tuple(cap(('C', r.choice(alphabet))) for _ in range(n))))


COMPOSE_BOUNDS = [(0, 0), (1, 1), (0, 1), (0, None), (1, None), (2, 2), (3, 3), (1, 2), (0, 2), (2, None), (1, 3), (2, 3)]


def compose(r, ops=None):
    """Two or three operators applied directly to each other over tiny operands: every pair of adjacent operators occurs, as an
    implementation which simplifies or merges adjacent operators would need."""
    a, b, c = ('C', 0x61), ('C', 0x62), ('C', 0x63)

    def base():
        return r.choice([a, a, b, DOT, ('K', 'd'), ('K', 'W'), ('S', False, (('c', 0x61), ('c', 0x62))), ('S', True, (('c', 0x61),)), ('S', False, (('r', 0x61, 0x62),)), ('S', True, (('r', 0x62, 0x63), ('k', 'd'))),
                         lit('ab'), lit('ba'), lit('aa'), E, ('A', 'b'), ('A', '^'), ('A', '$'), alt(a, b), alt(a, lit('ab')), alt(lit('ab'), a), alt(E, a)])

    def other():
        return r.choice([a, b, c, lit('ab'), lit('ac'), DOT, ('S', True, (('c', 0x62),)), ('K', 'w'), rep(a, 0, None), rep(b, 0, 1)])

    def op(x):
        k = r.choice(ops or ['rep', 'rep', 'rep', 'rep', 'alt', 'alt', 'alt3', 'same', 'factor', 'seq', 'twice', 'reps', 'cap', 'atomic', 'look', 'neg', 'suffix'])
        if k == 'rep':
            return rep(x, *r.choice(COMPOSE_BOUNDS), r.choice('gggllpp'))
        if k == 'alt':
            return alt(x, other()) if r.random() < .5 else alt(other(), x)
        if k == 'alt3':
            l = [x, other(), other()]
            r.shuffle(l)
            return alt(*l)
        if k == 'same':
            return alt(x, x)
        if k == 'factor':
            return alt(('Q', (x, other())), ('Q', (x, other()))) if r.random() < .7 else alt(('Q', (x, other())), x)
        if k == 'suffix':
            return alt(('Q', (other(), x)), ('Q', (other(), x)))
        if k == 'seq':
            return ('Q', (x, other())) if r.random() < .5 else ('Q', (other(), x))
        if k == 'twice':
            return ('Q', (x, x))
        if k == 'reps':
            return ('Q', (rep(x, *r.choice(COMPOSE_BOUNDS), r.choice('gglp')), rep(x, *r.choice(COMPOSE_BOUNDS), r.choice('gglp'))))
        if k == 'cap':
            return ('(', None, x)
        if k == 'atomic':
            return ('>', x)
        return ('Q', (('L', r.random() < .5, k == 'neg', x), r.choice([E, DOT, a, b])))
    t = base()
    for _ in range(r.choice([2, 2, 2, 3])):
        t = op(t)
    if r.random() < .5:
        t = ('Q', (t, other()))
    if rx.ncaps(t) and r.random() < .25:
        t = ('Q', (t, ('\\', r.randrange(1, rx.ncaps(t) + 1))))
    return rx.normalize(t)


def compose_part(R, mk, n, label='adjacent operators', ops=None, required=None, subj=None):
    r = R.rng

    def one():
        t = compose(r, ops)
        if rx.compile_cost(t, True) > 60 or (required and not required(t)):
            return None
        return mk(t, rx.spell(t, r, .15) if r.random() < .5 else None, flagset(r, .25), r.getrandbits(32), subj=subj or dict(alpha=3, exh=400, guided=200))
    return R.go(uniq(one, n), label=label)


REPFORMS = [(0, None, 'g'), (0, None, 'l'), (0, None, 'p'), (1, None, 'g'), (1, None, 'l'), (1, None, 'p'), (0, 1, 'g'), (0, 1, 'l'), (0, 1, 'p'), (0, 0, 'g'), (1, 1, 'g'), (1, 1, 'p'), (2, 2, 'g'), (2, 2, 'p'),
            (1, 2, 'g'), (1, 2, 'l'), (1, 2, 'p'), (2, None, 'g'), (2, None, 'l'), (2, None, 'p')]


def rep_pairs(R, mk, bases, label='every pair of nested quantifiers'):
    """every quantifier form applied to every quantifier form, over operands chosen at random from bases (all of them in the thorough tier)"""
    r = R.rng
    specs = []
    for o in REPFORMS:
        for i in REPFORMS:
            for x in (bases if R.thorough else [r.choice(bases)]):
                t = rep(rep(x, i[0], i[1], i[2]), o[0], o[1], o[2])
                if r.random() < .5:
                    t = ('Q', (t, r.choice([('C', 0x61), ('C', 0x62), lit('ab')])))
                t = rx.normalize(t)
                if rx.compile_cost(t, True) > 60:
                    continue
                specs.append(mk(t, rx.spell(t, r, .15) if r.random() < .4 else None, flagset(r, .2), r.getrandbits(32), subj=dict(alpha=2, exh=255, guided=60)))
    return R.go(specs, label=label)


HUGE_BOUNDS = [255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537]


def huge(r):
    """rows of elements whose matching is a loop in the library, so that inputs of 32767 to 131072 characters are possible"""
    al = r.choice([b'ab', b'abc', b'aA', b'a\n', b'ab1'])

    def atom():
        k = r.randrange(5)
        if k < 2:
            return ('C', r.choice(al))
        if k == 2:
            return DOT
        return ('S', k == 4, tuple(('c', x) for x in r.sample(al, r.randrange(1, len(al) + 1))))

    def piece(caps, d=0):
        k = r.randrange(14)
        m = r.choice('ggllp')
        if k == 0:
            return atom()
        if k < 4:
            return rep(atom(), r.choice([0, 0, 1, 2]), None, m)
        if k == 4:
            return rep(atom(), 0, r.choice(HUGE_BOUNDS), m)
        if k == 5:
            return rep(atom(), r.choice(HUGE_BOUNDS), None, m)
        if k == 6:
            b = r.choice(HUGE_BOUNDS)
            return rep(atom(), b, b + r.choice([0, 0, 1, 300]), m)
        if k in (7, 8):
            caps.append(len(caps) + 1)
            i = len(caps)
            t = cap(rep(atom(), r.choice([0, 1, 1]), r.choice([None, None, 40, 65536]), m))
            return t
        if k == 9:
            return rep(seq(atom(), atom()), r.choice([0, 1]), None, 'p')
        if k == 10:
            return ('>', rep(atom(), 0, None, m))
        if k == 11 and d == 0:
            return ('L', r.choice([True, False]), r.choice([False, False, True]), seq(rep(atom(), 0, None, m), atom()))
        if k == 12 and caps:
            return ('\\', r.choice(caps))
        return lit(bytes(r.choice(al) for _ in range(r.randrange(1, 4))))
    caps = []
    return rx.normalize(('Q', tuple(piece(caps) for _ in range(r.randrange(1, 5)))))


def huge_part(R, n, required=None, label='inputs of up to 131072 characters', make=huge):
    # pointers only: on forward iterators even the repetition of a character is recursive, and a stack is finite
    r = R.rng
    mk = Maker(pointer_body)

    def one():
        t = make(r)
        if required and not required(t):
            return None
        return mk(t, None, flagset(r, .25, pool=[f for f in rx.FLAGS if f != 'unroll']), r.getrandbits(32), subj=dict(exh=20, guided=10, rand=0, long=2, huge=10, budget=100000))
    return R.go(uniq(one, n), label=label)
