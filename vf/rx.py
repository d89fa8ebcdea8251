"""Regex trees: construction, random generation, printing as pattern text (with random spelling),
serialisation for the C++ reference model, and structural shrinking.

Nodes are tuples:
  ('E',)                      the empty expression
  ('C', byte)                 a literal byte
  ('S', neg, items)           a set; items: ('c', byte) | ('r', lo, hi) | ('k', letter)
  ('K', letter)               a class escape d D w W s S R N
  ('.',)                      the wildcard
  ('A', kind)                 anchor: ^ $ A Z b B
  ('Q', (kids...))            concatenation
  ('|', (kids...))            alternation
  ('(', name|None, kid)       capturing group (numbered by preorder)
  ('>', kid)                  atomic group
  ('*', mode, lo, hi, kid)    repetition, mode g/l/p, hi None = unbounded
  ('L', ahead, neg, kid)      lookaround
  ('\\\\', ref)                 backreference: int or name (None while generating)
"""
import random

E = ('E',)
DOT = ('.',)
FLAGS = ['icase', 'dotall', 'multiline', 'ungreedy', 'unroll']

WORD = frozenset(b for b in range(256) if chr(b) in
                 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
DIGIT = frozenset(range(0x30, 0x3a))
SPACE = frozenset(b'\n\r \t\v\f')
LB = frozenset(b'\n\r')
ALL = frozenset(range(256))
CLASSES = {'d': DIGIT, 'w': WORD, 's': SPACE, 'R': LB, 'D': ALL - DIGIT, 'W': ALL - WORD,
           'S': ALL - SPACE, 'N': ALL - LB}
CTRL = {0: '0', 10: 'n', 13: 'r', 9: 't', 12: 'f', 11: 'v', 7: 'a', 27: 'e'}


def kids(n):
    k = n[0]
    if k in ('Q', '|'):
        return n[1]
    if k == '(':
        return (n[2],)
    if k == '>':
        return (n[1],)
    if k == '*':
        return (n[4],)
    if k == 'L':
        return (n[3],)
    return ()


def with_kids(n, ks):
    k = n[0]
    if k in ('Q', '|'):
        return (k, tuple(ks))
    if k == '(':
        return (k, n[1], ks[0])
    if k == '>':
        return (k, ks[0])
    if k == '*':
        return (k, n[1], n[2], n[3], ks[0])
    if k == 'L':
        return (k, n[1], n[2], ks[0])
    return n


def walk(n):
    yield n
    for c in kids(n):
        yield from walk(c)


def size(n):
    return 1 + sum(size(c) for c in kids(n))


def ncaps(n):
    return sum(1 for x in walk(n) if x[0] == '(')


def cap_names(n):
    """list of names (or None) of groups 1.. in preorder"""
    return [x[1] for x in walk(n) if x[0] == '(']


def set_bytes(items):
    s = set()
    for it in items:
        if it[0] == 'c':
            s.add(it[1])
        elif it[0] == 'r':
            s.update(range(it[1], it[2] + 1))
        else:
            s |= CLASSES[it[1]]
    return frozenset(s)


def trivial(n):
    """matches exactly one character by looking at it"""
    if n[0] in ('C', 'S', 'K', '.'):
        return True
    if n[0] == '|':
        return all(trivial(c) for c in n[1])
    return False


def nullable(n, caps=None):
    k = n[0]
    if k in ('E', 'A', 'L', '\\'):
        return True
    if k in ('C', 'S', 'K', '.'):
        return False
    if k == 'Q':
        return all(nullable(c) for c in n[1])
    if k == '|':
        return any(nullable(c) for c in n[1])
    if k == '*':
        return n[2] == 0 or nullable(n[4])
    return nullable(kids(n)[0])


def compile_cost(n, unroll=False):
    """rough number of template instantiations of node matchers"""
    k = n[0]
    if trivial(n):
        return 1
    if k == '*':
        lo, hi, x = n[2], n[3], n[4]
        if lo == hi == 0:
            return 1
        if trivial(x):
            return 2 + ((lo // 16) if unroll else 0)
        c = compile_cost(x, unroll)
        r = 0
        if lo:
            r += c * (lo if unroll else min(lo, 2))
        if hi is None:
            r += c
        elif n[1] == 'p':
            r += c if hi > lo else 0
        else:
            r += c * (hi - lo)
        return r + 1
    return 1 + sum(compile_cost(c, unroll) for c in kids(n))


def min_len(n):
    k = n[0]
    if k in ('C', 'S', 'K', '.'):
        return 1
    if k == 'Q':
        return sum(min_len(c) for c in n[1])
    if k == '|':
        return min(min_len(c) for c in n[1])
    if k == '*':
        return n[2] * min_len(n[4])
    if k in ('(', '>'):
        return min_len(kids(n)[0])
    return 0


def max_len(n, inf=10**6):
    k = n[0]
    if k in ('C', 'S', 'K', '.'):
        return 1
    if k == 'Q':
        return min(inf, sum(max_len(c) for c in n[1]))
    if k == '|':
        return max(max_len(c) for c in n[1])
    if k == '*':
        if n[3] is None:
            return inf if max_len(n[4]) else 0
        return min(inf, n[3] * max_len(n[4]))
    if k in ('(', '>'):
        return max_len(kids(n)[0])
    if k == '\\':
        return 4
    return 0


# ---------------------------------------------------------------- serialisation for the model

def _hex(s):
    v = 0
    for b in s:
        v |= 1 << b
    return '%064x' % v


def serialize(n, names=None):
    """prefix token string for the C++ reference model"""
    if names is None:
        names = cap_names(n)
    counter = [0]
    out = []

    def go(n):
        k = n[0]
        if k == 'E':
            out.append('0')
        elif k == 'C':
            out.append('1 0 ' + _hex([n[1]]))
        elif k == 'S':
            out.append('1 %d %s' % (1 if n[1] else 0, _hex(set_bytes(n[2]))))
        elif k == 'K':
            out.append('1 0 ' + _hex(CLASSES[n[1]]))
        elif k == '.':
            out.append('2')
        elif k == 'A':
            out.append('3 %d' % '^$AZbB'.index(n[1]))
        elif k == 'Q' or k == '|':
            out.append('%d %d' % (4 if k == 'Q' else 5, len(n[1])))
            for c in n[1]:
                go(c)
        elif k == '(':
            counter[0] += 1
            out.append('6 %d' % counter[0])
            go(n[2])
        elif k == '>':
            out.append('7')
            go(n[1])
        elif k == '*':
            out.append('8 %d %d %d' % ('glp'.index(n[1]), n[2], -1 if n[3] is None else n[3]))
            go(n[4])
        elif k == 'L':
            out.append('9 %d %d' % (1 if n[1] else 0, 1 if n[2] else 0))
            go(n[3])
        elif k == '\\':
            r = n[1]
            if not isinstance(r, int):
                r = names.index(r) + 1
            out.append('10 %d' % r)
        else:
            raise ValueError(n)
    go(n)
    return ' '.join(out)


# ---------------------------------------------------------------- printing

META = set(b'^$.|()[]{}*+?\\')
SPECIAL_ESC = set(b'dDwWsSRNbBAZkxnrtfvae0123456789')
SET_SPECIAL_ESC = set(b'dDwWsSRNxnrtfvaeb0')


class Printer:
    """Prints a tree as pattern bytes. rng=None: canonical spelling; otherwise random equivalent spelling."""

    def __init__(self, rng=None, variety=0.15):
        self.r = rng
        self.v = variety

    def chance(self, p=None):
        return self.r is not None and self.r.random() < (self.v if p is None else p)

    def esc_byte(self, b):
        h = '%02x' % b
        if self.r is not None:
            h = ''.join(self.r.choice([c.lower(), c.upper()]) for c in h)
        return b'\\x' + h.encode()

    def lit(self, b):
        if self.chance(0.08):
            return self.esc_byte(b)
        if b in CTRL and self.chance(0.6):
            return b'\\' + CTRL[b].encode()
        if self.chance(0.05):
            return b'[' + self.set_char(b, True) + b']'
        if b in META:
            if b in b']}' and self.chance(0.5):
                return bytes([b])
            return b'\\' + bytes([b])
        if self.chance(0.06) and b not in SPECIAL_ESC:
            return b'\\' + bytes([b])
        return bytes([b])

    def set_char(self, b, first):
        """a literal member; always safe next to anything"""
        if self.chance(0.1):
            return self.esc_byte(b)
        if b in CTRL and self.chance(0.6):
            return b'\\' + CTRL[b].encode()
        if b == 8 and self.chance(0.5):
            return b'\\b'
        if b in b'\\]^-':
            return b'\\' + bytes([b])
        if self.chance(0.06) and b not in SET_SPECIAL_ESC:
            return b'\\' + bytes([b])
        return bytes([b])

    def set(self, n):
        items = list(n[2])
        if self.r is not None:
            self.r.shuffle(items)
        out = b'[' + (b'^' if n[1] else b'')
        dash_ok = []
        parts = []
        for it in items:
            if it[0] == 'c':
                parts.append((self.set_char(it[1], not parts), it))
            elif it[0] == 'r':
                parts.append((self.set_char(it[1], not parts) + b'-' + self.set_char(it[2], False), it))
            else:
                parts.append((b'\\' + it[1].encode(), it))
        # a literal '-' may be written bare at the end or right after a range
        if self.r is not None:
            for i, (p, it) in enumerate(parts):
                if it == ('c', 0x2d) and p == b'\\-':
                    if i == len(parts) - 1 and self.chance(0.7):
                        parts[i] = (b'-', it)
        return out + b''.join(p for p, _ in parts) + b']'

    def quant(self, mode, lo, hi):
        forms = []
        if (lo, hi) == (0, None):
            forms = [b'*', b'*', b'{0,}']
        elif (lo, hi) == (1, None):
            forms = [b'+', b'+', b'{1,}']
        elif (lo, hi) == (0, 1):
            forms = [b'?', b'?', b'{0,1}']
        elif hi is None:
            forms = [b'{%d,}' % lo]
        elif lo == hi:
            forms = [b'{%d}' % lo, b'{%d}' % lo, b'{%d,%d}' % (lo, hi)]
        else:
            forms = [b'{%d,%d}' % (lo, hi), b'{%d,%d}' % (lo, hi), b'{%d,%d}' % (lo, hi), b'{0%d,0%d}' % (lo, hi)]
        q = self.r.choice(forms) if self.r is not None else forms[0]
        return q + {'g': b'', 'l': b'?', 'p': b'+'}[mode]

    def p(self, n):
        """-> (text, level): level 0 atom (quantifiable), 1 sequence element, 2 sequence, 3 alternation, 4 empty"""
        k = n[0]
        if k == 'E':
            return b'', 4
        if k == 'C':
            return self.lit(n[1]), 0
        if k == 'S':
            return self.set(n), 0
        if k == 'K':
            if self.chance(0.1):
                return b'[\\' + n[1].encode() + b']', 0
            if self.chance(0.1):
                return b'[^\\' + {'d': 'D', 'D': 'd', 'w': 'W', 'W': 'w', 's': 'S', 'S': 's', 'R': 'N', 'N': 'R'}[n[1]].encode() + b']', 0
            return b'\\' + n[1].encode(), 0
        if k == '.':
            return b'.', 0
        if k == 'A':
            return (n[1].encode() if n[1] in '^$' else b'\\' + n[1].encode()), 1
        if k == '\\':
            if isinstance(n[1], int):
                return b'\\%d' % n[1], 0
            return b'\\k<' + n[1].encode() + b'>', 0
        if k == '(':
            t, _ = self.p(n[2])
            if n[1] is None:
                return b'(' + t + b')', 0
            return b'(?<' + n[1].encode() + b'>' + t + b')', 0
        if k == '>':
            return b'(?>' + self.p(n[1])[0] + b')', 0
        if k == 'L':
            return {(True, False): b'(?=', (True, True): b'(?!', (False, False): b'(?<=', (False, True): b'(?<!'}[(n[1], n[2])] \
                + self.p(n[3])[0] + b')', 0
        if k == '*':
            return self.at(n[4], 0) + self.quant(n[1], n[2], n[3]), 1
        if k == 'Q':
            if not n[1]:
                return b'', 4
            if len(n[1]) == 1:
                return self.p(n[1][0])
            out = b''
            prev_num = False
            for c in n[1]:
                t = self.at(c, 2 if c[0] != 'Q' else 1)
                if prev_num and t[:1].isdigit():
                    t = b'(?:' + t + b')'
                out += t
                prev_num = c[0] == '\\' and isinstance(c[1], int) and t[:1] == b'\\'
            return out, 2
        if k == '|':
            if len(n[1]) == 1:
                return self.p(n[1][0])
            return b'|'.join(self.at(c, 2) for c in n[1]), 3
        raise ValueError(n)

    def at(self, n, level):
        t, l = self.p(n)
        if l > level or self.chance():
            return b'(?:' + t + b')'
        return t

    def top(self, n):
        t, l = self.p(n)
        if self.chance(0.05):
            return b'(?:' + t + b')'
        return t


def show(n):
    return Printer().top(n)


def spell(n, rng, variety=0.1):
    return Printer(rng, variety).top(n)


def cpp_string(b):
    """C++ string literal for arbitrary bytes"""
    out = '"'
    for c in b:
        if c in b'"\\' or c == 0x3f:
            out += '\\' + chr(c)
        elif 32 <= c < 127:
            out += chr(c)
        else:
            out += '\\%03o' % c
    return out + '"'


# ---------------------------------------------------------------- generation

DEFAULT_W = dict(lit=6, set=2, cls=1, dot=1.2, anchor=0.8, seq=6, alt=3, cap=3, atomic=0.7, rep=5, look=1.2, bref=0.8,
                 empty=0.25)


class Gen:
    def __init__(self, rng, w=None, depth=4, alphabet=b'abc', modes='gggglllpp', reps=None, cost=60, names=0.3,
                 nested_rep=0.3, wide=0.08, maxbytes=None, behind_ok=True, bref_names=True, big=0.03,
                 wb_ok=True, required=None):
        self.r = rng
        self.w = dict(DEFAULT_W)
        if w:
            self.w.update(w)
        self.depth = depth
        self.alpha = alphabet
        self.modes = modes
        self.reps = reps
        self.cost = cost
        self.names = names
        self.wide = wide
        self.behind_ok = behind_ok
        self.wb_ok = wb_ok
        self.bref_names = bref_names
        self.big = big
        self.required = required

    def pick(self, w):
        tot = sum(w.values())
        x = self.r.random() * tot
        for k, v in w.items():
            x -= v
            if x < 0:
                return k
        return k

    def byte(self):
        r = self.r
        if r.random() < 0.9:
            return r.choice(self.alpha)
        return r.choice(b'abcxyzABZ019_ -.\n\r\t\\]^{}|*')

    def setnode(self):
        r = self.r
        items = []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            t = r.random()
            if t < 0.55:
                items.append(('c', self.byte()))
            elif t < 0.85:
                a, b = sorted([self.byte(), self.byte()])
                items.append(('r', a, b))
            else:
                items.append(('k', r.choice('dwsRDWSN')))
        if r.random() < 0.02:
            items = []
        return ('S', r.random() < 0.35, tuple(items))

    def bounds(self, inner):
        r = self.r
        t = r.random()
        if t < 0.25:
            return 0, None
        if t < 0.42:
            return 1, None
        if t < 0.57:
            return 0, 1
        if t < 0.65:
            return r.choice([2, 3]), None
        if t < 0.78:
            n = r.choice([0, 1, 2, 2, 3, 4])
            return n, n
        if self.big and r.random() < self.big and trivial(inner):
            a = r.choice([5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33])
            return r.choice([(a, a), (a, a + r.randrange(1, 4)), (0, a), (a, None)])
        lo = r.choice([0, 0, 1, 1, 2, 3])
        return lo, lo + r.choice([1, 1, 2, 3])

    def gen(self, d):
        r = self.r
        w = dict(self.w)
        if d <= 0:
            for k in ('seq', 'alt', 'cap', 'atomic', 'rep', 'look'):
                w[k] = 0
        elif d >= self.depth - 1:
            for k in ('lit', 'set', 'cls', 'dot', 'anchor', 'bref', 'empty'):
                w[k] *= 0.2
        k = self.pick(w)
        if k == 'lit':
            return ('C', self.byte())
        if k == 'set':
            return self.setnode()
        if k == 'cls':
            return ('K', r.choice('ddwwwssRNDWS'))
        if k == 'dot':
            return DOT
        if k == 'anchor':
            return ('A', r.choice('^$AZbB' if self.wb_ok else '^$AZ'))
        if k == 'empty':
            return E
        if k == 'bref':
            return ('\\', None)
        if k == 'seq':
            n = r.choice([2, 2, 2, 3, 3, 4])
            if r.random() < self.wide:
                n = r.randrange(5, 9)
            return ('Q', tuple(self.gen(d - 1) for _ in range(n)))
        if k == 'alt':
            n = r.choice([2, 2, 2, 3, 3])
            if r.random() < self.wide:
                n = r.randrange(4, 9)
            return ('|', tuple(self.gen(d - 1) for _ in range(n)))
        if k == 'cap':
            return ('(', True if r.random() < self.names else None, self.gen(d - 1))
        if k == 'atomic':
            return ('>', self.gen(d - 1))
        if k == 'look':
            return ('L', True if not self.behind_ok else r.random() < 0.45, r.random() < 0.4, self.gen(d - 1))
        if k == 'rep':
            x = self.gen(d - 1)
            lo, hi = self.bounds(x) if not self.reps else r.choice(self.reps)
            return ('*', r.choice(self.modes), lo, hi, x)
        raise ValueError(k)

    def finish(self, n):
        """assign group names and backreference targets"""
        r = self.r
        used = set()
        names = []

        first = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'

        def nm():
            while True:
                k = r.random()
                old = sorted(used)
                if old and k < .3:
                    # close to a name in use
                    b = r.choice(old)
                    i = r.randrange(len(b))
                    s = r.choice([b + r.choice(first + '0123456789'), b[:-1] or '_', b + b, b.swapcase(), b[:i] + b[i].swapcase() + b[i + 1:], b[:i] + r.choice(first) + b[i + 1:], b[::-1], '_' + b, b + '_'])
                    if s[0] in '0123456789':
                        s = 'a' + s
                elif k < .8:
                    s = r.choice('abcxyzABZ_') + ''.join(r.choice('abcdexyz_ABZ0129') for _ in range(r.choice([0, 0, 1, 2, 3, 7, 12])))
                else:
                    s = r.choice(first) + ''.join(r.choice(first + '0123456789') for _ in range(r.choice([0, 1, 2, 5, 15, 16, 31, 32, 33, 48])))
                if s not in used and len(s) < 70:
                    used.add(s)
                    return s

        def go1(n):
            if n[0] == '(':
                name = nm() if n[1] is True else n[1]
                names.append(name)
                return ('(', name, go1(n[2]))
            return with_kids(n, [go1(c) for c in kids(n)])
        n = go1(n)
        tot = len(names)

        def go2(n):
            if n[0] == '\\' and n[1] is None:
                if not tot:
                    return ('C', self.byte())
                g = r.randrange(1, tot + 1)
                if self.bref_names and names[g - 1] and r.random() < 0.5:
                    return ('\\', names[g - 1])
                return ('\\', g)
            return with_kids(n, [go2(c) for c in kids(n)])
        return normalize(go2(n))

    def make(self):
        for _ in range(1000):
            n = self.finish(self.gen(self.depth))
            if compile_cost(n, True) > self.cost or size(n) > 60:
                continue
            if self.required and not self.required(n):
                continue
            return n
        raise RuntimeError('generator rejects too much')


def normalize(n):
    """single-element sequences/alternations collapse, nested sequences flatten"""
    ks = [normalize(c) for c in kids(n)]
    n = with_kids(n, ks) if ks else n
    if n[0] == 'Q':
        out = []
        for c in n[1]:
            if c[0] == 'Q':
                out.extend(c[1])
            else:
                out.append(c)
        if not out:
            return E
        if len(out) == 1:
            return out[0]
        return ('Q', tuple(out))
    if n[0] == '|' and len(n[1]) == 1:
        return n[1][0]
    return n


# ---------------------------------------------------------------- alphabets for subjects

def fliplet(b):
    return b ^ 0x20 if (65 <= b <= 90 or 97 <= b <= 122) else b


def alphabet(n, flags, rng, limit=4):
    """(small alphabet for exhaustive enumeration, larger alphabet for random subjects)"""
    score = {}

    def add(b, s):
        score[b] = score.get(b, 0) + s
    for x in walk(n):
        if x[0] == 'C':
            add(x[1], 3)
        elif x[0] == 'S':
            m = set_bytes(x[2])
            for it in x[2]:
                if it[0] == 'c':
                    add(it[1], 2)
                elif it[0] == 'r':
                    add(it[1], 1)
                    add(it[2], 1)
                else:
                    add(rng.choice(sorted(CLASSES[it[1]])) if rng.random() < .3 else {'d': 0x31, 'w': 0x61, 's': 0x20, 'R': 10, 'D': 0x61, 'W': 0x20, 'S': 0x61, 'N': 0x61}[it[1]], 1)
            for b in b'abx-\n':
                if (b in m) == bool(x[1]):
                    add(b, .5)
                    break
        elif x[0] == 'K':
            add({'d': 0x31, 'w': 0x61, 's': 0x20, 'R': 10, 'D': 0x61, 'W': 0x20, 'S': 0x61, 'N': 0x61}[x[1]], 1.5)
        elif x[0] == '.':
            add(0x61, .5)
            add(10, .4)
        elif x[0] == 'A':
            if x[1] in '^$':
                add(10, 1.5 if 'multiline' in flags else .6)
                if 'multiline' in flags:
                    add(13, .7)
            if x[1] in 'bB':
                add(0x20, 1)
                add(0x61, 1)
    if 'icase' in flags:
        for b in list(score):
            if fliplet(b) != b:
                add(fliplet(b), score[b] * .6)
    if not score:
        score = {0x61: 1, 0x62: .5}
    big = sorted(score, key=lambda b: (-score[b] * (0.6 + 0.8 * rng.random()), b))
    small = big[:limit]
    if len(small) < 2:
        for b in b'abx':
            if b not in small:
                small.append(b)
                break
    extra = [0x61, 0x62, 0x41, 0x31, 0x20, 10, 13, 0x5f, 0, 0x80, 0xff]
    return bytes(small), bytes(big + [b for b in extra if b not in score])


# ---------------------------------------------------------------- shrinking

def fix_refs(n):
    """drop references to groups that no longer exist"""
    names = cap_names(n)

    def go(n):
        if n[0] == '\\':
            if isinstance(n[1], int):
                if n[1] > len(names):
                    return ('\\', len(names)) if names else E
            elif n[1] not in names:
                return E
            return n
        return with_kids(n, [go(c) for c in kids(n)])
    return go(n)


def shrinks(n):
    """smaller candidate trees (one step), most aggressive first"""
    seen = set()

    def emit(x):
        x = normalize(fix_refs(x))
        if x not in seen and x != n:
            seen.add(x)
            return [x]
        return []

    def local(x):
        k = x[0]
        for c in kids(x):
            yield c
        if k == 'Q' or k == '|':
            ks = x[1]
            for i in range(len(ks)):
                yield (k, ks[:i] + ks[i + 1:]) if len(ks) > 1 else E
        if k == '(' and x[1] is not None:
            yield ('(', None, x[2])
        if k == '*':
            m, lo, hi, c = x[1:]
            if m != 'g':
                yield ('*', 'g', lo, hi, c)
            if lo > 0:
                yield ('*', m, 0, hi, c)
                if hi is None or True:
                    yield ('*', m, lo - 1, hi, c)
                    yield ('*', m, lo // 2, hi, c)
            if hi is not None and hi > lo:
                yield ('*', m, lo, hi - 1, c)
                yield ('*', m, lo, lo + (hi - lo) // 2, c)
            if hi is not None:
                yield ('*', m, lo, None, c)
                if lo == hi and lo > 1:
                    yield ('*', m, lo - 1, hi - 1, c)
                    yield ('*', m, lo // 2, hi // 2, c)
        if k == 'S':
            its = x[2]
            for i in range(len(its)):
                yield ('S', x[1], its[:i] + its[i + 1:])
            for b in b'ab':
                yield ('C', b)
        if k in ('K', '.', '\\', 'L'):
            yield ('C', 0x61)
        if k == 'L' and x[2]:
            yield ('L', x[1], False, x[3])
        if k == 'C' and x[1] not in b'ab':
            yield ('C', 0x61)
            yield ('C', 0x62)
        if k not in ('E',):
            yield E

    def go(x, rebuild):
        for y in local(x):
            yield rebuild(y)
        ks = kids(x)
        for i, c in enumerate(ks):
            yield from go(c, lambda y, i=i: rebuild(with_kids(x, list(ks[:i]) + [y] + list(ks[i + 1:]))))
    for cand in go(n, lambda y: y):
        yield from emit(cand)


def weight(n):
    """size measure decreasing under shrinking"""
    w = 0
    for x in walk(n):
        w += 10
        k = x[0]
        if k == 'C':
            w -= 4 if x[1] in b'ab' else 2
        if k == 'E':
            w -= 8
        if k == '*':
            w += x[2] * 2 + (0 if x[3] is None else 1 + 2 * (x[3] - x[2])) + (0 if x[1] == 'g' else 2)
        if k == 'S':
            w += 3 * len(x[2])
        if k == '(' and x[1]:
            w += 2
        if k == 'L':
            w += 3 + (1 if x[2] else 0)
        if k == '\\':
            w += 1
    return w
