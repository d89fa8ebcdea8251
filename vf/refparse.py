"""Reference parser: pattern bytes -> tree, or the position of the syntax error.

A hand-written recursive descent reading of the documented syntax (README, "Syntax Reference" and notes).
The error position is the index of the first byte that cannot continue any well-formed pattern
(len(pattern) if the pattern ends too early).
"""
from . import rx


class SyntaxErr(Exception):
    def __init__(self, pos):
        self.pos = pos


DIG = b'0123456789'
NAME1 = b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
NAMEC = NAME1 + DIG
HEX = b'0123456789abcdefABCDEF'
CTRL = {c: b for b, c in ((0, '0'), (10, 'n'), (13, 'r'), (9, 't'), (12, 'f'), (11, 'v'), (7, 'a'), (27, 'e'))}


class Parser:
    def __init__(self, p):
        self.p = p
        self.i = 0
        self.rev = False   # a range or a repetition has its bounds the wrong way round

    def peek(self):
        return self.p[self.i] if self.i < len(self.p) else -1

    def at(self, chars):
        c = self.peek()
        return c >= 0 and c in chars

    def bad(self):
        raise SyntaxErr(self.i)

    def take(self):
        c = self.peek()
        if c < 0:
            self.bad()
        self.i += 1
        return c

    def expect(self, ch):
        if not self.at(ch):
            self.bad()
        self.i += 1

    def parse(self):
        if not self.p:
            return rx.E
        t = self.alternation(top=True)
        if self.i != len(self.p):
            self.bad()
        return rx.normalize(t)

    def alternation(self, top=False):
        alts = [self.sequence(first=True)]
        while self.at(b'|'):
            self.i += 1
            alts.append(self.sequence(first=False))
        return alts[0] if len(alts) == 1 else ('|', tuple(alts))

    def sequence(self, first):
        # a sequence cannot be empty here and cannot start with a quantifier
        if self.peek() < 0 or self.at(b')*+?{|'):
            self.bad()
        items = []
        while self.peek() >= 0 and not self.at(b'|)'):
            items += self.element()
        return items[0] if len(items) == 1 else ('Q', tuple(items))

    def element(self):
        """one atom with its quantifier; an aborted '{' yields further literal atoms"""
        x, quantifiable = self.atom()
        if not quantifiable:
            if self.at(b'*+?{'):
                self.bad()
            return [x]
        out = []
        while True:
            if self.at(b'{'):
                nxt = self.p[self.i + 1] if self.i + 1 < len(self.p) else -1
                if nxt < 0 or nxt not in DIG:
                    # not a quantifier: the brace is a literal, and an atom itself
                    self.i += 1
                    out.append(x)
                    x = ('C', 0x7b)
                    continue
                self.i += 1
                lo = self.number()
                hi = lo
                if self.at(b','):
                    self.i += 1
                    hi = self.number() if self.at(DIG) else None
                self.expect(b'}')
                x = self.quantified(x, lo, hi)
            elif self.at(b'*'):
                self.i += 1
                x = self.quantified(x, 0, None)
            elif self.at(b'+'):
                self.i += 1
                x = self.quantified(x, 1, None)
            elif self.at(b'?'):
                self.i += 1
                x = self.quantified(x, 0, 1)
            out.append(x)
            return out

    def number(self):
        v = 0
        while self.at(DIG):
            v = v * 10 + self.take() - 0x30
        return v

    def quantified(self, x, lo, hi):
        if hi is not None and hi < lo:
            self.rev = True
        mode = 'g'
        if self.at(b'?'):
            self.i += 1
            mode = 'l'
        elif self.at(b'+'):
            self.i += 1
            mode = 'p'
        if self.at(b'*+?{'):
            self.bad()
        return ('*', mode, lo, hi, x)

    def atom(self):
        c = self.take()
        if c == 0x28:
            return self.group(), True
        if c == 0x5b:
            return self.set(), True
        if c == 0x2e:
            return rx.DOT, True
        if c == 0x5e:
            return ('A', '^'), False
        if c == 0x24:
            return ('A', '$'), False
        if c == 0x5c:
            return self.escape()
        return ('C', c), True

    def name(self):
        if not self.at(NAME1):
            self.bad()
        s = ''
        while self.at(NAMEC):
            s += chr(self.take())
        self.expect(b'>')
        return s

    def group(self):
        kind, name = '(', None
        if self.at(b'?'):
            self.i += 1
            c = self.peek()
            if c < 0 or c not in b':=!><':
                self.bad()
            self.i += 1
            if c == 0x3c:
                if self.at(b'='):
                    self.i += 1
                    kind = 'b'
                elif self.at(b'!'):
                    self.i += 1
                    kind = 'B'
                else:
                    name = self.name()
            else:
                kind = chr(c)
        if self.at(b')'):
            x = rx.E
        else:
            x = self.alternation()
        self.expect(b')')
        if kind == '(':
            return ('(', name, x)
        if kind == ':':
            return x
        if kind == '>':
            return ('>', x)
        return ('L', kind in '=!', kind in '!B', x)

    def hex2(self):
        v = 0
        for _ in range(2):
            if not self.at(HEX):
                self.bad()
            v = v * 16 + int(chr(self.take()), 16)
        return v

    def escape(self):
        c = self.take()
        ch = chr(c)
        if ch in rx.CLASSES:
            return ('K', ch), True
        if ch in 'AZbB':
            return ('A', ch), False
        if ch in '123456789':
            v = c - 0x30
            while self.at(DIG):
                v = v * 10 + self.take() - 0x30
            return ('\\', v), True
        if ch == 'k':
            self.expect(b'<')
            return ('\\', self.name()), True
        if ch == 'x':
            return ('C', self.hex2()), True
        if ch in CTRL:
            return ('C', CTRL[ch]), True
        return ('C', c), True

    def set_atom(self, bound=False):
        """-> item; classes are not allowed as the upper bound of a range"""
        c = self.take()
        if c != 0x5c:
            return ('c', c)
        if bound and self.peek() >= 0 and chr(self.peek()) in rx.CLASSES:
            self.bad()
        c = self.take()
        ch = chr(c)
        if ch in rx.CLASSES:
            return ('k', ch)
        if ch == 'x':
            return ('c', self.hex2())
        if ch in CTRL:
            return ('c', CTRL[ch])
        if ch == 'b':
            return ('c', 8)
        return ('c', c)

    def set(self):
        neg = False
        if self.at(b'^'):
            self.i += 1
            neg = True
        items = []
        can_range = False
        while not self.at(b']'):
            if self.peek() < 0:
                self.bad()
            if can_range and self.at(b'-'):
                self.i += 1
                if self.at(b']'):
                    items.append(('c', 0x2d))
                    break
                hi = self.set_atom(bound=True)
                lo = items[-1]
                if lo[0] == 'c':
                    if hi[1] < lo[1]:
                        self.rev = True
                    items[-1] = ('r', lo[1], hi[1])
                else:
                    items += [('c', 0x2d), hi]
                can_range = False
                continue
            items.append(self.set_atom())
            can_range = True
        self.i += 1
        return ('S', neg, tuple(items))


def parse(p):
    """-> (tree, None) or (None, error position)"""
    try:
        return Parser(p).parse(), None
    except SyntaxErr as e:
        return None, e.pos


def verdict(p):
    """-> (error position or None, bounds reversed somewhere in the part read)"""
    q = Parser(p)
    try:
        q.parse()
        return None, q.rev
    except SyntaxErr as e:
        return e.pos, q.rev


def semantic_problems(t):
    """well-formed but not instantiable: reversed ranges or bounds, missing groups, duplicate names"""
    names = rx.cap_names(t)
    real = [n for n in names if n]
    if len(set(real)) != len(real):
        return 'duplicate group name'
    for x in rx.walk(t):
        if x[0] == '*' and x[3] is not None and x[3] < x[2]:
            return 'reversed repetition bounds'
        if x[0] == 'S' and any(i[0] == 'r' and i[1] > i[2] for i in x[2]):
            return 'reversed range'
        if x[0] == '\\':
            if isinstance(x[1], int):
                if x[1] > len(names):
                    return 'missing group'
            elif x[1] not in names:
                return 'missing named group'
    return None


def canon(t):
    """for comparing a parsed tree with a generated one: spelling-independent form"""
    ks = [canon(c) for c in rx.kids(t)]
    t = rx.with_kids(t, ks) if ks else t
    t = rx.normalize(t)
    if t[0] in ('C', 'S', 'K'):
        if t[0] == 'C':
            s = frozenset([t[1]])
            neg = False
        elif t[0] == 'K':
            s, neg = rx.CLASSES[t[1]], False
        else:
            s, neg = rx.set_bytes(t[2]), t[1]
        return ('SET', frozenset(rx.ALL - s) if neg else frozenset(s))
    return t
