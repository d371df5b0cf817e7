"""Structured cases out of Hypothesis byte strings.

A case is decoded from one st.binary() draw: cheap to generate and to shrink (Hypothesis deletes and
lowers bytes; reading past the end gives zeros, and zero always decodes to the simplest choice).  The
decoded case is plain JSON and is what gets executed, counted, saved and replayed."""
import random

from hypothesis import strategies as st


def cases(decode, size):
    return st.binary(min_size=size // 2, max_size=size).map(lambda b: decode(Src(b)))


class Src:
    def __init__(self, data):
        self.b, self.i = data, 0

    def byte(self):
        i = self.i
        self.i += 1
        return self.b[i] if i < len(self.b) else 0

    def more(self):
        return self.i < len(self.b)

    def n(self, k):
        """0 .. k-1"""
        if k <= 1:
            return 0
        if k <= 256:
            return self.byte() % k
        return (self.byte() | self.byte() << 8) % k

    def flag(self, one_in=2):
        """True in about one of `one_in` cases; False when the data has run out"""
        return self.byte() % one_in == 1

    def pick(self, xs):
        return xs[self.n(len(xs))]

    def subset(self, xs, most):
        out = []
        for _ in range(self.n(most + 1) if xs else 0):
            x = self.pick(xs)
            if x not in out:
                out.append(x)
        return out

    def shuffle(self, xs):
        xs = list(xs)
        out = []
        while xs:
            out.append(xs.pop(self.n(len(xs))))
        return out


def stretch(src, size):
    """A source of `size` bytes expanded from two: for large cases, whose bytes need not shrink one by one"""
    return Src(random.Random(src.n(65536)).randbytes(size))


TEXT = ['a', 'name', '', 'x y', ' lead', 'trail ', '  ', '<&>"\'', ']]>', '&amp;', '\u00e9\u00fc\u00df', '\u4e2d\u6587', '\U0001f50c',
        'line\nbreak', '\ttab\t', 'cr\rlf\r\n', '\u2028\u0085\u00a0', '0', '1.5', 'True', 'None', 'False', '#_1', 'http://x#A.b',
        '%s%d{}', '\\n', 'a' * 300, '\ufffd\ue000\u0080', '--', '<!-- x -->', '&#10;', "'", '"', '.', 'a.b', '\n', '\u00e9' * 9, 'x\u00e9 <y>\n' * 1500]
CHARS = 'abZ09 _-.#/:;<>&"\'\n\t\r\u00a0\u00e9\u03a9\u4e2d\U0001d11e]%{}\\,!?()*+=@[^`|~$12345678ABCDEFGHIJKLMNOPQRSTUVWXYcdefghijklmnopqrstuvwxyz' + \
    '\x7f\x80\xad\u0130\u0131\u01c5\u0301\u200b\u200e\u202e\u2028\ufb01\uff11\ufeff\ufffd\U0010fffd'
FLOATS = [1.0, 0.1, -1.0, 1e-9, 1e300, -2.5e-310, 5e-324, 123456789.123456789, 0.30000000000000004, -0.0, 1e22, 1e16, 9007199254740993.0,
          float('inf'), float('-inf'), 1.7976931348623157e308, 3.0, 1e-5, 100.0, float('nan')]
INTS = [1, 2, -1, 7, 10, 100, 2 ** 31, -2 ** 31, 2 ** 63, 10 ** 30, 65535, 42]


def text(src):
    k = src.byte()
    if k < 120:
        return TEXT[k % len(TEXT)] if k < 2 * len(TEXT) else TEXT[k % (len(TEXT) - 1)]
    return ''.join(src.pick(CHARS) for _ in range(k % 12))


def value(src, a):
    """A value of the attribute's type, seldom the default."""
    if a.e:
        return src.pick(a.l) if a.l else a.d
    if a.t == 'str':
        return text(src)
    if a.t == 'bool':
        return src.byte() % 3 != 2
    if a.t == 'int':
        k = src.byte()
        return INTS[k] if k < len(INTS) else 0 if k > 240 else k - 128
    k = src.byte()
    if k > 230:
        return FLOATS[k % len(FLOATS)] if k > 240 else 0.0
    return FLOATS[k] if k < len(FLOATS) else (k - 128) / 8 if k < 200 else (k * 1.0000001) ** (k % 9 - 4)


def by_hand(src, a):
    """A value as a program may set it: a whole number will do for a float"""
    if a.t == 'float' and not a.e and src.byte() % 5 == 3:
        k = src.byte()
        return INTS[k] if k < len(INTS) else k - 128
    return value(src, a)


def as_read(a, v):
    """The value that reading a written value gives"""
    return float(v) if a.t == 'float' and not a.e else v


def enc(v):
    """JSON-able form of an attribute value (JSON has no inf and loses nothing else)."""
    if isinstance(v, float):
        return {'f': repr(v)}
    return v


def dec(v):
    return float(v['f']) if isinstance(v, dict) else v
