"""Bit-provenance domain: every bit of an integer term as an exclusive-or of input bits (GF(2)-affine), or opaque.

bits(t, w) is a tuple of w frozensets, least significant first.  Elements are (atom term, bit number) or ONE; the
empty set is the constant 0.  Two terms with equal vectors are equal whatever shifts, masks, casts, sums of disjoint
parts or selections computed them."""
from terms import *

ONE = ("1",)
Z = frozenset()
O = frozenset([ONE])


def const(v, w):
    return tuple(O if v >> k & 1 else Z for k in range(w))


def opaque(op, *bs):
    return frozenset([(mk("bitop", op, *[tuple(sorted(((x[0], x[1]) if x is not ONE else (I(1), -1)) for x in b) if False else _key(b)) for b in bs]), 0)])


def _key(b):
    return tuple(sorted((repr(x[0]) if x is not ONE else "1") + ":" + str(x[1] if x is not ONE else "") for x in b))


def band(a, b):
    if a == Z or b == Z:
        return Z
    if a == O or a == b:
        return b
    if b == O:
        return a
    if a ^ b == O:
        return Z
    x, y = sorted((a, b), key=_key)
    return opaque("and", x, y)


def bor(a, b):
    if a == O or b == O:
        return O
    if a == Z or a == b:
        return b
    if b == Z:
        return a
    if a ^ b == O:
        return O
    x, y = sorted((a, b), key=_key)
    return opaque("or", x, y)


def bsel(c, a, b):
    """c ? a : b"""
    if c == O:
        return a
    if c == Z:
        return b
    if a == b:
        return a
    if a ^ b == O:
        return c ^ b      # a = !b : c ? !b : b
    x = opaque("sel", c, a, b)
    return x


class Bits:
    def __init__(self, known=None, width=None):
        """known: {(atom, bit): 0/1} ; width: atom -> width of its type (default: from its range)"""
        self.known = known or {}
        self.memo = {}
        self.width = width or (lambda t: None)

    def norm(self, b):
        out = set()
        for x in b:
            k = self.known.get(x)
            if k is None:
                out ^= {x}
            elif k:
                out ^= {ONE}
        return frozenset(out)

    def __call__(self, t, w):
        key = (t, w)
        if key not in self.memo:
            self.memo[key] = tuple(self.norm(b) for b in self.go(t, w))
        return self.memo[key]

    def atom(self, t, w):
        r = rng(t)
        n = w
        if r and r[0] >= 0:
            n = min(w, r[1].bit_length())
        tw = self.width(t)
        if tw is not None:
            if tw[1] and tw[0] < w:
                return tuple(frozenset([(t, min(k, tw[0] - 1))]) for k in range(w))
            n = min(n, tw[0])
        return tuple(frozenset([(t, k)]) if k < n else Z for k in range(w))

    def go(self, t, w):
        o = t.op
        if o == "int":
            return const(t.a[0], w)
        if o == "trunc":
            b = self(t.a[1], t.a[0])
            return b[:w] + (Z,) * (w - len(b[:w]))
        if o == "b2i":
            return (self.cond(t.a[0]),) + (Z,) * (w - 1)
        if o == "zext":
            b = self(t.a[2], t.a[0])
            return (b + (Z,) * max(0, w - len(b)))[:w]
        if o == "sext":
            b = self(t.a[2], t.a[0])
            return (b + (b[-1],) * max(0, w - len(b)))[:w]
        if o == "ite":
            c = self.cond(t.a[0])
            return tuple(bsel(c, x, y) for x, y in zip(self(t.a[1], w), self(t.a[2], w)))
        if o == "bin":
            op, tw, s, x, y = t.a
            if op in ("and", "or", "xor"):
                bx, by = self(x, tw), self(y, tw)
                f = {"and": band, "or": bor, "xor": lambda p, q: p ^ q}[op]
                r = tuple(f(p, q) for p, q in zip(bx, by))
                return self.fit(r, w, s)
            if op in ("shl", "shr") and isint(y) and 0 <= y.a[0] < tw:
                bx, k = self(x, tw), y.a[0]
                if op == "shl":
                    return self.fit(((Z,) * k + bx)[:tw], w, s)
                return self.fit(bx[k:] + ((bx[-1] if s else Z),) * k, w, s)
            if op in ("div", "rem") and isint(y) and y.a[0] > 0 and y.a[0] & (y.a[0] - 1) == 0:
                bx, k = self(x, tw), y.a[0].bit_length() - 1
                if not s or bx[-1] == Z:
                    r = bx[k:] + (Z,) * k if op == "div" else bx[:k] + (Z,) * (tw - k)
                    return self.fit(r, w, s)
            return self.atom(t, w)
        if o == "lin":
            tw, c, items = t.a
            if w > tw:
                r = rng(t)
                if r and r[0] >= 0 and r[1] < 1 << tw:
                    return self(t, tw) + (Z,) * (w - tw)
                return self(t, tw) + self.atom(t, w)[tw:]      # above its width: whatever the extension is
            # complement: -x - 1
            acc = const(c & ((1 << w) - 1), w)
            if len(items) == 1 and items[0][1] == -1 and c == -1:
                return tuple(b ^ O for b in self(items[0][0], w))
            if len(items) == 1 and items[0][1] == -1 and c == 0:
                b = self(items[0][0], w)
                if all(x == Z for x in b[1:]):
                    return (b[0],) * w
            if len(items) == 1 and items[0][1] < 0 and (-items[0][1]) & (-items[0][1] - 1) == 0 and c in (-1, items[0][1]):
                # -(2^k x) - 1  = !(2^k x) ;  -(2^k x) - 2^k = !x << k
                k = (-items[0][1]).bit_length() - 1
                b = self(items[0][0], w)
                if c == -1:
                    return tuple(x ^ O for x in ((Z,) * k + b)[:w])
                return ((Z,) * k + tuple(x ^ O for x in b))[:w]
            for x, k in items:
                if k < 0 and -k == 1 << (w - 1):
                    k = -k          # +2^(w-1) in symmetric form
                if k <= 0 or k & (k - 1):
                    return self.addfail(t, w)
                sft = k.bit_length() - 1
                b = ((Z,) * sft + self(x, w))[:w]
                if any(p != Z and q != Z for p, q in zip(acc, b)):
                    return self.addfail(t, w)
                acc = tuple(p | q if p == Z or q == Z else p ^ q for p, q in zip(acc, b))
            return acc
        return self.atom(t, w)

    def addfail(self, t, w):
        return self.atom(t, w)

    def fit(self, b, w, s):
        if len(b) >= w:
            return b[:w]
        return b + ((b[-1] if s else Z),) * (w - len(b))

    def cond(self, c):
        if c.op == "int":
            return O if c.a[0] else Z
        if c.op == "not":
            return self.cond(c.a[0]) ^ O
        if c.op == "neg" and c.a[0].op in ("sym", "fld", "at"):
            tw = self.width(c.a[0])
            r = rng(c.a[0])
            n = tw[0] if tw else (r[1].bit_length() + 1 if r and r[0] < 0 else None)
            if n:
                return self(c.a[0], n)[n - 1]
        if c.op == "eqz" and c.a[0].op != "lin":
            # a one-bit quantity
            b = self(c.a[0], 128)
            nz = [x for x in b if x != Z]
            if not nz:
                return O
            if len(nz) == 1:
                return nz[0] ^ O
        return frozenset([(c, 0)])

    # ------------------------------------------------ what a path literal says
    def literal(self, c, v, w):
        """(zero bits, [disjunctions of which one bit is set]) implied by literal c == v over w-bit quantities"""
        while c.op == "not":
            c, v = c.a[0], not v
        if c.op == "eqz":
            d = c.a[0]
            k = 0
            if d.op == "lin":
                if len(d.a[2]) != 1:
                    return [], []
                x, co = d.a[2][0]
                if co not in (1, -1):
                    return [], []
                k = -d.a[1] * co
                d = x
            b = self(d, w)
            if k == 0:
                return ([x for x in b if x != Z], []) if v else ([], [[x for x in b if x != Z]])
            if v and k > 0:
                kb = const(k, w)
                return [x ^ y for x, y in zip(b, kb) if x ^ y != Z], []
            return [], []
        if c.op == "ult" and (isint(c.a[1]) or isint(c.a[2])):
            cw, x, y = c.a
            if isint(y):
                bound, less, t = y.a[0], v, x            # x < bound
            else:
                bound, less, t = x.a[0] + 1, not v, y    # k < y : y >= k+1
            bb = self(t, cw)
            if bound > 0 and less:
                return [z for z in bb[(bound - 1).bit_length():] if z != Z], []
            if bound > 0:
                return [], [[z for z in bb[bound.bit_length() - 1:] if z != Z]]
            return [], []
        if c.op == "neg":
            d = c.a[0]
            if d.op == "lin" and len(d.a[2]) == 1 and d.a[2][0][1] in (1, -1):
                x, co = d.a[2][0]
                b = self(x, w)
                # co*x + k < 0 (v) or >= 0 (not v)
                if co == 1:
                    bound, less = -d.a[1], v            # x < bound  /  x >= bound
                else:
                    bound, less = d.a[1] + 1, not v     # k - x < 0 : x >= k+1 ; else x < k+1
                if bound > 0 and bound & (bound - 1) == 0:
                    n = bound.bit_length() - 1
                    hi = [y for y in b[n:] if y != Z]
                    return (hi, []) if less else ([], [hi])
                if bound > 0 and less:
                    n = (bound - 1).bit_length()
                    return [y for y in b[n:] if y != Z], []
                if bound > 0:
                    n = bound.bit_length() - 1      # x >= bound > 2^n .. some bit >= n set
                    return [], [[y for y in b[n:] if y != Z]]
        return [], []
