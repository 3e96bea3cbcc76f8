"""Hash-consed value-number terms and their normal forms.

A term is a node of the value graph the dataflow engine builds; two program points hold the same term exactly
when the engine can show they hold the same value, whatever statements computed it.  All rewriting here is local
and syntactic (linear integer normal form, sequence monoid, projections); there is no search and no solver."""
import sys
sys.setrecursionlimit(100000)


class T:
    __slots__ = ("op", "a", "i", "rng", "_s", "variants")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.i = _n[0]
        t.rng = None
        t._s = None
        t.variants = None
        _tab[k] = t
    return t


def kids(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z


def walk(t, seen=None):
    """every distinct subterm"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


# ------------------------------------------------------------------ printing
def show(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    if t._s is not None:
        return t._s
    s = _show(t)
    if len(s) > 100000:
        s = s[:100000] + "..."
    t._s = s
    return s


def _show(t):
    o, a = t.op, t.a
    if o == "int":
        return str(a[0])
    if o == "sym":
        return a[0]
    if o == "lin":
        out = [] if a[1] == 0 else [str(a[1])]
        for x, c in a[2]:
            out.append(show(x) if c == 1 else "%d*%s" % (c, show(x)))
        return "(" + " + ".join(out) + ")"
    if o == "agg":
        return "%s%s{%s}" % (str(a[0]).split("::")[-1] if not str(a[0]).startswith("(") else "", "" if a[1] is None or a[1] == 0 else "@%s" % a[1], ", ".join(show(x) for x in a[2:]))
    if o == "fld":
        return "%s.%s%s" % (show(a[0]), "" if a[1] is None else "@%s." % a[1], a[2])
    if o == "seq":
        return "[" + ", ".join(show(x) for x in a) + "]"
    if o == "el":
        return show(a[0])
    if o == "sp":
        return ".." + show(a[0])
    if o == "bytes":
        return "b'" + a[0] + "'"
    if o in ("eff", "ret"):
        if o == "eff":
            return "%s!%s(%s)" % (a[0], a[1], ", ".join(show(x) for x in a[2:]))
        return "%s(%s)" % (a[0], ", ".join(show(x) for x in a[1:]))
    if o == "ref":
        return "&" + str(a[0]) + "".join("." + "/".join(show(y) if isinstance(y, T) else str(y) for y in x) for x in a[1])
    return "%s(%s)" % (o, ", ".join(show(x) if isinstance(x, T) else ("<" + ",".join(show(y) for y in x) + ">" if isinstance(x, tuple) else str(x)) for x in a))


# ------------------------------------------------------------------ integers
def wrap(v, w, s):
    v &= (1 << w) - 1
    if s and v >> (w - 1):
        v -= 1 << w
    return v


def I(v):
    return mk("int", v)


TRUE, FALSE = I(1), I(0)
UNIT = mk("agg", "()", 0)


def isint(t):
    return t.op == "int"


def _symm(c, w):
    return wrap(c, w, True)


def lin_parts(t, w):
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin" and t.a[0] == w:
        return t.a[1], dict(t.a[2])
    return 0, {t: 1}


def mklin(w, c, d, signed=False):
    d = {k: _symm(v, w) for k, v in d.items()}
    d = {k: v for k, v in d.items() if v}
    if not d:
        return I(wrap(c, w, signed))
    c = _symm(c, w)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", w, c, tuple(sorted(d.items(), key=lambda x: x[0].i)))


def add(a, b, w, s=False, sign=1):
    if a.op == "ite" and isint(b):
        return ite(a.a[0], add(a.a[1], b, w, s, sign), add(a.a[2], b, w, s, sign))
    ca, da = lin_parts(a, w)
    cb, db = lin_parts(b, w)
    for k, v in db.items():
        da[k] = da.get(k, 0) + sign * v
    return mklin(w, ca + sign * cb, da, s)


def sub(a, b, w, s=False):
    return add(a, b, w, s, -1)


def scale(a, k, w, s=False):
    c, d = lin_parts(a, w)
    return mklin(w, c * k, {x: v * k for x, v in d.items()}, s)


def add64(a, b):
    return add(a, b, 64)


def sub64(a, b):
    return add(a, b, 64, False, -1)


def typerange(w, s):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def setrng(t, lo, hi):
    if t.op in ("int",):
        return t
    if t.rng is None:
        t.rng = (lo, hi)
    else:
        t.rng = (max(t.rng[0], lo), min(t.rng[1], hi))
    return t


def pbmax(t):
    """an upper bound of the encoded size of a message with scalar fields only (a tag and a varint take at most 15 bytes)"""
    if t.op == "int":
        return 15
    if t.op == "bytes":
        return len(t.a[0]) // 2 + 15
    if t.op == "default":
        return 0 if str(t.a[0]).split("::")[-1] in ("UnknownFields", "CachedSize") else None
    if t.op in ("agg", "seq", "sp", "el"):
        xs = [x for x in (t.a[2:] if t.op == "agg" else t.a)]
        if any(not isinstance(x, T) for x in xs):
            return None
        ms = [pbmax(x) for x in xs]
        return None if None in ms else sum(ms) + (15 if t.op == "agg" and not str(t.a[0]).endswith("Option") else 0)
    if t.op == "ite":
        a, b = pbmax(t.a[1]), pbmax(t.a[2])
        return None if a is None or b is None else max(a, b)
    return 15 if t.op in ("len", "lin", "bin", "trunc", "zext", "sext") or t.rng is not None else None


def rng(t):
    """type-level range of a term (None = unknown)"""
    o = t.op
    if o == "int":
        return (t.a[0], t.a[0])
    if o == "lin":
        w, c, items = t.a
        lo = hi = c
        for x, k in items:
            r = rng(x)
            if r is None:
                return t.rng
            lo += min(k * r[0], k * r[1])
            hi += max(k * r[0], k * r[1])
        if t.rng:
            return (max(lo, t.rng[0]), min(hi, t.rng[1])) if lo <= t.rng[1] and hi >= t.rng[0] else t.rng
        return (lo, hi)
    if t.rng is not None and o in ("zext", "sext"):
        r = rng(t.a[2])
        if r is None or (o == "zext" and r[0] < 0):
            r = typerange(t.a[0], o == "sext")
        return (max(r[0], t.rng[0]), min(r[1], t.rng[1])) if r[0] <= t.rng[1] and r[1] >= t.rng[0] else t.rng
    if t.rng is not None:
        if o == "bin" and t.a[0] == "shr" and isint(t.a[4]) and not t.a[2] and 0 <= t.a[4].a[0] < t.a[1]:
            return (max(0, t.rng[0]), min(t.rng[1], ((1 << t.a[1]) - 1) >> t.a[4].a[0]))
        return t.rng
    if o == "len":
        m = pbmax(t.a[0].a[0]) if t.a[0].op == "pb" else None
        return (0, (1 << 62) if m is None else m)
    if o in BOOLS:
        return (0, 1)
    if o == "b2i":
        return (0, 1)
    if o == "trunc":
        r = rng(t.a[1])
        w = t.a[0]
        if r and r[0] >= 0 and r[1] < (1 << w):
            return r
        return None
    if o in ("zext", "sext"):
        r = rng(t.a[2])
        if r is None or (o == "zext" and r[0] < 0):
            r = typerange(t.a[0], o == "sext")
        return r
    if o == "ite":
        r1, r2 = rng(t.a[1]), rng(t.a[2])
        if r1 and r2:
            return (min(r1[0], r2[0]), max(r1[1], r2[1]))
        return None
    if o in ("ix",):
        return (0, 1 << 62)
    if o == "bin":
        op, w, s, x, y = t.a
        rx, ry = rng(x), rng(y)
        if op == "div" and isint(y) and y.a[0] > 0 and rx and rx[0] >= 0:
            return (rx[0] // y.a[0], rx[1] // y.a[0])
        if op == "rem" and isint(y) and y.a[0] > 0 and rx and rx[0] >= 0:
            return (0, min(rx[1], y.a[0] - 1))
        if op == "and":
            c = y.a[0] if isint(y) else (x.a[0] if isint(x) else None)
            if c is not None and c >= 0:
                return (0, c)
        if op == "shr" and isint(y) and rx and rx[0] >= 0:
            return (rx[0] >> y.a[0], rx[1] >> y.a[0])
        if op == "shr" and isint(y) and not s and 0 <= y.a[0] < w:
            return (0, ((1 << w) - 1) >> y.a[0])
        return typerange(w, s)
    return None


def cast(t, w1, s1, w2, s2):
    if t.op == "int":
        return I(wrap(wrap(t.a[0], w1, s1), w2, s2))
    if t.op == "ite":
        return ite(t.a[0], cast(t.a[1], w1, s1, w2, s2), cast(t.a[2], w1, s1, w2, s2))
    if w1 == w2:
        return t
    if w2 < w1:
        return trunc(w2, t, s2)
    if w1 < w2:
        if t.op == "trunc" and t.a[0] == w1 and not s1:
            r = rng(t.a[1])
            # zext(trunc(x)) == x when x fits
            if r and 0 <= r[0] and r[1] < (1 << w1) and t.a[2] == w2:
                return t.a[1]
        return mk("sext" if s1 else "zext", w1, w2, t)
    return t


def trunc(w, t, signed=False):
    if t.op == "int":
        return I(wrap(t.a[0], w, signed))
    if t.op in ("zext", "sext"):
        w0 = t.a[0]
        if w0 == w:
            return t.a[2]
        if w0 > w:
            return trunc(w, t.a[2], signed)
        return mk(t.op, w0, w, t.a[2])
    if t.op == "trunc":
        return trunc(w, t.a[1], signed)
    if t.op == "b2i":
        return t
    if t.op == "lin":
        _, c, items = t.a
        d = {k: _symm(v, w) for k, v in items}
        d = {k: v for k, v in d.items() if v}
        t2 = mklin(t.a[0], _symm(c, w), d)
        if t2.op == "int":
            return I(wrap(t2.a[0], w, signed))
        t = t2
    w1 = 64
    if t.op == "lin":
        w1 = t.a[0]
    return mk("trunc", w, t, w1)


def binop(op, w, s, a, b):
    if isint(a) and isint(b):
        x, y = a.a[0], b.a[0]
        if op == "and":
            return I(wrap(x & y, w, s))
        if op == "or":
            return I(wrap(x | y, w, s))
        if op == "xor":
            return I(wrap(x ^ y, w, s))
        if op == "shl" and 0 <= y < w:
            return I(wrap(x << y, w, s))
        if op == "shr" and 0 <= y < w:
            return I(x >> y)
        if op == "div" and y:
            q = abs(x) // abs(y)
            return I(wrap(q if (x < 0) == (y < 0) else -q, w, s))
        if op == "rem" and y:
            r = abs(x) % abs(y)
            return I(wrap(r if x >= 0 else -r, w, s))
    if op in ("and", "or", "xor") and isint(a):
        a, b = b, a
    if op in ("and", "or", "xor") and not isint(b) and a.i > b.i:
        a, b = b, a
    if isint(b):
        y = b.a[0]
        if op in ("or", "xor", "shl", "shr") and y == 0:
            return a
        if op == "and" and y == 0:
            return b
        if op == "div" and y == 1:
            return a
        if op == "shl" and 0 <= y < w:
            return scale(a, 1 << y, w, s)
        if op == "shr" and a.op == "bin" and a.a[0] == "shr" and a.a[2] == s and isint(a.a[4]):
            if not s and a.a[4].a[0] + y >= w:
                return I(0)
            return mk("bin", "shr", w, s, a.a[3], I(min(a.a[4].a[0] + y, w - 1)))
        if op == "div" and y > 0 and not s and a.op == "bin" and a.a[0] == "div" and isint(a.a[4]) and not a.a[2]:
            return mk("bin", "div", w, s, a.a[3], I(a.a[4].a[0] * y))
        if op == "rem" and y > 0:
            r = rng(a)
            if r and 0 <= r[0] and r[1] < y:
                return a
        # unsigned arithmetic on a widened value is the widened result
        if op in ("div", "rem") and a.op == "zext" and a.a[1] == w and 0 < y < (1 << a.a[0]):
            return cast(binop(op, a.a[0], False, a.a[2], b), a.a[0], False, w, s)
    return mk("bin", op, w, s, a, b)


def mul(a, b, w, s=False):
    if isint(a):
        a, b = b, a
    if isint(b):
        return scale(a, b.a[0], w, s)
    if a.i > b.i:
        a, b = b, a
    return mk("bin", "mul", w, s, a, b)


# ------------------------------------------------------------------ booleans
def notb(t):
    if t.op == "int":
        return FALSE if t.a[0] else TRUE
    if t.op == "not":
        return t.a[0]
    if t.op == "ite":
        return ite(t.a[0], notb(t.a[1]), notb(t.a[2]))
    return mk("not", t)


def eqint(a, b, w):
    if a is b:
        return TRUE
    if a.op == "ite" and isint(b):
        return ite(a.a[0], eqint(a.a[1], b, w), eqint(a.a[2], b, w))
    if b.op == "ite" and isint(a):
        return eqint(b, a, w)
    # (zext x) == const, both zext
    if a.op in ("zext", "sext") and isint(b) and rng(a) and not (rng(a)[0] <= b.a[0] <= rng(a)[1]):
        return FALSE
    if a.op == "b2i" and isint(b):
        return a.a[0] if b.a[0] == 1 else (notb(a.a[0]) if b.a[0] == 0 else FALSE)
    d = sub(a, b, w)
    return eqz(d, w)


def eqz(d, w=64):
    if d.op == "int":
        return TRUE if d.a[0] == 0 else FALSE
    if d.op == "lin":
        w, c, items = d.a
        if items[0][1] < 0:
            d = mklin(w, -c, {k: -v for k, v in items})
            if d.op == "lin":
                w, c, items = d.a
        r = rng(d)
        if r and (r[0] > 0 or r[1] < 0) and max(abs(r[0]), abs(r[1])) < (1 << (w if w < 64 else w - 1)):
            return FALSE
        if d.op == "lin" and w >= 64 and c > 0 and _sum_nonneg(items):
            return FALSE      # counters: k + (nonnegative) == 0 cannot hold without a 2^64 wrap
        if d.op == "lin" and len(items) == 1 and items[0][1] == 1 and w < 64:
            r = rng(items[0][0])          # name the root by the value the atom itself can take
            if r and not (r[0] <= -c <= r[1]):
                c2 = next((k for k in (c - (1 << w), c + (1 << w)) if r[0] <= -k <= r[1]), None)
                if c2 is None:
                    return FALSE
                d = mk("lin", w, c2, items)
    while d.op in ("zext", "sext"):
        d = d.a[2]
    if d.op in BOOLS:
        return notb(d)
    if d.op == "lin" and len(d.a[2]) == 1 and d.a[2][0][0].op in BOOLS and d.a[2][0][1] == 1 and d.a[1] == -1:
        return d.a[2][0][0]
    return mk("eqz", d)


BOOLS = ("not", "eqz", "neg", "and", "or")


def _sum_nonneg(items):
    for x, k in items:
        r = rng(x)
        if r is None or r[0] < 0 or k < 0:
            return False
    return True


def neg(d):
    """mathematical d < 0, for differences of counters/lengths (no 2^64 wrap assumed)"""
    if d.op == "int":
        return TRUE if d.a[0] < 0 else FALSE
    r = rng(d)
    if r:
        if r[1] < 0:
            return TRUE
        if r[0] >= 0:
            return FALSE
    if d.op == "lin":
        w, c, items = d.a
        if items[0][1] < 0:
            # d<0  <=>  not (-d-1 < 0)
            e = mk("lin", w, -c - 1, tuple((k, -v) for k, v in items)) if not (c == -1 and len(items) == 1 and items[0][1] == -1) else items[0][0]
            return notb(neg(e))
        # unsigned single atom: x - 1 < 0  <=> x == 0
        if len(items) == 1 and items[0][1] == 1:
            r = rng(items[0][0])
            if r and r[0] == -c - 1:
                return eqz(mklin(w, c + 1, dict(items)), w)
            if r and r[1] == -c:     # x < hi  <=>  x != hi
                return notb(eqz(mklin(w, c, dict(items)), w))
    return mk("neg", d)


def mathscale(a, k, w):
    """k*a as a mathematical linear form"""
    c, d = lin_parts(a, w)
    d = {x: v * k for x, v in d.items()}
    if not d or not k:
        return I(c * k)
    if c * k == 0 and len(d) == 1 and list(d.values())[0] == 1:
        return list(d.keys())[0]
    return mk("lin", w, c * k, tuple(sorted(d.items(), key=lambda x: x[0].i)))


def mathsub(a, b, w):
    """a-b as a mathematical linear form (constants kept exact)"""
    ca, da = lin_parts(a, w)
    cb, db = lin_parts(b, w)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) - v
    d = {k: v for k, v in d.items() if v}
    c = ca - cb
    if not d:
        return I(c)
    if c == 0 and len(d) == 1 and list(d.values())[0] == 1:
        return list(d.keys())[0]
    return mk("lin", w, c, tuple(sorted(d.items(), key=lambda x: x[0].i)))


def lt(a, b, w, s):
    if a.op == "ite" and isint(b):
        return ite(a.a[0], lt(a.a[1], b, w, s), lt(a.a[2], b, w, s))
    if b.op == "ite" and isint(a):
        return ite(b.a[0], lt(a, b.a[1], w, s), lt(a, b.a[2], w, s))
    if not (isint(a) and isint(b)) and (_foreign(a, w, s) or _foreign(b, w, s)):
        return mk("ult" if not s else "slt", w, a, b)
    return neg(mathsub(a, b, w))


def _foreign(t, w, s):
    """a term holding values outside the range of the comparison's type: it was reinterpreted on the way"""
    for x in ([t] if t.op != "lin" else [y for y, _ in t.a[2]]):
        r = rng(x)
        if r is None:
            continue
        if not s and r[0] < 0:
            return True
        if s and r[1] >= 1 << (w - 1) and r[1] >= 1 << 63:
            return True
    return False


def andb(a, b):
    if isint(a):
        return b if a.a[0] else FALSE
    if isint(b):
        return a if b.a[0] else FALSE
    if a is b:
        return a
    if a.i > b.i:
        a, b = b, a
    return mk("and", a, b)


def orb(a, b):
    return notb(andb(notb(a), notb(b)))


def ite(c, a, b):
    if isint(c):
        return a if c.a[0] else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return notb(c)
    # join aggregates field-wise so that projections stay visible
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a) == len(b.a):
        return agg(a.a[0], a.a[1], [ite(c, x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op == "seq" and b.op == "seq":
        i = 0
        while i < len(a.a) and i < len(b.a) and a.a[i] is b.a[i]:
            i += 1
        if i:
            return cat(mk("seq", *a.a[:i]), ite(c, mk("seq", *a.a[i:]), mk("seq", *b.a[i:])))
    elif a.op == "seq" and a.a and a.a[0].op == "sp" and a.a[0].a[0] is b:
        return cat(b, ite(c, mk("seq", *a.a[1:]), EMPTY))
    elif b.op == "seq" and b.a and b.a[0].op == "sp" and b.a[0].a[0] is a:
        return cat(a, ite(c, EMPTY, mk("seq", *b.a[1:])))
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


# ------------------------------------------------------------------ aggregates
def agg(ty, variant, fields):
    fields = list(fields)
    if variant in (None, "bx") and fields and fields[0].op == "fld" and fields[0].a[1] == variant and all(f.op == "fld" and f.a[2] == i and f.a[0] is fields[0].a[0] and f.a[1] == fields[0].a[1] for i, f in enumerate(fields)) and fields[0].a[3] == len(fields):
        return fields[0].a[0]
    return mk("agg", ty, variant, *fields)


def fld(t, variant, i, n=0):
    """field i (of variant) of t; n = number of fields of that variant, for eta contraction"""
    if t.op == "agg":
        if 2 + i < len(t.a) and (variant is None or t.a[1] == variant or t.a[1] is None):
            return t.a[2 + i]
    if t.op == "ite":
        x, y = fld(t.a[1], variant, i, n), fld(t.a[2], variant, i, n)
        if x is y:
            return x
        return ite(t.a[0], x, y)
    if t.op == "eff" and _hook[0]:
        r = _hook[0](t, variant, i, n)
        if r is not None:
            return r
    return mk("fld", t, variant, i, n)


_hook = [None]


def discr(t, known=None):
    if t.op == "ite":
        return ite(t.a[0], discr(t.a[1]), discr(t.a[2]))
    return mk("discr", t)


# ------------------------------------------------------------------ sequences
def seq(*parts):
    return cat(*[mk("seq", p) for p in parts])


EMPTY = mk("seq")


def el(t):
    return mk("seq", mk("el", t))


def parts_of(s):
    if s.op == "seq":
        return list(s.a)
    if s.op == "bytes":
        return [mk("el", I(b)) for b in bytes.fromhex(s.a[0])]
    if s.op == "slice" or True:
        return [mk("sp", s)]


def cat(*ss):
    ps = []
    for s in ss:
        for p in parts_of(s):
            if p.op == "sp" and p.a[0].op == "seq":
                ps.extend(p.a[0].a)
                continue
            if ps:
                q = ps[-1]
                m = _merge(q, p)
                if m is not None:
                    ps[-1] = m
                    continue
            ps.append(p)
    if len(ps) == 1 and ps[0].op == "sp":
        return ps[0].a[0]
    return mk("seq", *ps)


def _merge(q, p):
    if q.op == "rp" and p.op == "rp" and q.a[0] is p.a[0]:
        return mk("rp", q.a[0], add64(q.a[1], p.a[1]))
    if q.op == "sp" and q.a[0].op == "slice":
        v, lo, hi = q.a[0].a
        if p.op == "sp" and p.a[0].op == "slice" and p.a[0].a[0] is v and p.a[0].a[1] is hi:
            return mk("sp", slice_(v, lo, p.a[0].a[2]))
        if p.op == "el" and p.a[0].op == "at" and p.a[0].a[0] is v and p.a[0].a[1] is hi:
            return mk("sp", slice_(v, lo, add64(hi, I(1))))
    if q.op == "el" and q.a[0].op == "at":
        v, ix = q.a[0].a
        if p.op == "el" and p.a[0].op == "at" and p.a[0].a[0] is v and p.a[0].a[1] is add64(ix, I(1)):
            return mk("sp", slice_(v, ix, add64(ix, I(2))))
        if p.op == "sp" and p.a[0].op == "slice" and p.a[0].a[0] is v and p.a[0].a[1] is add64(ix, I(1)):
            return mk("sp", slice_(v, ix, p.a[0].a[2]))
    return None


def plen(p):
    if p.op == "el":
        return I(1)
    if p.op == "sp":
        return slen(p.a[0])
    if p.op == "rp":
        return p.a[1]
    if p.op == "mapcat":
        n, body, k = p.a
        l = slen(body)
        if not contains(l, lambda x: x is mk("ix", k)):
            return mul(n, l, 64)
        return mk("sum", n, l, k)
    return mk("len", mk("seq", p))


_len_hook = [None]


def slen(s):
    if s.op == "seq":
        r = I(0)
        for p in s.a:
            r = add64(r, plen(p))
        return r
    if s.op == "bytes":
        return I(len(s.a[0]) // 2)
    if s.op == "slice":
        return sub64(s.a[2], s.a[1])
    if s.op == "store":
        return slen(s.a[0])
    if s.op == "each":
        return slen(s.a[1])
    if s.op == "ite":
        x, y = slen(s.a[1]), slen(s.a[2])
        return ite(s.a[0], x, y)
    if s.op == "ref" and False:
        pass
    if _len_hook[0]:
        r = _len_hook[0](s)
        if r is not None:
            return r
    return mk("len", s)


def slice_(s, lo, hi):
    if lo is hi:
        return EMPTY
    if isint(lo) and lo.a[0] == 0 and hi is slen(s):
        return s
    if s.op == "slice":
        return slice_(s.a[0], add64(s.a[1], lo), add64(s.a[1], hi))
    if s.op == "bytes" and isint(lo) and isint(hi):
        return mk("bytes", s.a[0][2 * lo.a[0]:2 * hi.a[0]])
    if s.op == "seq":
        # drop/keep whole parts when the borders align syntactically
        pos = I(0)
        starts = []
        for p in s.a:
            starts.append(pos)
            if p.op == "rp" and isint(p.a[1]) and False:
                pass
            pos = add64(pos, plen(p))
        ends = starts[1:] + [pos]
        li = next((k for k, x in enumerate(starts) if x is lo), None)
        hj = next((k for k, x in enumerate(ends) if x is hi), None)
        if li is not None and hj is not None and li <= hj:
            return cat(*[mk("seq", p) for p in s.a[li:hj + 1]])
        # inside one constant repeat / element list
        if isint(lo) and isint(hi) and all(isint(x) for x in starts) and isint(pos) and hi.a[0] <= pos.a[0] and hi.a[0] - lo.a[0] <= 64:
            return cat(*[el(at(s, I(k))) for k in range(lo.a[0], hi.a[0])])
        # drop a prefix that aligns at lo
        if li is not None and li > 0:
            return slice_(cat(*[mk("seq", p) for p in s.a[li:]]), I(0), sub64(hi, lo))
        if hj is not None and hj < len(s.a) - 1:
            return slice_(cat(*[mk("seq", p) for p in s.a[:hj + 1]]), lo, hi)
    return mk("slice", s, lo, hi)


def at(s, ix):
    if s.op == "bytes" and isint(ix):
        b = bytes.fromhex(s.a[0])
        if 0 <= ix.a[0] < len(b):
            return I(b[ix.a[0]])
    if s.op == "slice":
        return at(s.a[0], add64(s.a[1], ix))
    if s.op == "seq":
        pos = I(0)
        for p in s.a:
            if p.op == "el" and pos is ix:
                return p.a[0]
            if p.op == "sp" and isint(pos) and isint(ix) and not isint(plen(p)):
                if len(s.a) == 1:
                    return at(p.a[0], ix)
                break
            nxt = add64(pos, plen(p))
            if p.op == "sp" and not isint(ix) and isint(pos) and pos.a[0] == 0:
                # an index counted from the end of the leading part
                d = mathsub(nxt, ix, 64)
                if isint(d) and 0 < d.a[0] < (1 << 32):
                    return at(p.a[0], ix)
            if p.op == "rp" and isint(pos) and isint(ix) and isint(nxt) and pos.a[0] <= ix.a[0] < nxt.a[0]:
                return p.a[0]
            if p.op == "mapcat" and len(s.a) == 1 and slen(p.a[1]) is I(1):
                b = p.a[1].a[0]
                if b.op == "el":
                    return subst(b.a[0], {mk("ix", p.a[2]): ix})
            pos = nxt
        # from the end: last element
    if s.op == "store":
        for (j, v) in reversed(s.a[1]):
            if j is ix:
                return v
            d = sub64(j, ix)
            if not (isint(d) and d.a[0] != 0):
                return mk("at", s, ix)
        return at(s.a[0], ix)
    if s.op == "ite":
        x, y = at(s.a[1], ix), at(s.a[2], ix)
        return ite(s.a[0], x, y)
    if s.op == "each" and ix is s.a[0]:
        return at(s.a[1], ix)
    return mk("at", s, ix)


def store(s, ix, v):
    if s.op == "seq":
        pos = I(0)
        out = list(s.a)
        for k, p in enumerate(s.a):
            if p.op == "el" and pos is ix:
                out[k] = mk("el", v)
                return mk("seq", *out)
            nxt = add64(pos, plen(p))
            if p.op == "rp" and isint(pos) and isint(ix) and isint(nxt) and pos.a[0] <= ix.a[0] < nxt.a[0]:
                a, b = ix.a[0] - pos.a[0], nxt.a[0] - ix.a[0] - 1
                new = ([mk("rp", p.a[0], I(a))] if a else []) + [mk("el", v)] + ([mk("rp", p.a[0], I(b))] if b else [])
                return mk("seq", *(out[:k] + new + out[k + 1:]))
            pos = nxt
    if v.op == "at" and v.a[0] is s and v.a[1] is ix:
        return s
    if s.op == "store":
        items = [(j, x) for (j, x) in s.a[1] if j is not ix]
        return mk("store", s.a[0], tuple(items + [(ix, v)]))
    return mk("store", s, ((ix, v),))


# ------------------------------------------------------------------ substitution
REBUILD = {}


def rebuild(op, a):
    """re-normalise a node after its children changed"""
    if op == "lin":
        r = I(a[1])
        w = a[0]
        c, d = a[1], {}
        for x, k in a[2]:
            cx, dx = lin_parts(x, w)
            c += k * cx
            for y, v in dx.items():
                d[y] = d.get(y, 0) + k * v
        return mklin(w, c, d)
    if op == "eqz":
        return eqz(a[0], a[0].a[0] if a[0].op == "lin" else 64)
    if op == "neg":
        return neg(a[0])
    if op == "not":
        return notb(a[0])
    if op in ("ult", "slt"):
        if isint(a[1]) and isint(a[2]):
            return TRUE if wrap(a[1].a[0], a[0], op == "slt") < wrap(a[2].a[0], a[0], op == "slt") else FALSE
        return lt(a[1], a[2], a[0], op == "slt")
    if op == "and":
        return andb(a[0], a[1])
    if op == "ite":
        return ite(*a)
    if op == "bin":
        if a[0] == "mul":
            return mul(a[3], a[4], a[1], a[2])
        return binop(*a)
    if op == "agg":
        return agg(a[0], a[1], a[2:])
    if op == "fld":
        return fld(*a)
    if op == "discr":
        return rediscr(a[0])
    if op == "seq":
        return cat(*[mk("seq", p) for p in a])
    if op == "sp":
        return mk("sp", a[0])
    if op == "len":
        return slen(a[0])
    if op == "slice":
        return slice_(*a)
    if op == "at":
        return at(*a)
    if op == "store":
        s = a[0]
        for j, v in a[1]:
            s = store(s, j, v)
        return s
    if op in ("zext", "sext"):
        s = op == "sext"
        return cast(a[2], a[0], s, a[1], s)
    if op == "trunc":
        return trunc(a[0], a[1])
    if op in REBUILD:
        return REBUILD[op](*a)
    return mk(op, *a)


def rediscr(t):
    if t.op == "agg" and isinstance(t.a[1], int) and _agg_discr[0]:
        r = _agg_discr[0](t)
        if r is not None:
            return r
    if t.op == "ite":
        return ite(t.a[0], rediscr(t.a[1]), rediscr(t.a[2]))
    return mk("discr", t)


_agg_discr = [None]


def subst(t, m, memo=None):
    """simultaneous replacement of subterms (m: T -> T)"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        else:
            ch = False
            na = []
            for y in x.a:
                if isinstance(y, T):
                    z = go(y)
                    ch |= z is not y
                    na.append(z)
                elif isinstance(y, tuple):
                    z = tuple(gt(q) for q in y)
                    ch |= z != y
                    na.append(z)
                else:
                    na.append(y)
            if ch:
                if x.op == "neg" and x.a[0].op == "lin" and na[0].op == "int":
                    # the sign of a difference, not its residue
                    na[0] = I(wrap(na[0].a[0], x.a[0].a[0], True))
                r = rebuild(x.op, tuple(na))
                if x.rng and r.op != "int" and r.rng is None and r.op == x.op:
                    r.rng = x.rng
                if x.variants and r.variants is None:
                    r.variants = x.variants
            else:
                r = x
        memo[x] = r
        return r

    def gt(q):
        if isinstance(q, T):
            return go(q)
        if isinstance(q, tuple):
            return tuple(gt(z) for z in q)
        return q
    return go(t)


def max_ix(t):
    m = 0
    for x in walk(t):
        if x.op == "ix":
            m = max(m, x.a[0])
        elif x.op == "acc":
            m = max(m, x.a[0])
    return m


def conds_of(t):
    return [x for x in walk(t) if x.op == "ite"]
