"""Reachable-state analysis of a small stateful object: method transformers (exit partitions of the abstract interpreter),
an interval box per mode, widened to the constants of the code, and sets of equalities kept while they are inductive."""
from terms import *
import terms
from orc import *
from engine import State, Giveup, NeedSplit


# ------------------------------------------------------------------ polynomials modulo 2^w
class Poly:
    """value of a term as a polynomial over atoms, modulo 2^w"""

    def __init__(self, eng, st, w):
        self.eng, self.st, self.w = eng, st, w
        self.rows = None

    def add(self, p, q, k=1):
        r = dict(p)
        for m, c in q.items():
            v = (r.get(m, 0) + k * c) % (1 << self.w)
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                r = self.add(r, {tuple(sorted(m + n)): (c * d) % (1 << self.w)})
        return r

    def of(self, t, w=None):
        """w: width the term itself is computed in (None: unknown, at least self.w)"""
        W = self.w
        if t.op == "int":
            c = t.a[0] % (1 << W)
            return {(): c} if c else {}
        if t.op == "lin":
            if t.a[0] >= W or self.exact(t):
                r = self.of(I(t.a[1]))
                for x, k in t.a[2]:
                    r = self.add(r, self.of(x), k % (1 << W))
                return r
        if t.op == "bin" and t.a[0] == "mul" and t.a[1] >= W:
            return self.mul(self.of(t.a[3]), self.of(t.a[4]))
        if t.op in ("zext", "sext"):
            x = t.a[2]
            if t.a[0] >= W:
                return self.of(x)
            b = self.eng.bounds(self.st, x)
            lo, hi = typerange(t.a[0], t.op == "sext")
            if b and lo <= b[0] and b[1] <= hi:
                return self.of(x)
            if x.op == "trunc" and x.a[0] == t.a[0] and self.fits(x.a[1], lo, hi):
                return self.of(x.a[1])
        if t.op == "trunc":
            if t.a[0] >= W:
                return self.of(t.a[1])
            b = self.eng.bounds(self.st, t.a[1])
            if b and 0 <= b[0] and b[1] < (1 << t.a[0]):
                return self.of(t.a[1])
        if t.op == "at" and not isint(t.a[1]):
            b = self.eng.bounds(self.st, t.a[1])
            if b and b[0] == b[1]:
                u = at(t.a[0], I(b[0]))
                return self.of(u) if u.op != "at" else {(u.i,): 1}
        if t.op != "at":
            b = self.eng.bounds(self.st, t)
            if b and b[0] == b[1]:
                return self.of(I(b[0]))
        return {(t.i,): 1}

    def exact(self, t):
        b = self.eng.bounds(self.st, t)
        if not b:
            return False
        w = t.a[0]
        return 0 <= b[0] and b[1] < (1 << w)

    def fits(self, x, lo, hi):
        """lo <= x <= hi as a signed number, by bounds or by the comparisons recorded for it (or for an equal term)"""
        b = self.eng.bounds(self.st, x)
        if b and lo <= b[0] and b[1] <= hi:
            return True
        l = h = None
        for f, v in self.st.facts.items():
            if f.op != "slt":
                continue
            w, a, c = f.a
            if isint(c) and (a is x or self.same(a, x)):
                k = wrap(c.a[0], w, True)
                if v:
                    h = k - 1 if h is None else min(h, k - 1)
                else:
                    l = k if l is None else max(l, k)
            elif isint(a) and (c is x or self.same(c, x)):
                k = wrap(a.a[0], w, True)
                if v:
                    l = k + 1 if l is None else max(l, k + 1)
                else:
                    h = k if h is None else min(h, k)
        # comparisons of an equal term kept as bounds of a linear fact
        if (l is None or h is None) and x.op == "lin" or x.op in ("fld", "sym", "at"):
            for f, v in self.st.facts.items():
                if f.op != "neg":
                    continue
                d = f.a[0]
                if d is x or self._shift(d, x) is not None:
                    k = self._shift(d, x)          # d = x + k
                    if k is None:
                        continue
                    if v:
                        h = -k - 1 if h is None else min(h, -k - 1)
                    else:
                        l = -k if l is None else max(l, -k)
                else:
                    k = self._shift(terms.scale(d, -1, 64), x)     # -d = x + k  ->  d = -x - k
                    if k is None:
                        continue
                    if v:                                           # -x-k < 0 -> x > -k
                        l = -k + 1 if l is None else max(l, -k + 1)
                    else:                                           # -x-k >= 0 -> x <= -k
                        h = -k if h is None else min(h, -k)
        if l is not None and h is not None and lo <= l and h <= hi:
            return True
        # z == z truncated and extended again: z (and what equals it) is in the range of the narrow type
        for f, v in self.st.facts.items():
            if f.op != "eqz" or not v or f.a[0].op != "lin" or f.a[0].a[1]:
                continue
            w = f.a[0].a[0]
            for y, k in f.a[0].a[2]:
                if y.op in ("sext", "zext") and y.a[1] == w and y.a[2].op == "trunc" and y.a[2].a[0] == y.a[0]:
                    z = y.a[2].a[1]
                    d = terms.sub(z, y, w)
                    tr = typerange(y.a[0], y.op == "sext")
                    if lo <= tr[0] and tr[1] <= hi and (d is f.a[0] or terms.scale(d, -1, w) is f.a[0]) and (z is x or self.same(z, x)):
                        return True
        return False

    def _shift(self, d, x):
        """k with d = x + k as mathematical numbers, by the facts of the partition"""
        e = terms.sub(d, x, 64)
        if e.op == "int":
            return wrap(e.a[0], 64, True)
        if self.rows is None:
            return None
        r = self.reduce(self.of(e))
        if not r:
            return 0
        if list(r) == [()]:
            return wrap(r[()], self.w, True)
        return None

    # -------------------------------------------------- linear algebra over the partition's equalities
    def learn(self, extra=()):
        self.rows = []
        for f, v in self.st.facts.items():
            if f.op == "eqz" and v:
                d = f.a[0]
                if d.op == "lin" and d.a[0] < self.w:
                    b = self.eng.bounds(self.st, d)
                    # a small difference of small numbers that is 0 modulo 2^w is 0
                    if not b or b[0] <= -(1 << d.a[0]) or b[1] >= (1 << d.a[0]):
                        continue
                    p = self.of(I(d.a[1]))
                    for x, k in d.a[2]:
                        p = self.add(p, self.of(x), k % (1 << self.w))
                    self.row(p)
                else:
                    self.row(self.of(d))
        for p in extra:
            self.row(p)
        return self

    def row(self, p, depth=0):
        p = self.reduce(p)
        for m in sorted(p, key=lambda m: (-len(m), m)):
            c = p[m]
            if m and c % 2:
                inv = pow(c, -1, 1 << self.w)
                q = {n: (d * inv) % (1 << self.w) for n, d in p.items()}
                rows = []
                for (m2, q2) in self.rows:
                    if m in q2:
                        q2 = self.add(q2, q, -q2[m])
                    rows.append((m2, q2))
                rows.append((m, q))
                self.rows = rows
                if len(m) == 1 and depth < 8:
                    # products of the atom in earlier rows
                    again = [r for r in rows if any(len(n) > 1 and m[0] in n for n in r[1])]
                    if again:
                        self.rows = [r for r in rows if r not in again]
                        for r in again:
                            self.row(r[1], depth + 1)
                return

    def reduce(self, p):
        for _ in range(8):
            before = p
            for m, q in self.rows or ():
                if m in p:
                    p = self.add(p, q, -p[m])
                if len(m) == 1 and all(len(n) <= 1 for n in q):
                    for n in [n for n in p if len(n) > 1 and m[0] in n]:
                        if n in p:
                            rest = list(n)
                            rest.remove(m[0])
                            p = self.add(p, self.mul(q, {tuple(rest): 1}), -p[n])
            if p == before:
                break
        return p

    def same(self, a, b):
        if a is b:
            return True
        return not self.reduce(self.add(self.of(a), self.of(b), -1))


# ------------------------------------------------------------------ machines
class Machine:
    """an object of one type with its methods, over symbolic states"""

    def __init__(self, ctx, adt, layer, width=None, **kw):
        self.ctx, self.adt = ctx, adt
        self.eng = ctx.engine(layer, fork_asserts=True, **kw)
        self.root = ("P", "self")
        self.n = 0
        m = self.method("write")
        ty = ctx.p.t(m.locals[1])["e"]
        self.ty = ty
        self.me = self.eng.annotate(mk("sym", "self", ctx.p.t(ty)["s"]), ty)
        self.eng.rty[self.root] = ty
        self.leaves = self.flatten(ty)

    def method(self, name, trait=None):
        fs = [f for f in self.ctx.p.methods(self.adt, trait) if f.name == name]
        if len(fs) != 1:
            raise Anchor("%s::%s not found" % (self.adt, name))
        return fs[0]

    def flatten(self, ty):
        out = []

        def go(ty, path, names):
            t = self.ctx.p.t(ty)
            last = t.get("path", "").split("::")[-1]
            if t["k"] == "adt" and t["kind"] == "struct" and t.get("local") and t["variants"] and self.ctx.leaf_kind(ty) is None or not path:
                fs = t["variants"][0]["fields"]
                for i, f in enumerate(fs):
                    go(f["ty"], path + ((None, i, len(fs)),), names + [f["name"]])
                return
            if t["k"] == "adt" and t.get("local") and last in self.inner and t["variants"]:
                fs = t["variants"][0]["fields"]
                for i, f in enumerate(fs):
                    go(f["ty"], path + ((None, i, len(fs)),), names + [f["name"]])
                return
            k = "num" if t["k"] == "int" else "bool" if t["k"] == "bool" else "seq" if t["k"] == "array" or last == "Vec" else "sink" if last in self.sinks else "other"
            out.append(Leaf(path, k, ty, names))
        go(ty, (), [])
        return out

    def since(self, s, base):
        if s is base:
            return []
        ps = parts_of(s)
        if ps and ps[0].op == "sp" and ps[0].a[0] is base:
            return ps[1:]
        return None

    inner = ()
    sinks = ("CompressionStream",)

    def start(self, value=None, facts=()):
        st = State()
        for g in ("verify", "statnew", "flush", "new"):
            st.mem[("G", g)] = EMPTY
        st.mem[self.root] = self.me if value is None else value
        for c, v in facts:
            if not self.eng.assume(st, c, v):
                return None
        st.pc = ()
        return st

    def fresh(self, name, ty):
        return self.eng.annotate(mk("sym", name, self.ctx.p.t(ty)["s"]), ty)

    def call(self, st, f, args=()):
        """run a method on the object in st -> outs.  Missing arguments become fresh symbols / objects."""
        av = [mk("ref", self.root, ())]
        for i in range(1, f.argc):
            if i - 1 < len(args) and args[i - 1] is not None:
                av.append(args[i - 1])
                continue
            ty = f.locals[i + 1]
            y = self.ctx.p.t(ty)
            if y["k"] == "ref":
                r = ("P", "arg%d_%s" % (i, f.name))
                self.eng.rty[r] = y["e"]
                if r not in st.mem:
                    st.mem[r] = self.fresh("arg%d_%s" % (i, f.name), y["e"])
                av.append(mk("ref", r, ()))
            else:
                av.append(self.fresh("arg%d_%s" % (i, f.name), ty))
        try:
            return self.eng.call_fn(f, av, st)
        except (Giveup, NeedSplit) as x:
            raise Anchor("%s: cannot analyse: %s" % (f.path, x))

    def argref(self, f, i):
        return ("P", "arg%d_%s" % (i, f.name))

    def consts(self, fns):
        """integer constants of the code reachable from some functions (widening thresholds)"""
        out, seen, work = set(), set(), [f.id for f in fns]

        def scan(x):
            if isinstance(x, (list, tuple)):
                for y in x:
                    scan(y)
            elif isinstance(x, dict):
                v = x.get("v")
                if "t" in x and isinstance(v, str) and v.lstrip("-").isdigit():
                    out.add(int(v))
                for y in x.values():
                    scan(y)
        while work:
            i = work.pop()
            if i in seen or self.ctx.p.fns[i] is None:
                continue
            seen.add(i)
            f = self.ctx.p.fns[i]
            if not f.local:
                continue
            scan(f.blocks)
            work += f.callees()
        return out
