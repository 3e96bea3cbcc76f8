"""Run-length encoders: every write prolongs the decoded content by exactly the value written (C18, C19), positions name
the number of values pending in the open group (C07)."""
from terms import *
import terms
from orc import *
from machine import Machine, Poly
from layers import adt_of, column_layer
import r_writer as rw


def rle_layer(eng, callee):
    a = adt_of(eng, callee)
    m = callee["decl"].split("::")[-1]
    if a == "CompressionStream":
        return column_layer(eng, callee)
    if callee.get("trait", "").endswith("VarInt") and m == "write_varint":
        return column_layer(eng, callee)
    if a == "CompressionStreamPosition" and m == "record":
        return column_layer(eng, callee)
    return None


class Bad(Exception):
    pass


# ------------------------------------------------------------------ content sequences
# items: ("el", t) | ("sl", base, lo, hi) | ("ap", base, delta, n)
class Content:
    def __init__(self, eng, st, w):
        self.eng, self.st, self.w = eng, st, w
        self.pe = Poly(eng, st, w).learn()          # elements
        self.pl = self.pe if w == 64 else Poly(eng, st, 64).learn()

    def le(self, a, b):
        """a <= b decided?"""
        d = terms.mathsub(b, a, 64)
        if d.op == "int":
            return d.a[0] >= 0
        r = self.eng.decide(self.st, terms.neg(d))
        if r is not None:
            return not r
        return None

    def leq(self, a, b):
        if self.pl.same(a, b):
            return True
        x = terms.mathsub(a, b, 64)
        d = self.eng.bounds(self.st, x)
        if d and (d[0] > 0 or d[1] < 0):
            return False
        if d and d[0] == d[1] == 0:
            return True
        return self.le(a, b) is True and self.le(b, a) is True

    def of(self, s):
        """items of a sequence term"""
        out = []
        for p in parts_of(s):
            if p.op == "el":
                out.append(("el", p.a[0]))
            elif p.op == "rp":
                out.append(("ap", p.a[0], I(0), p.a[1]))
            elif p.op == "sp":
                x = p.a[0]
                if x.op == "slice":
                    out.append(("sl", x.a[0], x.a[1], x.a[2]))
                elif x.op == "seq":
                    out += self.of(x)
                else:
                    out.append(("sl", x, I(0), slen(x)))
            elif p.op == "mapcat":
                n, body, k = p.a
                if body.op == "seq" and len(body.a) == 1 and body.a[0].op == "el":
                    out.append(("map", n, body.a[0].a[0], k))
                else:
                    raise Bad("content in an unknown form: %s" % short(p, 200))
            else:
                raise Bad("content in an unknown form: %s" % short(p, 200))
        return out

    def norm(self, it):
        """resolve a head item -> list of items"""
        if it[0] == "map":
            n, e, k = it[1:]
            ix = mk("ix", k)
            if e.op == "at" and e.a[1] is ix and not contains(e.a[0], lambda x: x is ix):
                return [("sl", e.a[0], I(0), n)]
            if not contains(e, lambda x: x is ix):
                return [("ap", e, I(0), n)]
            return [it]
        if it[0] == "sl":
            b, lo, hi = it[1:]
            if self.leq(lo, hi):
                return []
            if b.op == "store":
                base, items = b.a[0], list(b.a[1])
                j, v = items[-1]
                rest = base
                for jj, vv in items[:-1]:
                    rest = store(rest, jj, vv)
                if self.le(hi, j) or self.le(add64(j, I(1)), lo):
                    return [("sl", rest, lo, hi)]
                if self.le(lo, j) and self.le(add64(j, I(1)), hi):
                    return [("sl", rest, lo, j), ("el", v), ("sl", rest, add64(j, I(1)), hi)]
                return [it]
            if b.op == "seq":
                pos = I(0)
                if isint(lo) and lo.a[0] == 0 and self.leq(hi, slen(b)):
                    return self.of(b)
                # cut off what lies before lo / behind hi
                for k, p in enumerate(b.a):
                    nxt = add64(pos, plen(p))
                    if self.le(nxt, lo) and k + 1 < len(b.a):
                        pos = nxt
                        continue
                    if self.le(hi, nxt) and self.le(pos, lo):
                        a, c = sub64(lo, pos), sub64(hi, pos)
                        if p.op == "el":
                            return [("el", p.a[0])] if self.leq(sub64(c, a), I(1)) else [it]
                        if p.op == "rp":
                            return [("ap", p.a[0], I(0), sub64(c, a))]
                        if p.op == "sp":
                            return [("sl", p.a[0], a, c)]
                        return [it]
                    if self.le(pos, lo) and self.le(nxt, hi) and self.le(add64(lo, I(1)), nxt):
                        return [("sl", b, lo, nxt), ("sl", b, nxt, hi)]
                    return [it]
                return [it]
            if b.op == "slice":
                return [("sl", b.a[0], add64(b.a[1], lo), add64(b.a[1], hi))]
        if it[0] == "ap" and self.leq(it[3], I(0)):
            return []
        return [it]

    def head(self, L):
        while L:
            r = self.norm(L[0])
            if len(r) == 1 and all(x is y for x, y in zip(r[0], L[0])):
                return L[0]
            L[:1] = r
        return None

    def size(self, it):
        if it[0] == "el":
            return I(1)
        if it[0] == "sl":
            return sub64(it[3], it[2])
        if it[0] == "ap":
            return it[3]
        return it[1]

    def total(self, L):
        r = I(0)
        for it in L:
            r = add64(r, self.size(it))
        return r

    def peel(self, L):
        """replace the head of L by its first element and the rest"""
        it = L[0]
        if it[0] == "sl":
            b, lo, hi = it[1:]
            if not self.le(add64(lo, I(1)), hi):
                raise Bad("cannot tell whether %s is empty" % self.show([it]))
            L[:1] = [("el", at(b, lo)), ("sl", b, add64(lo, I(1)), hi)]
        elif it[0] == "ap":
            b, d, n = it[1:]
            if not self.le(I(1), n):
                raise Bad("cannot tell whether %s is empty" % self.show([it]))
            L[:1] = [("el", b), ("ap", add(b, d, self.w), d, sub64(n, I(1)))]
        else:
            raise Bad("cannot take one element of %s" % self.show([it]))

    def const(self, it):
        n = self.size(it)
        b = self.eng.bounds(self.st, n)
        if b and b[0] == b[1]:
            return b[0]
        for k in range(0, 5):
            if self.leq(n, I(k)):
                return k
        return None

    def eq(self, A, B):
        """None when the two contents are equal, otherwise a description of where they are not"""
        A, B = list(A), list(B)
        for _ in range(400):
            a, b = self.head(A), self.head(B)
            if a is None and b is None:
                return None
            if a is None or b is None:
                return "%s is left over" % self.show(A or B)
            if a[0] == "el" and b[0] == "el":
                if not self.pe.same(a[1], b[1]):
                    return "%s is not %s" % (short(a[1], 150), short(b[1], 150))
                A.pop(0)
                B.pop(0)
                continue
            if a[0] == b[0] == "sl" and a[1] is b[1] and self.leq(a[2], b[2]):
                if self.leq(a[3], b[3]):
                    A.pop(0)
                    B.pop(0)
                    continue
                if self.le(a[3], b[3]):
                    A.pop(0)
                    B[0] = ("sl", b[1], a[3], b[3])
                    continue
                if self.le(b[3], a[3]):
                    B.pop(0)
                    A[0] = ("sl", a[1], b[3], a[3])
                    continue
            if a[0] == b[0] == "ap" and self.pe.same(a[1], b[1]) and self.pe.same(a[2], b[2]):
                if self.leq(a[3], b[3]):
                    A.pop(0)
                    B.pop(0)
                    continue
                x, y, X, Y = (a, b, A, B) if self.le(a[3], b[3]) else (b, a, B, A) if self.le(b[3], a[3]) else (None,) * 4
                if x:
                    X.pop(0)
                    Y[0] = ("ap", add(y[1], mul(y[2], x[3], self.w), self.w), y[2], sub64(y[3], x[3]))
                    continue
            if a[0] == "el":
                self.peel(B)
                continue
            if b[0] == "el":
                self.peel(A)
                continue
            if self.const(a) is not None and self.const(a) <= 8:
                self.peel(A)
                continue
            if self.const(b) is not None and self.const(b) <= 8:
                self.peel(B)
                continue
            return "%s against %s" % (self.show(A), self.show(B))
        return "too long to compare"

    def show(self, L):
        return "[" + ", ".join("%s(%s)" % (it[0], "; ".join(short(x, 80) if isinstance(x, T) else str(x) for x in it[1:])) for it in L[:4]) + "]"


# ------------------------------------------------------------------ the format
def natural(c, t, w):
    """candidate natural numbers n with (n mod 2^w) == t for the header byte t"""
    out = [t]
    if t.op == "trunc":
        out = [t.a[1]]
    for k, x in enumerate(out):
        while x.op in ("zext",):
            x = x.a[2]
        if x.op == "lin" and x.a[0] < 64:      # the same combination as a number, when it stays in the range of its type
            b = c.eng.bounds(c.st, x)
            if b and 0 <= b[0] and b[1] < (1 << x.a[0]):
                x = mk("lin", 64, x.a[1], x.a[2])
        out[k] = x
    x = out[0]
    if x.op == "lin" and x.a[0] <= 64 and any(y.op in ("trunc", "zext", "bin") for y, _ in x.a[2]):
        # modulo 2^w a truncation is what it truncates
        ww = min(w, x.a[0])
        n = I(x.a[1])
        for y, k in x.a[2]:
            if y.op == "bin" and y.a[0] == "xor" and isint(y.a[4]) and (y.a[4].a[0] + 1) % (1 << ww) == 0:
                n = terms.mathsub(n, I(k), 64)           # !y == -1 - y
                y, k = y.a[3], -k
            while y.op == "zext" or y.op == "trunc" and y.a[0] >= ww:
                y = y.a[2] if y.op == "zext" else y.a[1]
            n = terms.mathsub(n, terms.mathscale(y, -k, 64), 64)
        out.append(n)
    return out


def decode(c, ps, signed):
    """bytes appended to the stream -> values, by the rules of byte RLE (signed None) or integer RLE version 1"""
    out = []
    ps = list(ps)
    groups = []
    while ps:
        p = ps.pop(0)
        if p.op == "sp" and p.a[0].op == "ite" or p.op == "el" and p.a[0].op == "ite":
            raise Bad("undecided bytes %s" % short(p, 200))
        if p.op != "el":
            raise Bad("a group does not start with its one header byte but with %s" % short(p, 200))
        h = p.a[0]
        run = lit = None
        for t in natural(c, h, 8):
            if isint(t):
                v = t.a[0] & 255
                if v < 128:
                    run = I(v + 3)
                else:
                    lit = I(256 - v)
                break
            n = terms.mathsub(t, I(-3), 64)
            b = c.eng.bounds(c.st, n)
            if b and 3 <= b[0] and b[1] <= 130:
                run = n
                break
            for k in (0, 256):
                n = terms.mathsub(I(k), t, 64)
                b = c.eng.bounds(c.st, n)
                if b and 1 <= b[0] and b[1] <= 128:
                    lit = n
                    break
        if run is None and lit is None:
            b = [c.eng.bounds(c.st, t) for t in natural(c, h, 8)]
            raise Bad("the header byte %s (in %s) is neither a run of 3..130 nor a literal group of 1..128" % (short(h, 100), b))
        if run is not None:
            if signed is None:
                if not ps or ps[0].op != "el":
                    raise Bad("the header of a run is not followed by one byte")
                out.append(("ap", ps.pop(0).a[0], I(0), run))
            else:
                if len(ps) < 2 or ps[0].op != "el":
                    raise Bad("the header of a run is not followed by a delta byte and a base")
                d = ps.pop(0).a[0]
                out.append(("ap", varint_arg(ps.pop(0), signed), terms.cast(d, 8, True, 64, True), run))
            groups.append(("run", run))
            continue
        groups.append(("literals", lit))
        got = I(0)
        while not c.leq(got, lit):
            if not ps:
                raise Bad("a literal group announces %s values but %s follow" % (short(lit, 100), short(got, 100)))
            q = ps.pop(0)
            if signed is None:
                items = c.of(mk("seq", q))
            else:
                items = values(q, signed)
            items = [i for it in items for i in c.norm(it)]
            if c.le(add64(got, c.total(items)), lit) is not True:
                raise Bad("a literal group announces %s values but more follow: %s" % (short(lit, 100), c.show(items)))
            got = add64(got, c.total(items))
            out += items
    return out, groups


def varint_arg(p, signed):
    if p.op == "sp" and p.a[0].op == "varint":
        if p.a[0].a[0] != ("s" if signed else "u"):
            raise Bad("a %s value is written as a varint of the other signedness" % ("signed" if signed else "unsigned"))
        return p.a[0].a[1]
    raise Bad("not a varint: %s" % short(p, 200))


def values(q, signed):
    if q.op == "mapcat":
        n, body, k = q.a
        if body.op == "seq" and len(body.a) == 1:
            return [("map", n, varint_arg(body.a[0], signed), k)]
        if body.op == "varint":
            return [("map", n, varint_arg(mk("sp", body), signed), k)]
        raise Bad("a literal group holds something else than varints: %s" % short(q, 200))
    return [("el", varint_arg(q, signed))]


# ------------------------------------------------------------------ encoders as machines
class Encoder(Machine):
    inner = ("IntRLEv1",)

    def __init__(self, ctx, name, signed, rep):
        adts = [ctx.p.types[i]["path"] for i in ctx.p.raw["adts"] if ctx.p.types[i].get("path", "").split("::")[-1] == name]
        if len(adts) != 1:
            raise Anchor("encoder %s not found" % name)
        Machine.__init__(self, ctx, adts[0], rle_layer)
        self.name, self.signed, self.rep = name, signed, rep
        self.w = 8 if signed is None else 64
        sinks = [l for l in self.leaves if l.kind == "sink"]
        if len(sinks) != 1:
            raise Anchor("%s does not hold exactly one compression stream" % name)
        self.sink = sinks[0]
        self.fin = self.method("finish")
        self.wr = self.method("write")
        self.nums = [l for l in self.leaves if l.kind in ("num",)]
        self.x = self.fresh("x", self.wr.locals[2])
        self.sink0 = self.sink.get(self.me)
        cs = self.consts([self.fin, self.wr]) | {0, 1, 2, 3, 127, 128, 129, 130, 131, 255}
        self.th = sorted(set(c + d for c in cs for d in (-1, 0, 1)))
        self.parts = 0

    # ---- finishing from a state
    def flush(self, st, base):
        """[(state, parts appended to the stream since `base`, new object)] for the successful exits of finish"""
        res = []
        todo = self.call(st.fork(), self.fin)
        for o in todo:
            self.parts += 1
            if o.kind == "panic":
                res.append((o.st, None, o.info))
                continue
            if is_err(o.val):
                continue
            new = o.st.mem[self.root]
            for s, k in rw.open_term(self.eng, o.st, self.sink.get(new)):
                if k.op != "finished":
                    res.append((s, None, "the stream is not finished: %s" % short(k, 200)))
                    continue
                ps = self.since(k.a[0], base)
                if ps is None:
                    res.append((s, None, "bytes already in the stream are lost: %s" % short(k, 200)))
                    continue
                res.append((s, ps, s.mem[self.root]))
        return res

    def modes(self):
        """the conditions under which finish emits what it emits, on a free state: [(literals, parts)]"""
        out = []
        seen = set()
        for st, ps, new in self.flush(self.start(), self.sink0):
            # (what a loop meets on the way is no condition on the object: without it the mode covers more)
            lits = tuple((c, v) for c, v in st.pc if c.op != "ok" and not contains(c, lambda t: t.op in ("ixe", "trip", "fold", "ix")))
            if lits in seen:
                continue
            seen.add(lits)
            out.append(lits)
        # refined by what write asks about the object alone
        preds = []
        for o in self.call(self.start(), self.wr, (self.x,)):
            for c, v in o.st.pc:
                if c not in preds and not contains(c, lambda t: t is self.x or t.op in ("at", "ok", "ixe", "trip", "fold", "slt", "ult")) and contains(c, lambda t: t is self.me):
                    preds.append(c)
        for c in preds[:12]:
            nxt = []
            for lits in out:
                st = self.start()
                if not all(self.eng.assume(st, a, b) for a, b in lits):
                    continue
                d = self.eng.decide(st, c)
                if d is not None:
                    nxt.append(lits)
                    continue
                for v in (True, False):
                    s = st.fork()
                    if self.eng.assume(s, c, v):
                        nxt.append(lits + ((c, v),))
            out = nxt
            if len(out) > 64:
                raise Anchor("%s: more than 64 modes" % self.name)
        return out

    def at_state(self, lits, value):
        """the same conditions about another state"""
        m = {self.me: value}
        return [(subst(c, m), v) for c, v in lits]

    def box_facts(self, box, extra=()):
        fs = []
        for l, (lo, hi) in box.items():
            t = l.get(self.me)
            if lo is not None:
                fs.append((lt(t, I(lo), 64, False), False) if lo else (TRUE, True))
            if hi is not None:
                fs.append((lt(I(hi), t, 64, False), False))
        return fs

    def observe(self, st, value):
        """interval of every number (and sequence length) of an object"""
        box = {}
        for l in self.boxed:
            b = self.eng.bounds(st, self.measure(l, value))
            w = self.eng.intinfo(l.ty) if l.kind == "num" else (62, False)
            lo, hi = typerange(*w) if w else (0, 1 << 62)
            if b:
                lo, hi = max(lo, b[0]), min(hi, b[1])
            box[l] = (lo, hi)
        return box

    def measure(self, l, value):
        t = l.get(value)
        return slen(t) if l.kind == "seq" else t

    def enter(self, mode, box, eqs=()):
        """a state of this mode inside its box, or None"""
        st = self.start()
        for l, (lo, hi) in box.items():
            t = self.measure(l, self.me)
            if isint(t):
                continue
            if hi < (1 << 62):
                if not self.eng.assume(st, lt(I(hi), t, 64, False), False):
                    return None
            if lo > 0:
                if not self.eng.assume(st, lt(t, I(lo), 64, False), False):
                    return None
        for c, v in mode:
            if not self.eng.assume(st, c, v):
                return None
        for e in eqs:
            st.facts[e] = True
        st.pc = ()
        return st

    def explore(self):
        """least boxes closed under write and finish"""
        self.boxed = [l for l in self.leaves if l.kind == "seq" or (l.kind == "num" and not self.wide(l))]
        self.ms = self.modes()
        boxes = [None] * len(self.ms)
        grown = [dict() for _ in self.ms]
        work = []

        def join(st, value):
            for k, m in enumerate(self.ms):
                s = st.fork()
                good = True
                for c, v in self.at_state(m, value):
                    c = self.eng.reduce(s, c)
                    if not self.eng.assume(s, c, v):
                        good = False
                        break
                if not good:
                    continue
                b = self.observe(s, value)
                if any(lo > hi for lo, hi in b.values()):
                    continue
                if boxes[k] is None:
                    boxes[k] = b
                    work.append(k)
                    continue
                ch = False
                for l, (lo, hi) in b.items():
                    L, H = boxes[k][l]
                    n = grown[k].get(l, 0)
                    if lo < L:
                        L = lo if n < 3 else max([t for t in self.th if t <= lo] or [typerange(*(self.eng.intinfo(l.ty) or (64, True)))[0]])
                        ch = True
                        grown[k][l] = n + 1
                    if hi > H:
                        H = hi if n < 3 else min([t for t in self.th if t >= hi] or [1 << 62])
                        ch = True
                        grown[k][l] = n + 1
                    boxes[k][l] = (L, H)
                if ch and k not in work:
                    work.append(k)
        nf = self.method("new")
        st = State_()
        for g in ("verify", "statnew", "flush", "new"):
            st.mem[("G", g)] = EMPTY
        av = []
        for i in range(nf.argc):
            ty = nf.locals[i + 1]
            y = self.ctx.p.t(ty)
            if y["k"] == "ref":
                r = ("P", "newarg%d" % i)
                self.eng.rty[r] = y["e"]
                st.mem[r] = self.fresh("newarg%d" % i, y["e"])
                av.append(mk("ref", r, ()))
            else:
                av.append(self.fresh("newarg%d" % i, ty))
        self.init = []
        for o in self.eng.call_fn(nf, av, st):
            if o.kind == "ret":
                self.init.append((o.st, o.val))
                join(o.st, o.val)
        rounds = 0
        while work:
            rounds += 1
            if rounds > 300:
                raise Anchor("%s: reachable states do not stabilise" % self.name)
            k = work.pop(0)
            s0 = self.enter(self.ms[k], boxes[k])
            if s0 is None:
                continue
            for st, new in self.steps(s0):
                join(st, new)
        self.boxes = boxes

    def wide(self, l):
        """a number holding values of the stream rather than counts"""
        i = self.eng.intinfo(l.ty)
        return bool(i and self.w == 64 and l.names and self.eng.tykey(l.ty) == self.eng.tykey(self.wr.locals[2]) and (self.signed or not self.counts(l)))

    def counts(self, l):
        return l.name.split(".")[-1] in ("run_len", "count", "len")

    def steps(self, s0):
        out = []
        for o in self.call(s0.fork(), self.wr, (self.x,)):
            if o.kind == "ret":
                out.append((o.st, o.st.mem[self.root]))
        for st, ps, new in self.flush(s0, self.sink0):
            if ps is not None:
                out.append((st, new))
        return out


from engine import State as State_


def pcs(st, n=8):
    return "; ".join("%s=%s" % (short(c, 70), v) for c, v in st.pc[-n:])


def candidates(E):
    """equalities between the numbers of the object that may hold in a mode"""
    me = E.me
    seqs = [l.get(me) for l in E.leaves if l.kind == "seq"]
    wide = [l.get(me) for l in E.leaves if l.kind == "num" and E.eng.intinfo(l.ty) and E.eng.intinfo(l.ty)[0] == E.w]
    cnts = [l for l in E.leaves if l.kind == "num"]
    vals = []
    W = E.w
    for b in seqs:
        n = slen(b)
        ends = [n] if not isint(n) else []
        ends += [l.get(me) for l in cnts if E.eng.intinfo(l.ty)[0] <= 64]
        vals.append(at(b, I(0)))
        for e in ends:
            vals.append(at(b, sub64(e, I(1))))
            if W == 64:
                vals.append(sub(at(b, sub64(e, I(1))), at(b, sub64(e, I(2))), W))
    for d in wide:
        for b in list(vals[:1]) + wide:
            if b is d:
                continue
            for l in cnts:
                r = l.get(me)
                if r is d or r is b:
                    continue
                for k in (0, 1):
                    vals.append(add(b, mul(d, sub64(terms.cast(r, E.eng.intinfo(l.ty)[0], False, 64, False), I(k)), W), W))
    out = []
    if W == 64:
        for a in wide:
            e = mk("eqz", sub(a, mk("sext", 8, 64, mk("trunc", 8, a, 64)), W))
            out.append(e)
    for a in wide:
        for v in vals + wide:
            if v is a or contains(v, lambda x: x is a) and v.op != "lin":
                continue
            d = sub(a, v, W)
            if d.op == "int":
                continue
            out.append(eqz(d, W))
    return list(dict.fromkeys(c for c in out if c.op == "eqz"))


def houdini(E):
    """per mode, the largest subset of the candidate equalities that is inductive"""
    cands = candidates(E)
    keep = [None if b is None else list(cands) for b in E.boxes]

    def holds(st, value, cs):
        P = Poly(E.eng, st, E.w).learn()
        m = {E.me: value}
        memo = {}
        good = []
        for c in cs:
            d = subst(c, m, memo)
            if d.op == "int":
                if d.a[0]:
                    good.append(c)
                continue
            if d in st.facts:
                if st.facts[d]:
                    good.append(c)
                continue
            x = d.a[0]
            if not P.reduce(P.of(x)):
                good.append(c)
        return good

    def target(st, value):
        for k, md in enumerate(E.ms):
            if keep[k] is None:
                continue
            s = st.fork()
            if all(E.eng.assume(s, E.eng.reduce(s, c), v) for c, v in E.at_state(md, value)):
                yield k, s
    for st, v in E.init:
        for k, s in target(st, v):
            keep[k] = holds(s, v, keep[k])
    ch = True
    while ch:
        ch = False
        for k in range(len(E.ms)):
            if keep[k] is None:
                continue
            s0 = E.enter(E.ms[k], E.boxes[k], keep[k])
            if s0 is None:
                continue
            for st, new in E.steps(s0):
                for j, s in target(st, new):
                    g = holds(s, new, keep[j])
                    if len(g) != len(keep[j]):
                        keep[j] = g
                        ch = True
    E.eqs = keep


def rle(ctx, rep, name, signed, what="content"):
    E = Encoder(ctx, name, signed, rep)
    E.explore()
    houdini(E)
    tag = name
    rep.parts += E.parts
    rep.fns |= set(E.eng.p.fns[i].path for i in E.eng.fns_seen if E.eng.p.fns[i].local)
    live = 0
    # a new object has nothing pending
    for st, v in E.init:
        s = st.fork()
        s.mem[E.root] = v
        base = E.sink.get(v)
        rep.ob(tag + ":new-stream", base is EMPTY, "a new encoder's stream is not empty", E.fin)
        for s2, ps, new in E.flush(s, base):
            if ps is None:
                rep.ob(tag + ":new-empty", False, str(new), E.fin)
                continue
            rep.ob(tag + ":new-empty", not [p for p in ps if not empty(E, s2, p)], "finishing a new encoder writes %s" % short(mk("seq", *ps), 200), E.fin)
    for k, md in enumerate(E.ms):
        if E.boxes[k] is None:
            continue
        s0 = E.enter(md, E.boxes[k], E.eqs[k])
        if s0 is None:
            continue
        live += 1
        where = "mode %d (%s)" % (k, "; ".join("%s=%s" % (short(c, 60), v) for c, v in md))
        # what is pending here, by what finish writes
        pend = []
        for s, ps, new in E.flush(s0, E.sink0):
            if ps is None:
                rep.ob(tag + ":finish:no-panic", False, "finish: %s in %s" % (new, where), E.fin)
                continue
            pend.append(ps)
            c = Content(E.eng, s, E.w)
            try:
                decode(c, ps, signed)
                rep.ob(tag + ":finish:groups", True)
            except Bad as x:
                rep.ob(tag + ":finish:groups", False, "finish in %s: %s" % (where, x), E.fin)
            # finishing leaves nothing behind
            s2 = s.fork()
            b2 = E.sink.get(new)
            for s3, ps3, n3 in E.flush(s2, b2):
                rep.ob(tag + ":finish:ready", ps3 is not None and not [p for p in ps3 if not empty(E, s3, p)], "after finish in %s the encoder still holds %s" % (where, "?" if ps3 is None else short(mk("seq", *ps3), 200)), E.fin)
        if len(set(tuple(p) for p in pend)) != 1:
            rep.ob(tag + ":finish:one-form", False, "finish writes %d different forms in %s" % (len(pend), where), E.fin)
            continue
        pend = pend[0]
        if what == "positions":
            positions(ctx, rep, E, s0, pend, signed, where)
            continue
        for o in E.call(s0.fork(), E.wr, (E.x,)):
            E.parts += 1
            if o.kind == "panic":
                rep.ob(tag + ":write:no-panic", False, "write panics (%s) in %s" % (o.info, where), E.wr)
                continue
            n1 = 0
            for s, ps, new in E.flush(o.st, E.sink0):
                n1 += 1
                if ps is None:
                    rep.ob(tag + ":write:keeps", False, "write then finish: %s in %s" % (new, where), E.wr)
                    continue
                c = Content(E.eng, s, E.w)
                try:
                    before, _ = decode(c, pend, signed)
                    after, _ = decode(c, ps, signed)
                    d = c.eq(after, before + [("el", E.x)])
                except Bad as x:
                    d = str(x)
                rep.ob(tag + ":write:appends", d is None, "after write the stream decodes to something else than before followed by the value: %s [%s; %s]" % (d, where, pcs(s)), E.wr)
            rep.ob(tag + ":write:reaches", n1 > 0, "no successful finish after write in %s" % where, E.wr)
    rep.ob(tag + ":modes", live >= 2, "only %d reachable modes" % live)
    return E


def empty(E, st, p):
    l = plen(p)
    return isint(l) and l.a[0] == 0


def positions(ctx, rep, E, s0, pend, signed, where):
    pos = E.method("position")
    c = Content(E.eng, s0, E.w)
    try:
        n = c.total(decode(c, pend, signed)[0])
    except Bad as x:
        rep.ob(E.name + ":position", False, "%s" % x, pos)
        return
    for o in E.call(s0.fork(), pos):
        if o.kind == "panic":
            rep.ob(E.name + ":position:no-panic", False, "position panics in %s" % where, pos)
            continue
        rec = recorded(E, o.st, o.val, pos)
        for s, ps in rec:
            cc = Content(E.eng, s, E.w)
            good = ps is not None and len(ps) == 2 and ps[0] is mk("sp", mk("rec", mk("pos", E.sink0))) and ps[1].op == "el" and cc.leq(ps[1].a[0], n)
            rep.ob(E.name + ":position", good, "the recorded position is %s, expected the position of the stream and %s values [%s]" % (short(mk("seq", *ps), 200) if ps is not None else "?", short(n, 80), where), pos)


def recorded(E, st, v, pos):
    """what record() pushes for a position value"""
    ty = pos.locals[0]
    adt = E.ctx.p.t(ty)["path"]
    f = E.ctx.p.method(adt, "record")
    if f is None:
        raise Anchor("%s::record not found" % adt)
    out = ("P", "positions")
    s = st.fork()
    s.mem[out] = mk("sym", "positions", "Vec<u64>")
    E.eng.rty[out] = E.ctx.p.t(f.locals[2])["e"]
    pr = ("P", "position")
    s.mem[pr] = v
    E.eng.rty[pr] = ty
    res = []
    for o in E.eng.call_fn(f, [mk("ref", pr, ()), mk("ref", out, ())], s):
        if o.kind != "ret":
            res.append((o.st, None))
            continue
        for s2, t in rw.open_term(E.eng, o.st, o.st.mem[out]):
            res.append((s2, E.since(t, mk("sym", "positions", "Vec<u64>"))))
    return res


def byte_rle(ctx, rep):
    rle(ctx, rep, "ByteRLE", None)


def int_rle(ctx, rep):
    rle(ctx, rep, "SignedIntRLEv1", True)
    rle(ctx, rep, "UnsignedIntRLEv1", False)


def rle_positions(ctx, rep):
    rle(ctx, rep, "ByteRLE", None, "positions")
    rle(ctx, rep, "SignedIntRLEv1", True, "positions")
    rle(ctx, rep, "UnsignedIntRLEv1", False, "positions")


# ------------------------------------------------------------------ bit streams
def bool_layer(eng, callee):
    a = adt_of(eng, callee)
    if a in ("ByteRLE", "ByteRLEPosition", "CompressionStream"):
        return column_layer(eng, callee)
    return None


class BitMachine(Machine):
    sinks = ("ByteRLE",)


def boolean_rle(ctx, rep, what="content"):
    """Starting from an object whose fields are those of new() (fields a full byte may leave changed are arbitrary), eight
    writes append the byte of exactly those eight bits and return there; finishing after k < 8 writes appends the byte of
    the k bits padded with zeros (nothing for k = 0) and returns there."""
    from bits import Bits
    adts = [ctx.p.types[i]["path"] for i in ctx.p.raw["adts"] if ctx.p.types[i].get("path", "").split("::")[-1] == "BooleanRLE"]
    if len(adts) != 1:
        raise Anchor("encoder BooleanRLE not found")
    M = BitMachine(ctx, adts[0], bool_layer)
    eng = M.eng
    sinks = [l for l in M.leaves if l.kind == "sink"]
    if len(sinks) != 1:
        raise Anchor("BooleanRLE does not hold exactly one byte run-length stream")
    sink = sinks[0]
    rest = [l for l in M.leaves if l is not sink]
    wr, fin, pos, nf = M.method("write"), M.method("finish"), M.method("position"), M.method("new")
    rep.parts += 1
    xs = [M.fresh("x%d" % i, wr.locals[2]) for i in range(1, 9)]
    # the base: new(), with whatever a full byte or finishing changes made arbitrary
    st = M.start()
    r = ("P", "compression")
    eng.rty[r] = ctx.p.t(nf.locals[1])["e"] if nf.argc else None
    st.mem[r] = M.fresh("compression", eng.rty[r]) if nf.argc else None
    news = [o for o in eng.call_fn(nf, [mk("ref", r, ())] if nf.argc else [], st) if o.kind == "ret"]
    if len(news) != 1:
        raise Anchor("BooleanRLE::new has %d results" % len(news))
    rep.ob("BooleanRLE:new-empty", sink.get(news[0].val) is EMPTY, "a new bit stream is not empty: %s" % short(sink.get(news[0].val)), nf)
    base = {l: l.get(news[0].val) for l in rest}

    def runs(base, n):
        """[level k -> [(state, object)]] of k writes"""
        st = M.start()
        for l in rest:
            if base[l] is not None:
                eng.write(st, M.root, tuple(("f", i) for v, i, n in l.path), base[l])
        lv = [[st]]
        for k in range(n):
            nxt = []
            for s in lv[-1]:
                for out in M.call(s.fork(), wr, (xs[k],)):
                    rep.parts += 1
                    if out.kind == "panic":
                        rep.ob("BooleanRLE:write:no-panic", False, "write panics (%s) on bit %d of a byte" % (out.info, k + 1), wr)
                        continue
                    nxt.append(out.st)
            if len(nxt) > 4096:
                raise Anchor("BooleanRLE::write: more than 4096 paths")
            lv.append(nxt)
        return lv

    def finishes(s):
        out = []
        eng.unroll = 9          # at most eight rounds of a loop that pads the byte
        try:
            ends = M.call(s.fork(), fin)
        except Giveup:
            eng.unroll = 0
            ends = M.call(s.fork(), fin)
        eng.unroll = 0
        for o in ends:
            rep.parts += 1
            if o.kind == "panic":
                out.append((o.st, o.info))
            elif not is_err(o.val):
                for s2, t in rw.open_term(eng, o.st, sink.get(o.st.mem[M.root])):
                    out.append((s2, t))
        return out
    for rnd in range(len(rest) + 2):
        lv = runs(base, 8)
        ends = [s.mem[M.root] for s in lv[8]]
        for k in range(8):
            for s in lv[k]:
                ends += [s2.mem[M.root] for s2, t in finishes(s) if not isinstance(t, str)]
        wide = [l for l in rest if base[l] is not None and any(l.get(e) is not base[l] for e in ends)]
        if not wide:
            break
        for l in wide:
            base[l] = None          # stays the symbolic field of `self`
    rep.fns |= set(eng.p.fns[i].path for i in eng.fns_seen if eng.p.fns[i].local)
    s0 = sink.get(lv[0][0].mem[M.root])
    width = lambda t: (1, False) if t in xs else (eng.intinfo(next((l.ty for l in rest if l.get(M.me) is t), None)) if any(l.get(M.me) is t for l in rest) else None)

    def byte_is(s, t, want):
        known = {}
        for x in xs:
            v = s.facts.get(x)
            if v is not None:
                known[(x, 0)] = int(v)
        B = Bits(known, width)
        got = B(t, 8)
        w = [Z_ if b is None else B.cond(b) for b in want]
        w = [B.norm(b) for b in w]
        for k in range(8):
            if B.norm(got[7 - k]) != w[k]:
                return k
        return None
    Z_ = frozenset()

    def appended(s, t):
        if t is s0:
            return []
        ps = parts_of(t)
        if ps and ps[0].op == "sp" and ps[0].a[0] is s0:
            return ps[1:]
        return None
    if what == "content":
        for k in range(1, 9):
            for s in lv[k]:
                for s2, t in rw.open_term(eng, s, sink.get(s.mem[M.root])):
                    ps = appended(s2, t)
                    if k < 8:
                        rep.ob("BooleanRLE:write:waits", ps == [], "after %d bits of a byte the byte stream holds %s" % (k, short(t, 200)), wr)
                        continue
                    good = ps is not None and len(ps) == 1 and ps[0].op == "el"
                    rep.ob("BooleanRLE:write:one-byte", good, "eight bits append %s to the byte stream" % short(t, 300), wr)
                    if good:
                        b = byte_is(s2, ps[0].a[0], xs)
                        rep.ob("BooleanRLE:write:bits", b is None, "bit %s of the byte (from the most significant) is not the %s. bit written: %s" % (b, (b or 0) + 1, short(ps[0].a[0], 300)), wr)
        for k in range(8):
            n = 0
            for s in lv[k]:
                for s2, t in finishes(s):
                    if isinstance(t, str):
                        rep.ob("BooleanRLE:finish:no-panic", False, "finish panics (%s) after %d bits" % (t, k), fin)
                        continue
                    n += 1
                    ps = appended(s2, t.a[0]) if t.op == "finished" else None
                    rep.ob("BooleanRLE:finish:finished", ps is not None, "finish does not finish the byte stream: %s" % short(t, 200), fin)
                    if ps is None:
                        continue
                    rep.ob("BooleanRLE:finish:one-byte", len(ps) == (1 if k else 0) and all(p.op == "el" for p in ps), "finishing after %d bits appends %s" % (k, short(mk("seq", *ps), 300)), fin)
                    if k and len(ps) == 1 and ps[0].op == "el":
                        b = byte_is(s2, ps[0].a[0], xs[:k] + [None] * (8 - k))
                        rep.ob("BooleanRLE:finish:bits", b is None, "finishing after %d bits: bit %s of the byte (from the most significant) is wrong: %s" % (k, b, short(ps[0].a[0], 300)), fin)
            rep.ob("BooleanRLE:finish:reaches", n > 0, "finish never succeeds after %d bits" % k, fin)
        rep.ob("BooleanRLE:levels", all(lv), "write has no normal return", wr)
        return
    for k in range(8):
        for s in lv[k]:
            for o in M.call(s.fork(), pos):
                if o.kind == "panic":
                    rep.ob("BooleanRLE:position:no-panic", False, "position panics after %d bits" % k, pos)
                    continue
                for s2, ps in recorded(M, o.st, o.val, pos):
                    good = ps is not None and len(ps) == 2 and ps[0] is mk("sp", mk("rec", mk("pos", sink.get(s2.mem[M.root])))) and ps[1].op == "el"
                    if good:
                        b = eng.bounds(s2, ps[1].a[0])
                        good = ps[1].a[0] is I(k) or b == (k, k)
                    rep.ob("BooleanRLE:position", good, "after %d bits of a byte the recorded position is %s, expected the byte stream's position and %d" % (k, short(mk("seq", *ps), 200) if ps is not None else "?", k), pos)


def bool_positions(ctx, rep):
    boolean_rle(ctx, rep, "positions")
