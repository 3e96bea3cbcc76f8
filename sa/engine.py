"""Trace-partitioned value-numbering analysis over MIR.

For one root function the engine computes, without running anything, the set of partitions (conjunctions of branch
facts) that reach each exit, and for each partition the value number of every memory object at that exit.  Calls to
crate functions are inlined (so extracting or merging helpers changes nothing), library calls go through models.py,
and calls on a layer boundary become uninterpreted, order-carrying `eff`/`ret` nodes.  A loop is not unrolled: it is
analysed once per fixpoint round and replaced by closed forms over its trip count (map, sum, store, fold)."""
from math import gcd
from terms import *
import terms


class Giveup(Exception):
    pass


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class State:
    __slots__ = ("mem", "facts", "pc", "trace")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.pc = ()
        self.trace = ()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.pc = self.pc
        s.trace = self.trace
        return s


class Out:
    """one exit partition"""
    __slots__ = ("kind", "val", "st", "info")

    def __init__(self, kind, val, st, info=None):
        self.kind, self.val, self.st, self.info = kind, val, st, info


TRANSPARENT = ("MaybeUninit", "ManuallyDrop")


class Engine:
    def __init__(self, prog, atomic=None, unroll=0, max_parts=20000, fork_asserts=False, models=None, proj_hook=None, below=()):
        self.below = below
        self.p = prog
        self.proj_hook = proj_hook
        self.unsized = {}       # reference -> type of what it points to, where it became a trait object
        self.atomic = atomic or (lambda eng, callee: None)
        self.unroll = unroll
        self.rty = {}
        self.fid = 0
        self.stack = []
        self.nparts = 0
        self.max_parts = max_parts
        self.fork_asserts = fork_asserts
        self.sites = {}
        self.calls_seen = set()
        self.uid = 0
        self.fns_seen = set()
        self.nloops = 0
        self.cut = None
        self.opaque = {}
        import models as M
        self.models = M.MODELS if models is None else models
        self.M = M
        terms._agg_discr[0] = self._rediscr
        self._adt_by_path = {}
        for i, t in enumerate(prog.types):
            if t and t.get("k") == "adt" and t["variants"]:
                self._adt_by_path.setdefault(t["path"], i)

    # ---------------------------------------------------------------- types
    def ty(self, i):
        return self.p.types[i]

    def isbox(self, t):
        return t["k"] == "adt" and t["path"] == "std::boxed::Box"

    def pointee(self, ty):
        t = self.ty(ty)
        if t["k"] in ("ref", "ptr"):
            return t["e"]
        if self.isbox(t):
            return t["args"][0]
        return None

    def nfields(self, ty, v=None):
        t = self.ty(ty) if ty is not None else None
        if t is None:
            return None
        if t["k"] == "tuple":
            return len(t["es"])
        if t["k"] == "closure":
            return len(t["ups"])
        if t["k"] == "adt" and t["variants"]:
            return len(t["variants"][v or 0]["fields"])
        return None

    def elem_ty(self, ty, e):
        if ty is None:
            return None
        t = self.ty(ty)
        k = e[0]
        if k == "f" or k == "v":
            i = e[1] if k == "f" else e[2]
            v = 0 if k == "f" else e[1]
            if t["k"] == "tuple":
                return t["es"][i]
            if t["k"] == "closure":
                return t["ups"][i]
            if t["k"] == "adt" and t["variants"]:
                return t["variants"][v]["fields"][i]["ty"]
            return None
        if k == "bx":
            return t["args"][0] if t["k"] == "adt" else None
        if k == "at":
            if t["k"] in ("slice", "array"):
                return t["e"]
            if t["k"] == "adt" and t["args"]:
                return t["args"][0]
            return None
        if k == "rng":
            return ty
        return None

    def tykey(self, ty):
        if ty is None:
            return "?"
        t = self.ty(ty)
        if t["k"] == "adt":
            return t["path"]
        if t["k"] == "tuple":
            return "()"
        if t["k"] == "closure":
            return "closure#%d" % t["fn"]
        return t["s"]

    def intinfo(self, ty):
        """(width, signed) for int-like types"""
        t = self.ty(ty)
        if t["k"] == "int":
            return (t["bits"], t["signed"])
        if t["k"] == "bool":
            return (8, False)
        if t["k"] == "char":
            return (32, False)
        return None

    def annotate(self, t, ty):
        if ty is None or not isinstance(t, T):
            return t
        if t.op in ("int", "agg", "ref", "seq", "lin"):
            return t
        y = self.ty(ty)
        if y["k"] == "int" and t.rng is None and t.op in ("fld", "sym", "ret", "at", "deref", "bin", "trunc", "zext", "eff", "fold", "last", "phi"):
            t.rng = typerange(y["bits"], y["signed"])
        return t

    def _rediscr(self, t):
        i = self._adt_by_path.get(t.a[0])
        if i is None:
            return None
        return I(int(self.ty(i)["variants"][t.a[1]]["d"]))

    def discr_of(self, t, ty):
        y = self.ty(ty) if ty is not None else None
        if t.op == "agg" and isinstance(t.a[1], int):
            vs = y["variants"] if y and y["k"] == "adt" and y["variants"] else None
            if vs is None and t.a[0] in self._adt_by_path:
                vs = self.ty(self._adt_by_path[t.a[0]])["variants"]
            return I(int(vs[t.a[1]]["d"])) if vs else I(t.a[1])
        if t.op == "ite":
            return ite(t.a[0], self.discr_of(t.a[1], ty), self.discr_of(t.a[2], ty))
        d = mk("discr", t)
        if y and y["k"] == "adt" and y["variants"]:
            d.variants = tuple(int(v["d"]) for v in y["variants"])
            d.rng = (min(d.variants), max(d.variants))
        return d

    # ---------------------------------------------------------------- memory
    def root_val(self, st, root):
        t = st.mem.get(root)
        if t is None:
            if root[0] == "D":
                t = mk("deref", root[1])
                self.annotate(t, self.rty.get(root))
            elif root[0] == "K":
                t = mk("bytes", root[1])
            elif root[0] == "T":
                t = root[1]
            elif root[0] == "S":
                t = mk("static", root[1])
            else:
                t = mk("uninit")
            st.mem[root] = t
        return t

    def proj(self, t, e, ty):
        k = e[0]
        if k == "f":
            if self.proj_hook and t.op != "agg" and ty is not None:
                r = self.proj_hook(self, t, e[1], ty)
                if r is not None:
                    return r
            return fld(t, None, e[1], self.nfields(ty) or 0)
        if k == "v":
            return fld(t, e[1], e[2], self.nfields(ty, e[1]) or 0)
        if k == "bx":
            return fld(t, "bx", 0, 1)
        if k == "at":
            return at(t, e[1])
        if k == "rng":
            return slice_(t, e[1], e[2])
        raise Giveup("projection %s" % (e,))

    def read(self, st, root, path):
        ty = self.rty.get(root)
        t = self.root_val(st, root)
        for n, e in enumerate(path):
            if e[0] == "bxp":
                return mk("ref", root, path[:n] + (("bx",),))
            t = self.proj(t, e, ty)
            ty = self.elem_ty(ty, e)
            if t.op == "ite":
                t = self.simp_ite(st, t)
        if t.op == "ite":
            t = self.simp_ite(st, t)
        return self.annotate(t, ty)

    def simp_ite(self, st, t):
        while t.op == "ite":
            d = self.decide(st, t.a[0])
            if d is None:
                return t
            t = t.a[1] if d else t.a[2]
        return t

    def upd(self, st, t, path, val, ty):
        if not path:
            return val
        e, rest = path[0], path[1:]
        k = e[0]
        ety = self.elem_ty(ty, e)
        if k in ("f", "v"):
            v = None if k == "f" else e[1]
            i = e[1] if k == "f" else e[2]
            n = self.nfields(ty, v)
            if t.op == "agg" and len(t.a) - 2 > i and (v is None or t.a[1] == v):
                fs = list(t.a[2:])
                n = len(fs)
                v = t.a[1]
                key = t.a[0]
            else:
                if n is None:
                    raise Giveup("write into opaque %s" % (self.ty(ty)["s"] if ty is not None else "?"))
                if t.op == "ite":
                    d = self.decide(st, t.a[0])
                    if d is None:
                        raise NeedSplit(t.a[0])
                    return self.upd(st, t.a[1] if d else t.a[2], path, val, ty)
                if t.op == "uninit":
                    fs = [mk("uninit")] * n
                else:
                    fs = [self.annotate(fld(t, v, j, n), self.elem_ty(ty, ("f", j) if v is None else ("v", v, j))) for j in range(n)]
                key = self.tykey(ty)
            fs[i] = self.upd(st, fs[i], rest, val, ety)
            return agg(key, v, fs)
        if k == "bx":
            return agg("box", "bx", [self.upd(st, fld(t, "bx", 0, 1), rest, val, ety)])
        if k == "at":
            return store(t, e[1], self.upd(st, at(t, e[1]), rest, val, ety))
        if k == "rng":
            new = self.upd(st, slice_(t, e[1], e[2]), rest, val, ty)
            return cat(slice_(t, I(0), e[1]), new, slice_(t, e[2], slen(t)))
        raise Giveup("update %s" % (e,))

    def write(self, st, root, path, val):
        if not path:
            st.mem[root] = val
            return
        st.mem[root] = self.upd(st, self.root_val(st, root), path, val, self.rty.get(root))

    def deref(self, st, v, pty=None):
        """value behind a pointer term"""
        r, p = self.target(v, pty)
        return self.read(st, r, p)

    def target(self, v, pty=None):
        if v.op == "ref":
            return v.a[0], v.a[1]
        if v.op == "ite":
            raise NeedSplit(v.a[0])
        root = ("D", v)
        if pty is not None:
            self.rty.setdefault(root, pty)
        return root, ()

    def value(self, st, v, depth=0):
        """v with every embedded pointer replaced by the value it points to"""
        if depth > 6:
            return v
        if v.op == "ref":
            return self.value(st, self.read(st, v.a[0], v.a[1]), depth + 1)
        if not contains(v, lambda x: x.op == "ref"):
            return v
        m = {}
        for x in walk(v):
            if x.op == "ref":
                m[x] = mk("rv", self.value(st, self.read(st, x.a[0], x.a[1]), depth + 1))
        return subst(v, m)

    # ---------------------------------------------------------------- facts
    def fix_atoms(self, st, c):
        """the linear fact c with every atom of exactly known value replaced by that value"""
        d = c.a[0]
        if d.op != "lin" or len(d.a[2]) < 2:
            return c
        m = {}
        for x, _ in d.a[2]:
            if x.op != "int" and (x.op in ("npres", "nnull", "len", "fld", "sym") or x.rng):
                b = self.abound(st, x)
                if b and b[0] == b[1]:
                    m[x] = I(b[0])
        if not m:
            return c
        c0, items = d.a[1], {}
        for x, k in d.a[2]:
            if x in m:
                c0 += k * m[x].a[0]
            else:
                items[x] = k
        if not items:
            d2 = I(c0)
        elif c0 == 0 and len(items) == 1 and list(items.values())[0] == 1:
            d2 = list(items)[0]
        else:
            d2 = mk("lin", d.a[0], c0, tuple(sorted(items.items(), key=lambda x: x[0].i)))
        return eqz(d2, d.a[0]) if c.op == "eqz" else neg(d2)

    def decide(self, st, c):
        r = self.decide0(st, c)
        if r is None and c.op in ("eqz", "neg"):
            c2 = self.fix_atoms(st, c)
            if c2 is not c:
                return self.decide(st, c2)
        return r

    def decide0(self, st, c):
        if c.op == "int":
            return bool(c.a[0])
        if c.op == "not":
            d = self.decide(st, c.a[0])
            return None if d is None else not d
        if c in st.facts:
            return st.facts[c]
        if c.op == "and":
            x, y = self.decide(st, c.a[0]), self.decide(st, c.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return None
        if c.op == "eqz":
            d = c.a[0]
            b = self.bounds(st, d)
            if b and (b[0] > 0 or b[1] < 0):
                return False
            if d.op == "bin" and d.a[0] == "rem" and not d.a[2] and isint(d.a[4]) and d.a[4].a[0] > 0:
                x, A = d.a[3], 1
                if x.op == "bin" and x.a[0] == "div" and not x.a[2] and isint(x.a[4]):
                    x, A = x.a[3], x.a[4].a[0]
                P, N = self.divisors(st, x)
                if P % A == 0:
                    if P % (A * d.a[4].a[0]) == 0:
                        return True
                    if any((A * d.a[4].a[0]) % n == 0 for n in N):
                        return False
            if b and b[0] == b[1] == 0:
                return True
            if d.op == "lin" and len(d.a[2]) == 1:
                atom, k = d.a[2][0]
                if k == 1:
                    v = self.known(st, atom)
                    if v is not None:
                        return v == -d.a[1]
            return self._two_atom(st, d, True)
        if c.op == "neg":
            b = self.bounds(st, c.a[0])
            if b:
                if b[1] < 0:
                    return True
                if b[0] >= 0:
                    return False
            return self._two_atom(st, c.a[0], False)
        if c.op == "ite":
            d = self.decide(st, c.a[0])
            if d is not None:
                return self.decide(st, c.a[1] if d else c.a[2])
            x, y = self.decide(st, c.a[1]), self.decide(st, c.a[2])
            return x if x == y else None
        return None

    def _two_atom(self, st, d, iseq):
        """facts about the same linear combination shifted by a constant"""
        if d.op != "lin" or len(d.a[2]) < 2:
            return None
        w, c, items = d.a
        lo, hi = None, None
        excl = set()
        for f, v in st.facts.items():
            if f.op not in ("neg", "eqz"):
                continue
            g = f.a[0]
            if g.op != "lin":
                continue
            if f.op == "eqz" and not v:
                if g.a[2] == items:
                    excl.add(-g.a[1])
                elif tuple((x, -y) for x, y in g.a[2]) == items:
                    excl.add(g.a[1])
            if g.a[2] == items:
                k = g.a[1]
            elif tuple((x, -y) for x, y in g.a[2]) == items:
                k = None
                kk = g.a[1]
            else:
                continue
            # items-combination S: fact about S + k (or -S + kk)
            if k is not None:
                if f.op == "neg" and v:      # S < -k
                    hi = -k - 1 if hi is None else min(hi, -k - 1)
                elif f.op == "neg":          # S >= -k
                    lo = -k if lo is None else max(lo, -k)
                elif v:
                    lo = hi = -k
            else:
                if f.op == "neg" and v:      # -S+kk<0 : S > kk
                    lo = kk + 1 if lo is None else max(lo, kk + 1)
                elif f.op == "neg":
                    hi = kk if hi is None else min(hi, kk)
                elif v:
                    lo = hi = kk
        b = self.bounds(st, mk("lin", w, 0, items))
        if b:
            lo = b[0] if lo is None else max(lo, b[0])
            hi = b[1] if hi is None else min(hi, b[1])
        while hi is not None and hi in excl:
            hi -= 1
        while lo is not None and lo in excl:
            lo += 1
        if iseq:
            if -c in excl or (lo is not None and lo + c > 0) or (hi is not None and hi + c < 0):
                return False
            if lo is not None and lo == hi and lo + c == 0:
                return True
            return None
        if hi is not None and hi + c < 0:
            return True
        if lo is not None and lo + c >= 0:
            return False
        return None

    def known(self, st, t):
        if t.op == "int":
            return t.a[0]
        b = self.abound(st, t)
        if b and b[0] == b[1]:
            return b[0]
        return None

    def abound(self, st, t):
        """bounds of one atom from its type and the partition's facts"""
        r = rng(t)
        lo, hi = r if r else (None, None)
        excl = []
        mult = False
        # a term under zext shares facts with its operand
        for f, v in st.facts.items():
            if f.op not in ("neg", "eqz"):
                continue
            g = f.a[0]
            if g.op == "bin" and f.op == "eqz" and not g.a[2] and isint(g.a[4]) and g.a[4].a[0] > 0:
                if g.a[0] == "div" and g.a[3] is t:      # t / A == 0  <=>  t < A
                    if v:
                        hi = g.a[4].a[0] - 1 if hi is None else min(hi, g.a[4].a[0] - 1)
                    else:
                        lo = g.a[4].a[0] if lo is None else max(lo, g.a[4].a[0])
                elif g.a[0] == "rem" and v and (g.a[3] is t or (g.a[3].op == "bin" and g.a[3].a[3] is t)):
                    mult = True
            if g is t:
                k, c = 1, 0
            elif g.op == "lin" and len(g.a[2]) == 1 and g.a[2][0][0] is t and g.a[2][0][1] in (1, -1):
                k, c = g.a[2][0][1], g.a[1]
            elif f.op == "neg" and t.op == "ixe" and g.op == "lin" and len(g.a[2]) == 2 and t in (g.a[2][0][0], g.a[2][1][0]):
                # a loop index against the (bounded) number it is compared with
                (k, (y, ky)) = (g.a[2][0][1], g.a[2][1]) if g.a[2][0][0] is t else (g.a[2][1][1], g.a[2][0])
                if k not in (1, -1) or y.op == "ixe":
                    continue
                b = self.abound(st, y)
                if b is None:
                    continue
                if v:       # k*t < -c - ky*y
                    c = g.a[1] + min(ky * b[0], ky * b[1])
                else:       # k*t >= -c - ky*y
                    c = g.a[1] + max(ky * b[0], ky * b[1])
            else:
                continue
            if f.op == "eqz":
                val = -c * k
                if v:
                    return (val, val)
                excl.append(val)
            elif v:   # k*t + c < 0
                if k == 1:
                    hi = -c - 1 if hi is None else min(hi, -c - 1)
                else:
                    lo = c + 1 if lo is None else max(lo, c + 1)
            else:     # k*t + c >= 0
                if k == 1:
                    lo = -c if lo is None else max(lo, -c)
                else:
                    hi = c if hi is None else min(hi, c)
        ch = True
        while ch and excl:
            ch = False
            for x in excl:
                if lo is not None and x == lo:
                    lo += 1
                    ch = True
                if hi is not None and x == hi:
                    hi -= 1
                    ch = True
            if lo is not None and hi is not None and lo > hi:
                break
        if mult and lo is not None and hi is not None and lo >= 0:
            P = self.divisors(st, t)[0]
            lo, hi = -(-lo // P) * P, hi // P * P
        if t.op == "bin" and t.a[0] in ("div", "rem", "shr") and isint(t.a[4]) and t.a[4].a[0] > 0:
            b = self.bounds(st, t.a[3])
            if b and b[0] >= 0:
                y = t.a[4].a[0]
                l2, h2 = {"div": (b[0] // y, b[1] // y), "rem": (0, min(b[1], y - 1)), "shr": (b[0] >> y, b[1] >> y)}[t.a[0]]
                lo = l2 if lo is None else max(lo, l2)
                hi = h2 if hi is None else min(hi, h2)
        if t.op in ("zext", "sext"):
            b = self.bounds(st, t.a[2])
            if b and (t.op == "sext" or b[0] >= 0):
                lo = b[0] if lo is None else max(lo, b[0])
                hi = b[1] if hi is None else min(hi, b[1])
        if t.op == "trunc":
            b = self.bounds(st, t.a[1])
            if b and b[0] >= 0 and b[1] < (1 << (t.a[0] - 1)):
                lo = b[0] if lo is None else max(lo, b[0])
                hi = b[1] if hi is None else min(hi, b[1])
        if lo is None or hi is None:
            return None
        return (lo, hi)

    def divisors(self, st, x):
        """(P, N): P divides x on this partition, no n of N does (unsigned x)"""
        rem = []
        for f, v in st.facts.items():
            if f.op == "eqz" and f.a[0].op == "bin" and f.a[0].a[0] == "rem" and not f.a[0].a[2] and isint(f.a[0].a[4]) and f.a[0].a[4].a[0] > 0:
                g = f.a[0]
                if g.a[3] is x:
                    rem.append((1, g.a[4].a[0], v))
                elif g.a[3].op == "bin" and g.a[3].a[0] == "div" and not g.a[3].a[2] and g.a[3].a[3] is x and isint(g.a[3].a[4]):
                    rem.append((g.a[3].a[4].a[0], g.a[4].a[0], v))
        P = 1
        ch = True
        while ch:
            ch = False
            for A, B, v in rem:
                if v and P % A == 0 and P % (A * B):
                    P = P * (A * B) // gcd(P, A * B)
                    ch = True
        return P, set(A * B for A, B, v in rem if not v and P % A == 0)

    def bounds(self, st, t):
        if t.op == "int":
            return (t.a[0], t.a[0])
        if t.op == "lin":
            lo = hi = t.a[1]
            for x, k in t.a[2]:
                b = self.abound(st, x)
                if b is None:
                    return None
                lo += min(k * b[0], k * b[1])
                hi += max(k * b[0], k * b[1])
            return (lo, hi)
        return self.abound(st, t)

    def consistent(self, st):
        """False when a fact contradicts what the other facts make of its atoms"""
        for c, v in list(st.facts.items()):
            if c.op in ("eqz", "neg"):
                c2 = self.fix_atoms(st, c)
                if c2 is not c and self.decide0(st, c2) == (not v):
                    return False
        return True

    def assume(self, st, c, val):
        """add a fact; returns False when contradictory"""
        while c.op == "not":
            c, val = c.a[0], not val
        d = self.decide(st, c)
        if d is not None:
            return d == val
        if c.op == "and" and val:
            return self.assume(st, c.a[0], True) and self.assume(st, c.a[1], True)
        if c.op in ("eqz", "neg"):
            c2 = self.fix_atoms(st, c)
            if c2 is not c:
                return self.assume(st, c2, val)
        st.facts[c] = val
        st.pc = st.pc + ((c, val),)
        # a sum of counters that is zero has only zero terms
        if c.op in ("eqz", "neg") and val and c.a[0].op == "lin":
            w, k0, items = c.a[0].a
            if len(items) > 1 and (k0 == 0 if c.op == "eqz" else k0 == -1):
                b = [(self.abound(st, x), k) for x, k in items]
                if all(y and y[0] >= 0 and k > 0 for y, k in b):
                    for x, _ in items:
                        e = eqz(x)
                        if e.op == "eqz":
                            st.facts.setdefault(e, True)
        # excluding all but one variant fixes the last
        if c.op == "eqz" and not val:
            a, k = (c.a[0], 0) if c.a[0].op != "lin" else (c.a[0].a[2][0][0], c.a[0].a[1])
            if a.op == "discr" and a.variants and (c.a[0].op != "lin" or len(c.a[0].a[2]) == 1):
                rest = [v for v in a.variants if st.facts.get(eqint(a, I(v), 64)) is not False]
                if len(rest) == 1:
                    e = eqint(a, I(rest[0]), 64)
                    if e not in st.facts and e.op != "int":
                        st.facts[e] = True
        # contradiction check for linear facts
        if c.op in ("eqz", "neg"):
            for x in ([c.a[0]] if c.a[0].op != "lin" else [y for y, _ in c.a[0].a[2]]):
                while True:
                    b = self.abound(st, x)
                    if b and b[0] > b[1]:
                        return False
                    if x.op == "bin" and x.a[0] in ("div", "rem"):
                        x = x.a[3]
                    else:
                        break
        return True

    def split(self, st, c):
        """[(state, bool)] partitions of st by condition c"""
        c = self.reduce(st, c)
        d = self.decide(st, c)
        if d is not None:
            return [(st, d)]
        if c.op == "not":
            return [(s, not v) for s, v in self.split(st, c.a[0])]
        if c.op == "and":
            out = []
            for s, v in self.split(st, c.a[0]):
                out += self.split(s, c.a[1]) if v else [(s, False)]
            return out
        if c.op == "ite":
            out = []
            for s, v in self.split(st, c.a[0]):
                out += self.split(s, c.a[1] if v else c.a[2])
            return out
        x = self._inner_ite(c)
        if x is not None:
            out = []
            for s, v in self.split(st, x.a[0]):
                out += self.split(s, subst(c, {x: x.a[1] if v else x.a[2]}))
            return out
        out = []
        for v in (True, False):
            s = st.fork()
            if self.assume(s, c, v):
                out.append((s, v))
        self.nparts += 1
        if self.nparts > self.max_parts:
            raise Giveup("more than %d partitions" % self.max_parts)
        return out

    def _inner_ite(self, c):
        if c.op in ("eqz", "neg"):
            d = c.a[0]
            for x in ([d] if d.op != "lin" else [y for y, _ in d.a[2]]):
                while x.op in ("zext", "sext", "trunc", "discr"):
                    x = x.a[-1] if x.op != "trunc" else x.a[1]
                    if not isinstance(x, T):
                        break
                if isinstance(x, T) and x.op == "ite":
                    return x
        return None

    def reduce(self, st, c):
        """resolve ite nodes whose condition this partition already decides"""
        m = {}
        for x in walk(c):
            if x.op == "ite":
                y = self.simp_ite(st, x)
                if y is not x:
                    m[x] = y
        return subst(c, m) if m else c

    # ---------------------------------------------------------------- places / operands
    def place(self, fr, st, p):
        root = ("L", fr.id, p[0])
        path = ()
        ty = fr.f.locals[p[0]]
        self.rty[root] = ty
        var = None
        for e in p[1:]:
            k = e[0]
            if k == "*":
                v = self.read(st, root, path)
                nt = self.pointee(ty)
                if self.isbox(self.ty(ty)):
                    if v.op == "ref":
                        root, path = v.a[0], tuple(v.a[1])
                    else:
                        path = path + (("bx",),)
                else:
                    root, path = self.target(v, nt)
                    if root[0] == "D":
                        self.rty.setdefault(root, nt)
                ty = nt
            elif k == "f":
                y = self.ty(ty)
                if y["k"] == "adt" and y["path"].split("::")[-1] in TRANSPARENT:
                    ty = e[2]
                    continue
                if self.isbox(y) and e[1] == 0:
                    v = self.read(st, root, path)
                    if v.op == "ref":
                        root, path = v.a[0], tuple(v.a[1])[:-1]
                    path = path + (("bxp",),)
                    ty = e[2]
                    continue
                if path and path[-1][0] == "bxp":
                    ty = e[2]
                    continue
                path = path + ((("v", var, e[1]) if var is not None else ("f", e[1])),)
                var = None
                ty = e[2]
            elif k == "d":
                y = self.ty(ty)
                var = e[1]
                if y["k"] == "adt" and y["kind"] != "enum":
                    var = None
            elif k == "i":
                ix = self.read(st, ("L", fr.id, e[1]), ())
                path = path + (("at", ix),)
                ty = self.elem_ty(ty, ("at",))
            elif k == "ci":
                if e[3]:
                    ix = sub64(slen(self.read(st, root, path)), I(e[1]))
                else:
                    ix = I(e[1])
                path = path + (("at", ix),)
                ty = self.elem_ty(ty, ("at",))
            elif k == "sub":
                n = slen(self.read(st, root, path))
                path = path + (("rng", I(e[1]), sub64(n, I(e[2])) if e[3] else I(e[2])),)
            else:
                raise Giveup("place elem %s" % (e,))
        return root, path, ty

    def opty(self, fr, o):
        if o[0] in ("c", "m"):
            p = o[1]
            ty = fr.f.locals[p[0]]
            for e in p[1:]:
                if e[0] == "*":
                    ty = self.pointee(ty)
                elif e[0] == "f":
                    ty = e[2]
                elif e[0] in ("i", "ci"):
                    ty = self.elem_ty(ty, ("at",))
            return ty
        if o[0] == "k":
            return o[1]["t"]
        return None

    def operand(self, fr, st, o):
        if o[0] in ("c", "m"):
            root, path, ty = self.place(fr, st, o[1])
            t = self.read(st, root, path)
            return self.annotate(t, ty)
        if o[0] == "k":
            return self.const(o[1])
        if o[0] == "rc":
            return FALSE
        raise Giveup("operand")

    def ctree(self, k):
        """the value of an exported constant, or None where a part has no counterpart in the analysis"""
        ty = self.ty(k["t"])
        if "v" in k:
            return self.const(k)
        if "refseq" in k or "seq" in k:
            x = k.get("refseq", k.get("seq"))
            if isinstance(x, str):
                s = mk("bytes", x)
            else:
                xs = [self.ctree(y) for y in x]
                if any(y is None for y in xs):
                    return None
                s = cat(*[el(y) for y in xs]) if xs else EMPTY
            if "seq" in k:
                return s
            return mk("ref", ("K", s.a[0]) if s.op == "bytes" else ("T", s), ())
        if "ref" in k:
            x = self.ctree(k["ref"])
            if x is None:
                return None
            return mk("ref", ("K", x.a[0]) if x.op == "bytes" else ("T", x), ())
        if "fields" in k:
            xs = [self.ctree(y) for y in k["fields"]]
            if any(y is None for y in xs):
                return None
            if ty["k"] == "tuple":
                return agg("()", None, xs) if xs else UNIT
            if ty["k"] != "adt":
                return None
            plain = ty["kind"] == "enum" and not any(x["fields"] for x in ty["variants"])
            if not (ty.get("local") or plain or ty["path"].split("::")[-1] in ("Option", "Result", "Ordering", "Range", "RangeInclusive")):
                return None
            if ty["path"].split("::")[-1] in TRANSPARENT:
                return xs[0] if len(xs) == 1 else None
            v = k["variant"] if ty["kind"] == "enum" else None
            return agg(ty["path"], v, xs) if xs else mk("agg", ty["path"], v)
        return None

    def const(self, k):
        ty = self.ty(k["t"])
        if "tree" in k and not ("bytes" in k and "slice" in k):
            x = self.ctree(k["tree"])
            if x is not None:
                return x
        if "global" in k:
            x = self.ctree(k["global"])
            if x is not None:
                return mk("ref", ("K", x.a[0]) if x.op == "bytes" else ("T", x), ())
        if k.get("zst"):
            if ty["k"] == "tuple":
                return UNIT
            if ty["k"] == "adt" and ty["kind"] == "struct":
                return mk("agg", ty["path"], None)
            return mk("fn", k["t"])
        if "v" in k:
            v = int(k["v"])
            ii = self.intinfo(k["t"])
            if ii:
                return I(wrap(v, *ii))
            if ty["k"] == "float":
                return mk("float", v, ty["s"])
            if ty["k"] == "adt" and ty["kind"] == "enum":
                for n, x in enumerate(ty["variants"]):
                    if int(x["d"]) & ((1 << 8 * k["sz"]) - 1) == v and not x["fields"]:
                        return mk("agg", ty["path"], n)
            return mk("const", v, ty["s"])
        if "slice" in k:
            return mk("ref", ("K", k["slice"]), ())
        if "pbytes" in k:
            return mk("ref", ("K", k["pbytes"]), ())
        if "static" in k:
            return mk("ref", ("S", k["static"]), ())
        if "bytes" in k and ty["k"] == "array" and self.ty(ty["e"]).get("bits") == 8:
            return mk("bytes", k["bytes"])
        return mk("const", k.get("opaque") or k.get("ptr"), ty["s"])

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, r, dty):
        k = r[0]
        if k == "use":
            if r[1][0] == "c" and dty is not None and self.isbox(self.ty(dty)):
                # a box is copied only on the way to dereferencing it: alias the original
                root, path, ty = self.place(fr, st, r[1][1])
                v = self.read(st, root, path)
                return v if v.op == "ref" else mk("ref", root, path + (("bx",),))
            return self.operand(fr, st, r[1])
        if k in ("ref", "rawptr"):
            root, path, ty = self.place(fr, st, r[2])
            if path and path[-1][0] == "bxp":
                return mk("ref", root, path)
            return mk("ref", root, path)
        if k == "bin":
            return self.binop(fr, st, r[1], r[2], r[3])
        if k == "un":
            a = self.operand(fr, st, r[2])
            ty = self.opty(fr, r[2])
            if r[1] == "Not":
                if self.ty(ty)["k"] == "bool":
                    return notb(a)
                w, s = self.intinfo(ty)
                return binop("xor", w, s, a, I(wrap(-1, w, s)))
            if r[1] == "Neg":
                ii = self.intinfo(ty)
                if ii:
                    return terms.scale(a, -1, ii[0], ii[1])
                return mk("fneg", a)
            if r[1] == "PtrMetadata":
                return slen(self.deref(st, a, self.pointee(ty)))
            return mk("un", r[1], a)
        if k == "cast":
            a = self.operand(fr, st, r[2])
            sty = self.opty(fr, r[2])
            kind = r[1]
            if kind == "IntToInt":
                y = self.ty(sty)
                w2, s2 = self.intinfo(r[3]) or (64, False)
                if y["k"] == "bool":
                    if isint(a):
                        return a
                    return ite(a, TRUE, FALSE) if False else mk("b2i", a) if a.op != "ite" else ite(a.a[0], self._b2i(a.a[1]), self._b2i(a.a[2]))
                w1, s1 = self.intinfo(sty) or (64, False)
                return cast(a, w1, s1, w2, s2)
            if kind.startswith("PointerCoercion(Unsize") and a.op == "ref" and self.ty(sty)["k"] == "ref" and self.ty(r[3])["k"] == "ref" and self.ty(self.ty(r[3])["e"])["k"] == "dyn" and self.ty(self.ty(sty)["e"])["k"] != "dyn":
                t0 = self.ty(sty)["e"]
                self.unsized[a] = t0 if self.unsized.get(a, t0) == t0 else -1
            if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "BoxDerefTransmute", "Transmute", "BoxPtrTransmute", "Subtype"):
                return a
            return mk("cast", kind, self.ty(sty)["s"], self.ty(r[3])["s"], a)
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in r[2]]
            kk = r[1]
            if kk[0] == "tuple":
                return agg("()", None, ops) if ops else UNIT
            if kk[0] == "array":
                return cat(*[el(o) for o in ops]) if ops else EMPTY
            if kk[0] == "adt":
                y = self.ty(kk[1])
                if y["path"].split("::")[-1] in TRANSPARENT:
                    return ops[0] if ops else mk("uninit")
                if y["kind"] == "enum":
                    return agg(y["path"], kk[2], ops)
                return agg(y["path"], None, ops)
            if kk[0] == "closure":
                return agg("closure#%d" % kk[1], None, ops) if ops else mk("agg", "closure#%d" % kk[1], None)
            raise Giveup("aggregate %s" % kk)
        if k == "discr":
            root, path, ty = self.place(fr, st, r[1])
            return self.discr_of(self.read(st, root, path), ty)
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            n = int(r[2]) if r[2] is not None else None
            if n == 0:
                return EMPTY
            return mk("seq", mk("rp", v, I(n) if n is not None else mk("sym", "N")))
        raise Giveup("rvalue %s" % (r[:2],))

    def _b2i(self, t):
        return t if isint(t) else mk("b2i", t)

    def binop(self, fr, st, op, x, y):
        a, b = self.operand(fr, st, x), self.operand(fr, st, y)
        ty = self.opty(fr, x)
        return self.binop_t(st, op, a, b, ty, self.opty(fr, y))

    def optorder(self, a, b, ty, op):
        """a comparison of two optional integers: an absent one comes first"""
        Y = self.ty(ty)
        ii = self.intinfo(Y["args"][0]) if Y["k"] == "adt" and Y["path"].endswith("Option") and Y.get("args") else None
        if not ii:
            return None
        if op in ("Gt", "Le"):
            a, b = b, a
        da, db = eqint(self.discr_of(a, ty), I(1), 64), eqint(self.discr_of(b, ty), I(1), 64)
        x, y = fld(a, 1, 0, 1), fld(b, 1, 0, 1)
        for t in (x, y):
            self.annotate(t, Y["args"][0])
        r = andb(db, ite(da, lt(x, y, *ii), TRUE))
        return notb(r) if op in ("Ge", "Le") else r

    def ordering(self, a, b, w, s):
        """the Ordering of two integers"""
        path = next((x for x in self._adt_by_path if x.endswith("cmp::Ordering")), None)
        if path is None:
            return None
        less, same, more = (mk("agg", path, i) for i in range(3))
        return ite(lt(a, b, w, s), less, ite(eqint(a, b, w), same, more))

    def binop_t(self, st, op, a, b, ty, ty2=None):
        Y = self.ty(ty)
        ii = self.intinfo(ty)
        if ii and Y["k"] != "bool":
            w, s = ii
            if op in ("Add", "AddUnchecked"):
                return terms.add(a, b, w, s)
            if op in ("Sub", "SubUnchecked"):
                return terms.sub(a, b, w, s)
            if op in ("Mul", "MulUnchecked"):
                return mul(a, b, w, s)
            if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
                v = self.binop_t(st, op[:3], a, b, ty)
                return agg("()", None, [v, mk("ovf", op[:3], w, a, b)])
            if op in ("Div", "Rem", "BitAnd", "BitOr", "BitXor"):
                return self.annotate(binop({"Div": "div", "Rem": "rem", "BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], w, s, a, b), None)
            if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
                return binop("shl" if op.startswith("Shl") else "shr", w, s, a, b)
            if op == "Eq":
                return eqint(a, b, w)
            if op == "Ne":
                return notb(eqint(a, b, w))
            if op == "Lt":
                return lt(a, b, w, s)
            if op == "Gt":
                return lt(b, a, w, s)
            if op == "Le":
                return notb(lt(b, a, w, s))
            if op == "Ge":
                return notb(lt(a, b, w, s))
            if op == "Cmp":
                return self.ordering(a, b, w, s) or mk("cmp", a, b)
        if Y["k"] == "bool":
            if op == "BitAnd":
                return andb(a, b)
            if op == "BitOr":
                return orb(a, b)
            if op in ("Eq", "BitXor", "Ne"):
                r = TRUE if a is b else (b if a is TRUE else notb(b) if a is FALSE else a if b is TRUE else notb(a) if b is FALSE else ite(a, b, notb(b)))
                return r if op == "Eq" else notb(r)
        if Y["k"] == "float":
            if op in ("Lt", "Gt", "Le", "Ge"):
                if op in ("Gt", "Ge"):
                    a, b = b, a
                return mk("flt" if op in ("Lt", "Gt") else "fle", a, b)
            if op in ("Eq", "Ne"):
                r = mk("feq", *sorted((a, b), key=lambda z: z.i))
                return r if op == "Eq" else notb(r)
            if op in ("Add", "Mul"):
                return mk("fop", op, *sorted((a, b), key=lambda z: z.i))
            return mk("fop", op, a, b)
        if op in ("Lt", "Le", "Gt", "Ge") and Y["k"] == "adt":
            r = self.optorder(a, b, ty, op)
            if r is not None:
                return r
        if op in ("Eq", "Ne") and a is not b and Y["k"] == "adt" and Y.get("kind") == "enum" and Y["variants"] and not any(v["fields"] for v in Y["variants"]):
            r = eqint(self.discr_of(a, ty), self.discr_of(b, ty), 64)
            return r if op == "Eq" else notb(r)
        if op in ("Eq", "Ne"):
            r = TRUE if a is b else mk("peq", *sorted((a, b), key=lambda z: z.i))
            return r if op == "Eq" else notb(r)
        return mk("bin2", op, a, b)

    # ---------------------------------------------------------------- running
    def site(self, fr, sp):
        return (sp[0], sp[1], fr.f.path)

    def call_fn(self, f, args, st, want_unwind=False):
        """analyse function f on argument terms; returns list[Out] of kind ret/panic"""
        if len(self.stack) > 60:
            raise Giveup("call depth")
        self.fid += 1
        fr = Frame(f, self.fid)
        self.fns_seen.add(f.id)
        for i in range(f.argc):
            root = ("L", fr.id, i + 1)
            self.rty[root] = f.locals[i + 1]
            st.mem[root] = args[i] if i < len(args) else mk("uninit")
        self.stack.append(f.id)
        try:
            outs = self.run(fr, 0, st, None)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            if o.kind == "ret":
                o.val = self.annotate(self.read(o.st, ("L", fr.id, 0), ()), f.locals[0])
            for r in [r for r in o.st.mem if r[0] == "L" and r[1] == fr.id]:
                del o.st.mem[r]
            res.append(o)
        return res

    def run(self, fr, start, st, loop):
        """explore from block `start`; loop=(header, body) stops at the back edge and at exits"""
        outs = []
        work = [(start, st, True)]
        rpo, loops, preds, irr = fr.f.cfg()
        if irr:
            raise Giveup("irreducible control flow in %s" % fr.f.path)
        while work:
            b, s, first = work.pop()
            # entering a nested loop header
            if b in loops and not (loop and b == loop[0] and first) and not (loop is None and False):
                if loop and b == loop[0]:
                    outs.append(Out("back", None, s))
                    continue
                if loop and b not in loop[1]:
                    outs.append(Out("exit", b, s))
                    continue
                for o in self.do_loop(fr, b, loops[b], s):
                    if o.kind == "exit":
                        self._goto(fr, o.val, o.st, loop, outs, work)
                    else:
                        outs.append(o)
                continue
            self.block(fr, b, s, loop, outs, work)
        return outs

    def _goto(self, fr, tgt, s, loop, outs, work):
        if loop:
            if tgt == loop[0]:
                outs.append(Out("back", None, s))
                return
            if tgt not in loop[1]:
                outs.append(Out("exit", tgt, s))
                return
        work.append((tgt, s, False))

    def block(self, fr, b, s, loop, outs, work):
        bb = fr.f.blocks[b]
        stack = [(s, 0)]
        while stack:
            st, i0 = stack.pop()
            i = i0
            try:
                while i < len(bb["s"]):
                    self.stmt(fr, st, bb["s"][i])
                    i += 1
                self.term(fr, st, bb["t"], bb["sp"], loop, outs, work)
            except NeedSplit as e:
                for s2, v in self.split(st, e.cond):
                    self.resolve_all(s2)
                    stack.append((s2, i))

    def resolve_all(self, st):
        for r, t in list(st.mem.items()):
            if t.op == "ite" or (r[0] == "L" and contains(t, lambda x: x.op == "ite")):
                t2 = self.reduce(st, t)
                if t2 is not t:
                    st.mem[r] = t2

    def stmt(self, fr, st, s):
        if s[0] == "=":
            root, path, ty = self.place(fr, st, s[1])
            v = self.rvalue(fr, st, s[2], ty)
            self.write(st, root, path, v)
        elif s[0] == "sd":
            root, path, ty = self.place(fr, st, s[1])
            y = self.ty(ty)
            old = self.read(st, root, path)
            n = len(y["variants"][s[2]]["fields"])
            fs = [fld(old, s[2], j, n) for j in range(n)]
            self.write(st, root, path, agg(y["path"], s[2], fs) if n else mk("agg", y["path"], s[2]))
        # intrinsics (assume, copy_nonoverlapping) are ignored

    def term(self, fr, st, t, sp, loop, outs, work):
        k = t[0]
        if k == "goto":
            self._goto(fr, t[1], st, loop, outs, work)
        elif k == "ret":
            outs.append(Out("ret", None, st))
        elif k == "switch":
            d = self.operand(fr, st, t[1])
            ty = self.ty(t[4])
            cur = [st]
            for v, tgt in t[2]:
                nxt = []
                for s in cur:
                    if ty["k"] == "bool":
                        c = d if int(v) else notb(d)
                    else:
                        w, sg = self.intinfo(t[4]) or (64, False)
                        vv = wrap(int(v), w, sg)
                        c = eqint(self.reduce(s, d), I(vv), w)
                    for s2, val in self.split(s, c):
                        if val:
                            self._goto(fr, tgt, s2, loop, outs, work)
                        else:
                            nxt.append(s2)
                cur = nxt
            for s in cur:
                if fr.f.blocks[t[3]]["t"][0] == "unreachable" and not fr.f.blocks[t[3]]["s"]:
                    continue
                self._goto(fr, t[3], s, loop, outs, work)
        elif k == "drop":
            root, path, _ = self.place(fr, st, t[1])
            if not path and root in st.mem:
                v = st.mem[root]
                if v.op == "agg" and v.a[0] == "Coded" and v.a[3] is not EMPTY:
                    # what a coded output still buffers when it goes is lost
                    st.mem[("G", "lost")] = cat(st.mem.get(("G", "lost"), EMPTY), v.a[3])
            self._goto(fr, t[2], st, loop, outs, work)
        elif k == "assert":
            c = self.operand(fr, st, t[1])
            c = c if t[2] else notb(c)
            if self.fork_asserts:
                for s, v in self.split(st, c):
                    if v:
                        self._goto(fr, t[4], s, loop, outs, work)
                    else:
                        outs.append(Out("panic", None, s, ("assert:" + t[3][0],) + self.site(fr, sp)))
            else:
                c = self.reduce(st, c)
                if self.decide(st, c) is False:
                    outs.append(Out("panic", None, st, ("assert:" + t[3][0],) + self.site(fr, sp)))
                else:
                    if c.op != "int" and not contains(c, lambda x: x.op == "ovf"):
                        st2 = st
                        pc = st2.pc
                        self.assume(st2, c, True)
                        st2.pc = pc
                    self._goto(fr, t[4], st, loop, outs, work)
        elif k == "call":
            self.call(fr, st, t, sp, loop, outs, work)
        elif k in ("unreachable", "resume"):
            pass
        else:
            raise Giveup("terminator %s" % k)

    # ---------------------------------------------------------------- calls
    def call(self, fr, st, t, sp, loop, outs, work):
        callee, args, dest, tgt = t[1], t[2], t[3], t[4]
        av = [self.operand(fr, st, a) for a in args]
        at_ = [self.opty(fr, a) for a in args]
        droot, dpath, dty = self.place(fr, st, dest)
        site = self.site(fr, sp)
        for kind, s, v in self.apply(st, callee, av, at_, dty, site):
            if kind == "ret":
                if tgt is None:
                    continue
                s2 = s
                self.write(s2, droot, dpath, self.annotate(v, dty))
                self._goto(fr, tgt, s2, loop, outs, work)
            elif kind == "skip":
                # a filtered iterator dropped an element: on to the next one
                if not (loop and self.leads_to(fr, loop[0], t)):
                    raise Giveup("a filtered iterator is advanced outside a loop over it")
                outs.append(Out("back", None, s))
            else:
                outs.append(Out("panic", None, s, v if isinstance(v, tuple) else (callee["path"],) + site))

    def leads_to(self, fr, b, t):
        """from block b on, nothing but borrowing happens before terminator t"""
        for _ in range(8):
            bb = fr.f.blocks[b]
            if any(x[0] == "=" and x[2][0] not in ("ref", "use") for x in bb["s"]):
                return False
            if bb["t"] is t:
                return True
            if bb["t"][0] != "goto":
                return False
            b = bb["t"][1]
        return False

    def apply(self, st, callee, av, at_, dty, site):
        """-> list of (kind, state, value)"""
        decl = callee["decl"]
        last = decl.split("::")[-1]
        if last in ("call_once", "call_mut", "call") and callee.get("trait", "").split("::")[-1] in ("FnOnce", "FnMut", "Fn"):
            tup = av[1]
            n = len(tup.a) - 2 if tup.op == "agg" else (self.nfields(at_[1]) or 0)
            targs = [fld(tup, None, i, n) for i in range(n)]
            return self.call_closure(st, av[0], targs, at_[0], dty, site)
        self.calls_seen.add((callee["path"], site))
        name = self.atomic(self, callee)
        if name:
            if callable(name):
                r = name(self, st, callee, av, at_, dty, site)
                if r is not None:
                    return r
            else:
                return self.effect(st, name, av, at_, dty, site)
        if callee.get("shim") == "virtual" and av:
            c2, at2 = self.devirtualise(callee, av[0], at_)
            if c2 is not None:
                return self.apply(st, c2, av, at2, dty, site)
        key = self.M.key_of(self, callee, at_)
        m = self.models.get(key)
        if m is None and callee.get("trait"):
            m = self.models.get(callee["trait"].split("::")[-1] + "::" + callee["method"])
        if m is not None:
            try:
                r = m(self, st, callee, av, at_, dty, site)
            except TypeError:
                if None not in at_:
                    raise
                r = None            # a function passed by name whose argument types are not recorded
            if r is not None:
                return r
        if callee["fn"] is not None:
            f = self.p.fns[callee["fn"]]
            if f is not None and f.id not in self.stack[-40:]:
                return self.inline(f, av, st)
            if f is not None:
                return self.effect(st, "rec:" + callee["path"], av, at_, dty, site)
        if self.M.is_panic(callee):
            return [("panic", st, (callee["path"],) + site)]
        self.opaque.setdefault(key, set()).add(site)
        return self.effect(st, "?" + key, av, at_, dty, site)

    def devirtualise(self, callee, recv, at_):
        """the method a call through a trait object reaches, where the object's type is known from its coercion"""
        if recv.op == "ite":
            raise NeedSplit(recv.a[0])
        ty = self.unsized.get(recv)
        if ty is None:
            return None, None
        fs = [f for f in self.p.fns if f and f.argc and f.name == callee["method"] and getattr(f, "impl_trait", None) == callee["trait"] and self.ty(f.locals[1])["k"] == "ref" and self.ty(f.locals[1])["e"] == ty]
        if len(fs) != 1:
            return None, None
        f = fs[0]
        return dict(callee, fn=f.id, path=f.path, shim="item"), [f.locals[1]] + list(at_[1:])

    def inline(self, f, av, st):
        return [(o.kind, o.st, o.val if o.kind == "ret" else o.info) for o in self.call_fn(f, av, st)]

    def call_closure(self, st, c, targs, cty, dty, site):
        cv = c
        if cv.op == "ref":
            inner = self.read(st, cv.a[0], cv.a[1])
            if inner.op == "ref":
                return self.call_closure(st, inner, targs, None, dty, site)
        else:
            inner = cv
        if inner.op == "ite":
            raise NeedSplit(inner.a[0])
        if inner.op == "fn":
            fj = self.ty(inner.a[0]).get("f")
            if fj:
                f = self.p.fns[fj["fn"]] if fj["fn"] is not None else None
                tys = [None] * len(targs)
                if f is not None:
                    tys = [f.locals[i + 1] for i in range(f.argc)]
                # constructor functions of enum variants / tuple structs have no MIR here
                return self.apply(st, fj, targs, tys, dty, site)
        if inner.op == "agg" and str(inner.a[0]).startswith("closure#"):
            f = self.p.fns[int(inner.a[0].split("#")[1])]
            byref = self.ty(f.locals[1])["k"] == "ref"
            if byref and cv.op != "ref":
                self.uid += 1
                root = ("T", self.uid)
                st.mem[root] = cv
                self.rty[root] = self.ty(f.locals[1])["e"]
                cv = mk("ref", root, ())
            elif not byref and cv.op == "ref":
                cv = inner
            return self.inline(f, [cv] + targs, st)
        av = [c] + targs
        return self.effect(st, "?closure", av, [None] * len(av), dty, site)

    def mutable_targets(self, st, av, at_):
        """[(arg index, root, path)] of memory an opaque callee may write"""
        res, seen = [], set()

        def add(k, v, ty):
            if v.op == "ref":
                if (v.a[0], v.a[1]) in seen or v.a[0][0] in ("K", "S", "T"):
                    return
                seen.add((v.a[0], v.a[1]))
                res.append((k, v.a[0], v.a[1]))
                inner = self.read(st, v.a[0], v.a[1])
                for x in walk(inner):
                    if x.op == "ref":
                        add(k, x, None)
            elif ty is not None and self.ty(ty)["k"] == "ref" and self.ty(ty)["mut"]:
                r, p = self.target(v, self.ty(ty)["e"])
                if (r, p) not in seen:
                    seen.add((r, p))
                    res.append((k, r, p))
        for k, (v, ty) in enumerate(zip(av, at_)):
            y = self.ty(ty) if ty is not None else None
            if y and y["k"] == "ref" and not y["mut"]:
                # shared reference: only pointers stored behind it that are mutable would matter (none in this crate)
                continue
            if y and y["k"] == "ref":
                add(k, v, ty)
            else:
                for x in walk(v):
                    if x.op == "ref":
                        if y and y["k"] == "adt" and y["path"].startswith("std::fmt"):
                            continue
                        add(k, x, None)
        return res

    def effect(self, st, name, av, at_, dty, site, pure=False):
        ins = []
        for v, ty in zip(av, at_):
            y = self.ty(ty) if ty is not None else None
            if v.op != "ref" and y and y["k"] in ("ref", "ptr"):
                ins.append(self.value(st, self.deref(st, v, y["e"])))
            else:
                ins.append(self.value(st, v))
        ins = tuple(ins)
        if not pure:
            muts = self.mutable_targets(st, av, at_)
            for n, (k, root, path) in enumerate(muts):
                e = mk("eff", name, k if n == 0 or muts[n - 1][0] != k else "%d.%d" % (k, n), *ins)
                self.sites.setdefault(e, site)
                self.write(st, root, path, e)
        r = mk("ret", name, *ins)
        self.sites.setdefault(r, site)
        st.trace = st.trace + ((name, site, ins),)
        if dty is not None:
            y = self.ty(dty)
            if y["k"] == "tuple" and not y["es"]:
                r = UNIT
            elif y["k"] == "never":
                return [("panic", st, (name,) + site)]
        return [("ret", st, self.annotate(r, dty))]

    # ---------------------------------------------------------------- loops
    def diff(self, a, b, path, out):
        if a is b:
            return
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a) == len(b.a):
            for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:])):
                self.diff(x, y, path + (i,), out)
            return
        # lists that differ in what their last element holds
        if a.op == "seq" and b.op == "seq" and len(a.a) == len(b.a) and a.a[:-1] == b.a[:-1] and a.a[-1].op == "el" and b.a[-1].op == "el":
            self.diff(a.a[-1].a[0], b.a[-1].a[0], path + ("last",), out)
            return
        # symbolic struct vs its updated aggregate: descend
        if b.op == "agg" and b.a[1] in (None, "bx") and a.op not in ("agg", "int", "seq", "ref", "uninit") and len(b.a) > 2:
            n = len(b.a) - 2
            for i in range(n):
                x = fld(a, b.a[1], i, n)
                self.diff(x, b.a[2 + i], path + (i,), out)
            return
        out.append(path)

    def shape(self, a, b):
        """the finer of two shapes of the same value"""
        if b.op != "agg":
            return a
        if a.op != "agg":
            return b
        if a.a[:2] != b.a[:2] or len(a.a) != len(b.a):
            return a
        return agg(a.a[0], a.a[1], [self.shape(x, y) for x, y in zip(a.a[2:], b.a[2:])])

    def put(self, t, path, val, like=None):
        if not path:
            return val
        if path[0] == "last":
            if t.op != "seq" or t.a[-1].op != "el":
                raise Giveup("loop location")
            like = like.a[-1].a[0] if like is not None and like.op == "seq" and like.a[-1].op == "el" else None
            return cat(mk("seq", *t.a[:-1]), el(self.put(t.a[-1].a[0], path[1:], val, like)))
        if t.op == "agg":
            fs = list(t.a[2:])
            fs[path[0]] = self.put(fs[path[0]], path[1:], val, like.a[2 + path[0]] if like is not None and like.op == "agg" else None)
            return agg(t.a[0], t.a[1], fs)
        if like is not None and like.op == "agg":
            n = len(like.a) - 2
            fs = [fld(t, like.a[1], i, n) for i in range(n)]
            fs[path[0]] = self.put(fs[path[0]], path[1:], val, like.a[2 + path[0]])
            return agg(like.a[0], like.a[1], fs)
        raise Giveup("loop location")

    def get(self, t, path, variant=None, like=None):
        for i in path:
            if i == "last":
                if t.op != "seq" or t.a[-1].op != "el":
                    raise Giveup("loop location")
                t = t.a[-1].a[0]
                like = like.a[-1].a[0] if like is not None and like.op == "seq" and like.a[-1].op == "el" else None
                continue
            if t.op == "agg":
                t = t.a[2 + i]
            elif like is not None and like.op == "agg":
                t = fld(t, like.a[1], i, len(like.a) - 2)
            else:
                t = fld(t, variant, i, 0)
            if like is not None and like.op == "agg":
                like = like.a[2 + i]
        return t

    def do_loop(self, fr, header, body, st0):
        self.nloops += 1
        if self.unroll:
            return self.unroll_loop(fr, header, body, st0)
        self.uid += 1
        uid = self.uid
        locs = {}          # (root, path) -> phi
        likes = {}         # root -> aggregate shape seen at the back edge
        base_pc = st0.pc
        for rounds in range(12):
            st = st0.fork()
            st.pc = ()
            tr0 = st.trace
            st.trace = ()
            for (root, path), phi in locs.items():
                st.mem[root] = self.put(st.mem[root], path, phi, likes.get(root))
            outs = self.run(fr, header, st, (header, body))
            backs = [o for o in outs if o.kind == "back"]
            new = {}
            for o in backs:
                for root, v0 in st0.mem.items():
                    if root not in o.st.mem:
                        continue
                    v1 = o.st.mem[root]
                    # compare against the value at the loop head of this round
                    h = v0
                    for (r2, path), phi in locs.items():
                        if r2 == root:
                            h = self.put(h, path, phi, likes.get(root))
                    if v1 is h:
                        continue
                    ds = []
                    self.diff(h, v1, (), ds)
                    if v1.op == "agg":
                        likes[root] = self.shape(likes[root], v1) if root in likes else v1
                    for d in ds:
                        new[(root, d)] = v1
            # drop locations already covered by a shorter/equal one
            changed = False
            for (root, d) in new:
                if any(r == root and d[:len(p)] == p for (r, p) in locs):
                    continue
                for k in [k for k in locs if k[0] == root and k[1][:len(d)] == d]:
                    del locs[k]
                locs[(root, d)] = mk("phi", uid, root, d)
                changed = True
                init = self.get(st0.mem[root], d, like=likes.get(root))
                r = rng(init) if init.op != "uninit" else None
                # type range for the phi
                ph = locs[(root, d)]
                if isint(init) or r:
                    ty = self._locty(root, d)
                    if ty is not None and self.intinfo(ty) and self.ty(ty)["k"] == "int":
                        ph.rng = typerange(*self.intinfo(ty))
                    elif isint(init) and init.a[0] >= 0:
                        ph.rng = (0, 1 << 62)
            if not changed:
                break
        else:
            raise Giveup("loop fixpoint in %s" % fr.f.path)
        if self.cut is not None:
            r = self.cut(self, fr, header, body, st0, tr0, locs, likes)
            if r is not None:
                return r
        r = self.close_loop(fr, header, st0, tr0, locs, likes, outs, uid)
        if r is None:
            r = self.unroll_loop(fr, header, body, st0.fork(), 9)
        return r

    def _locty(self, root, path):
        ty = self.rty.get(root)
        for i in path:
            if i == "last":
                return None
            ty = self.elem_ty(ty, ("f", i)) if ty is not None and self.nfields(ty) else None
        return ty

    def close_loop(self, fr, header, st0, tr0, locs, likes, outs, uid):
        backs = [o for o in outs if o.kind == "back"]
        exits = [o for o in outs if o.kind == "exit"]
        rest = [o for o in outs if o.kind in ("ret", "panic")]
        phis = {phi: k for k, phi in locs.items()}
        init = {phi: self.get(st0.mem[k[0]], k[1], like=likes.get(k[0])) for k, phi in locs.items()}
        if not backs:
            for o in exits + rest:
                o.st.pc = st0.pc + o.st.pc
                o.st.trace = tr0 + o.st.trace
            m = dict(init)
            for o in exits + rest:
                self.subst_state(o.st, m)
            return exits + rest
        nexts = {phi: self.tree([(o.st.pc, self.get(o.st.mem[k[0]], k[1], like=likes.get(k[0]))) for o in backs]) for k, phi in locs.items()}
        ixs = mk("ixtmp", uid)
        ixs.rng = (0, 1 << 62)
        m = {}
        # induction variables
        isphi = lambda x: x in phis
        for phi, nx in nexts.items():
            if nx is phi:
                m[phi] = init[phi]
                continue
            if nx.op == "store" and slen(nx) is slen(phi) and init[phi].op != "uninit":
                m[slen(phi)] = slen(init[phi])       # element updates keep the length
            d = terms.sub(nx, phi, 64)
            if d.op == "int" or (d is not nx and not contains(d, isphi) and init[phi].op != "seq"):
                if d.op == "int":
                    m[phi] = add64(init[phi], scale(ixs, d.a[0], 64))
                elif init[phi].op in ("int", "lin", "fld", "ret", "sym", "len"):
                    if not any(x.op in ("seq", "eff") for x in (nx,)):
                        pass
        # trip count: an exit whose last literal is the loop test on an induction variable
        n = None
        main = None
        for o in exits:
            for (c, v) in o.st.pc:
                c2 = subst(c, m)
                tn = self.trip(c2, v, ixs, phis)
                if tn is not None and all(any(cc is c and vv is (not v) for cc, vv in b.st.pc) for b in backs):
                    n, main = tn, o
                    main_lit = c
                    break
            if n is not None:
                break
        if n is None:
            conds = tuple(subst(mk("pcs", *[x for c, v in o.st.pc for x in (c, I(int(v)))]), {}) for o in exits)
            n = mk("trip", uid)
        if isint(n) and 1 <= n.a[0] <= 8 and any(contains(x, literal_at) for x in nexts.values()):
            return None         # a walk over a written-out list: taken one element at a time
        # closed forms: value at the top of iteration i
        forms = {}

        def form(p, i):
            v = forms[p]
            if v[0] == "fold":
                t = mk("fold", i, v[1], v[2], v[3], v[4])
                if p.rng is not None and t.rng is None:
                    t.rng = p.rng
                return t
            if v[0] == "mapcat" and v[2].op == "seq" and len(v[2].a) == 1 and v[2].a[0].op == "el":
                x = v[2].a[0].a[0]
                if x.op == "at" and x.a[1] is mk("ix", v[3]) and slen(x.a[0]) is i and not contains(x.a[0], lambda y: y is x.a[1]):
                    return cat(v[1], x.a[0])        # every element of a list, one after the other
            if v[0] == "mapcat":
                return cat(v[1], mk("seq", mk("mapcat", i, v[2], v[3])))
            if v[0] == "sum":
                if contains(v[2], lambda x: x is mk("ix", v[3])):
                    s_ = mk("sum", i, v[2], v[3])
                    if s_.rng is None:
                        s_.rng = (0, (1 << 63))
                else:
                    s_ = mul(i, v[2], 64)
                return terms.add(v[1], s_, v[4])
            if v[0] == "each":
                return mk("each", i, v[1], v[2], v[3])
            return mk("last", i, v[1], v[2], v[3])
        # a slice whose front is taken off in every round: a window that moves over what it was
        cursors = {}
        for p, nx in nexts.items():
            if p in m or nx.op != "ref" or nx.a[0] != ("D", p) or len(nx.a[1]) != 1 or nx.a[1][0][0] != "rng" or init[p].op != "ref":
                continue
            whole = mk("deref", p)
            x, end = nx.a[1][0][1:]
            x = subst(x, m)
            r0, p0 = init[p].a
            if end is not slen(whole) or contains(x, isphi) or r0 not in st0.mem:
                continue
            if any(r == r0 and (q[:len(p0)] == p0 or p0[:len(q)] == q) for r, q in locs) or any(o.st.mem.get(("D", p), whole) is not whole for o in backs + exits):
                continue
            v0 = self.read(st0, r0, p0)
            k = 1 + max_ix(x)
            cursors[p] = (init[p], v0, subst(x, {ixs: mk("ix", k)}), k)

        def cursor(p, i):
            r, v0, x, k = cursors[p]
            if contains(x, lambda y: y is mk("ix", k)):
                off = mk("sum", i, x, k)
                if off.rng is None:
                    off.rng = (0, 1 << 63)
            else:
                off = mul(i, x, 64)
            return {p: mk("ref", r.a[0], r.a[1] + (("rng", off, slen(v0)),)), mk("deref", p): slice_(v0, off, slen(v0))}
        for p in cursors:
            m.update(cursor(p, ixs))
        todo = {p: nexts[p] for p in nexts if p not in m}
        progress = True
        while todo and progress:
            progress = False
            for p in list(todo):
                nx = subst(todo[p], m)
                r = self.closed(p, nx, init[p], ixs, set(todo))
                if r is not None:
                    forms[p] = r
                    m[p] = form(p, ixs)
                    del todo[p]
                    progress = True
        if todo:
            ps = sorted(todo, key=lambda p: p.i)
            bodies = tuple(subst(todo[p], m) for p in ps)
            k = 1 + max([max_ix(b) for b in bodies])
            mm = {p: mk("acc", k, j) for j, p in enumerate(ps)}
            mm[ixs] = mk("ix", k)
            cb = tuple(subst(b, mm) for b in bodies)
            inits = tuple(init[p] for p in ps)
            for j, p in enumerate(ps):
                forms[p] = ("fold", cb, inits, k, j)
                m[p] = form(p, ixs)

        # instantiate: values after i iterations
        def inst(i):
            mm = {p: form(p, i) if p in forms else subst(m[p], {ixs: i}) for p in nexts if p not in cursors}
            for p in cursors:
                mm.update(cursor(p, i))
            mm[ixs] = i
            return mm
        result = []
        bodytr = tuple((tuple((c, v) for c, v in o.st.pc), o.st.trace) for o in backs)
        # other counted exits (two lists walked side by side)
        counted = {}
        if main is not None:
            counted[id(main)] = (n, main_lit)
            for o in exits:
                for c, v in o.st.pc if o is not main else ():
                    tn = self.trip(subst(c, m), v, ixs, phis)
                    if tn is not None and all(any(cc is c and vv is (not v) for cc, vv in b.st.pc) for b in backs):
                        counted[id(o)] = (tn, c)
                        break
        for o in exits + rest:
            side = []
            if id(o) in counted:
                for o2 in exits:
                    k2 = counted.get(id(o2))
                    if o2 is not o and k2 and not any(c is k2[1] for c, _ in o.st.pc):
                        side.append((neg(sub64(k2[0], counted[id(o)][0])), False))
            if o is main:
                mm = inst(n)
                pc = [(subst(c, mm), v) for c, v in o.st.pc if c is not main_lit]
            elif id(o) in counted:
                mm = inst(counted[id(o)][0])
                pc = [(subst(c, mm), v) for c, v in o.st.pc if c is not counted[id(o)][1]]
            else:
                self.uid += 1
                ie = mk("ixe", self.uid)
                ie.rng = (0, 1 << 62)
                mm = inst(ie)
                pc = [(subst(c, mm), v) for c, v in o.st.pc]
            pc += side
            self.subst_state(o.st, mm)
            o.st.facts = dict(st0.facts)
            o.st.pc = st0.pc
            ok = True
            for c, v in pc:
                if o is main and contains(c, lambda x: x.op == "phi"):
                    continue
                if not self.assume(o.st, c, v):
                    ok = False
                    break
            if o is main and not ok:
                # a non-test literal of the exit iteration contradicts: keep the state, drop the literal
                ok = True
            if not ok:
                continue
            o.st.trace = tr0 + (("loop", n, bodytr),) + tuple(o.st.trace)
            result.append(o)
        return result

    def trip(self, c, v, ixs, own):
        """number of completed iterations when the loop leaves through (c == v)"""
        while c.op == "not":
            c, v = c.a[0], not v
        if c.op not in ("neg", "eqz"):
            return None
        d = c.a[0]
        if d is ixs:
            w, k0, items = 64, 0, ((ixs, 1),)
        elif d.op == "lin":
            w, k0, items = d.a
        else:
            return None
        co = dict(items).get(ixs)
        if co not in (1, -1):
            return None
        others = mklin(w, k0, {x: k for x, k in items if x is not ixs})
        if contains(others, lambda x: x is ixs or x in own):
            return None
        if c.op == "neg":
            if co == 1 and v is False:      # leaves when ix + o >= 0  -> n = -o
                return terms.scale(others, -1, 64)
            if co == -1 and v is True:      # leaves when o - ix < 0  -> ix > o -> n = o+1
                return add64(others, I(1))
            return None
        if v is False:
            return I(1) if d is ixs else None    # stays only while ix == 0
        if v is True:                        # leaves when co*ix + o == 0
            return terms.scale(others, -co, 64)
        return None

    def closed(self, p, nx, init, ixs, unresolved):
        """closed form of p' = nx"""
        isun = lambda x: x in unresolved
        hasp = lambda x: x is p
        if not contains(nx, isun):
            k = 1 + max_ix(nx)
            return ("last", init, subst(nx, {ixs: mk("ix", k)}), k)
        # sequence append
        if nx.op == "seq" and nx.a and nx.a[0].op == "sp" and nx.a[0].a[0] is p:
            stuff = cat(*[mk("seq", q) for q in nx.a[1:]])
            if not contains(stuff, isun):
                k = 1 + max_ix(stuff)
                return ("mapcat", init, subst(stuff, {ixs: mk("ix", k)}), k)
            return None
        # sum
        if nx.op == "lin" and dict(nx.a[2]).get(p) == 1:
            stuff = mklin(nx.a[0], nx.a[1], {x: c for x, c in nx.a[2] if x is not p})
            if not contains(stuff, isun):
                k = 1 + max_ix(stuff)
                return ("sum", init, subst(stuff, {ixs: mk("ix", k)}), k, nx.a[0])
            return None
        # in-place element update  p[ix] = g(p[ix])
        if nx.op == "store" and nx.a[0] is p and len(nx.a[1]) == 1 and nx.a[1][0][0] is ixs:
            g = nx.a[1][0][1]
            g2 = subst(g, {mk("at", p, ixs): at(init, ixs)})
            if not contains(g2, isun):
                k = 1 + max_ix(g2)
                return ("each", init, subst(g2, {ixs: mk("ix", k)}), k)
            return None
        return None

    def tree(self, paths):
        """merge alternative (facts, value) pairs into one gated value"""
        vals = {v for _, v in paths}
        if len(vals) == 1:
            return next(iter(vals))
        first = next((pc for pc, _ in paths if pc), None)
        if first is None:
            return mk("nondet", *sorted(vals, key=lambda v: v.i))
        c = first[0][0]
        tp, fp = [], []
        for pc, v in paths:
            hit = [(x, y) for x, y in pc if x is c]
            rest = tuple((x, y) for x, y in pc if x is not c)
            if not hit or hit[0][1]:
                tp.append((rest, v))
            if not hit or not hit[0][1]:
                fp.append((rest, v))
        if not tp:
            return self.tree(fp)
        if not fp:
            return self.tree(tp)
        return ite(c, self.tree(tp), self.tree(fp))

    def subst_state(self, st, m):
        memo = {}
        for r in list(st.mem):
            t = st.mem[r]
            st.mem[r] = subst(t, m, memo)
        # roots keyed by a substituted pointer term
        for r in list(st.mem):
            if r[0] == "D":
                n = subst(r[1], m, memo)
                if n is not r[1]:
                    st.mem[("D", n)] = st.mem.pop(r)
                    if r in self.rty:
                        self.rty.setdefault(("D", n), self.rty[r])
        st.trace = tuple(self.subst_tr(x, m, memo) for x in st.trace)

    def subst_tr(self, ev, m, memo):
        if ev[0] == "loop":
            return ("loop", subst(ev[1], m, memo), tuple((tuple((subst(c, m, memo), v) for c, v in pc), tuple(self.subst_tr(e, m, memo) for e in tr)) for pc, tr in ev[2]))
        return (ev[0], ev[1], tuple(subst(x, m, memo) for x in ev[2]))

    def unroll_loop(self, fr, header, body, st0, limit=None):
        """loops whose trip count is a small constant: iterate the abstract transformer itself"""
        res = []
        cur = [st0]
        for n in range(limit or self.unroll):
            nxt = []
            for s in cur:
                for o in self.run(fr, header, s, (header, body)):
                    if o.kind == "back":
                        nxt.append(o.st)
                    else:
                        res.append(o)
            cur = nxt
            if not cur:
                return res
        raise Giveup("loop in %s not bounded by %d iterations" % (fr.f.path, limit or self.unroll))

    # a loop over an abstract step function (library adaptors such as sum/collect/for_each)
    def builtin_loop(self, st0, it, step, acc0, dty, site):
        """while let Some(x) = next(it): acc = step(acc, x);  -> [(kind, state, acc)]"""
        self.uid += 1
        uid = self.uid
        IT, AC = ("T", "it%d" % uid), ("T", "acc%d" % uid)
        st0 = st0.fork()
        st0.mem[IT] = it
        st0.mem[AC] = acc0
        eng = self

        class PF:          # pseudo frame: header block 0, exit block 1
            pass
        def body(st):
            outs = []
            for kind, s, v in eng.M.iter_next(eng, st, mk("ref", IT, ()), site):
                if kind != "ret":
                    outs.append(Out("back" if kind == "skip" else "panic", None, s, v))
                    continue
                if v is None:
                    outs.append(Out("exit", 1, s))
                    continue
                for k2, s2, a2 in step(s, s.mem[AC], v):
                    if k2 == "ret":
                        s2.mem[AC] = a2
                        outs.append(Out("back", None, s2))
                    elif k2 == "break":
                        s2.mem[AC] = a2
                        outs.append(Out("exit", 2, s2))
                    else:
                        outs.append(Out("panic", None, s2, a2))
            return outs
        few = self.at_most(it)
        if few is not None and few <= 4:
            res, now = [], [st0]
            for _ in range(few + 1):
                nxt = []
                for s in now:
                    for o in body(s):
                        (nxt if o.kind == "back" else res).append(o.st if o.kind == "back" else o)
                now = nxt
            if now:
                raise Giveup("iterator yields more than it holds")
            return [("panic", o.st, o.info) if o.kind == "panic" else ("break" if o.val == 2 else "ret", o.st, o.st.mem[AC]) for o in res]
        saved = self.run
        try:
            self.run = lambda fr, header, st, loop: body(st)
            saved_unroll = self.unroll
            f = PF()
            f.f = PF()
            f.f.path = "<iterator loop at %s:%s>" % (site[0], site[1])

            def run2(fr, h, st, loop):
                self.run = saved
                try:
                    return body(st)
                finally:
                    self.run = run2
            self.run = run2
            outs = self.do_loop(f, 0, {0}, st0)
        finally:
            self.run = saved
        res = []
        for o in outs:
            if o.kind == "exit":
                a = o.st.mem[AC]
                del o.st.mem[AC]
                del o.st.mem[IT]
                res.append(("ret" if o.val == 1 else "break", o.st, a))
            else:
                res.append(("panic", o.st, o.info))
        return res

    def at_most(self, it):
        """how many elements an iterator over options (and written-out lists next to them) can yield, where that is plain"""
        if it.op != "agg":
            return None
        tag = it.a[0]
        if tag in ("it.opt", "it.optref"):
            return 1
        if tag in ("it.cl", "it.map", "it.insp", "it.filter", "it.fmap", "it.enum"):
            return self.at_most(it.a[2])
        if tag == "it.chain":
            n = [self.at_most(x) if x.op != "agg" or x.a[0] != "it.val" else self.M.literal_len(x.a[2]) for x in it.a[2:4]]
            return None if None in n else sum(n)
        return None

    # ---------------------------------------------------------------- entry
    def analyse(self, f, args=None, st=None):
        """analyse root function f with symbolic arguments; returns (outs, arg roots)"""
        st = st or State()
        for g in ("verify", "statnew", "flush", "new", "lost"):
            st.mem.setdefault(("G", g), EMPTY)
        av, roots = [], []
        self.argterms = []        # the value an argument (or what it points to) has on entry
        for i in range(f.argc):
            ty = f.locals[i + 1]
            y = self.ty(ty)
            nm = f.names.get(str(i + 1), "arg%d" % (i + 1))
            if args and i in args:
                av.append(args[i])
                roots.append(None)
                self.argterms.append(args[i])
                continue
            if y["k"] == "ref":
                root = ("P", nm)
                self.rty[root] = y["e"]
                if root not in st.mem:
                    st.mem[root] = self.annotate(mk("sym", nm, self.ty(y["e"])["s"]), y["e"])
                av.append(mk("ref", root, ()))
                roots.append(root)
                self.argterms.append(st.mem[root])
            else:
                av.append(self.annotate(mk("sym", nm, y["s"]), ty))
                roots.append(None)
                self.argterms.append(av[-1])
        for i, hi in self.below:
            if not self.assume(st, lt(self.argterms[i], I(hi), 64, False), True):
                raise Giveup("argument %d of %s cannot be below %d" % (i, f.path, hi))
        outs = self.call_fn(f, av, st)
        return outs, roots


def literal_at(x):
    """a look-up in a written-out list at an index that is not known"""
    return x.op == "at" and not isint(x.a[1]) and x.a[0].op == "seq" and len(x.a[0].a) > 0 and all(p.op == "el" for p in x.a[0].a)


class Frame:
    __slots__ = ("f", "id")

    def __init__(self, f, i):
        self.f, self.id = f, i
