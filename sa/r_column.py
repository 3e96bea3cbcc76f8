"""Rules about the twelve column implementations (C03-C08, C11, C12, C15, C22-C24, C28: the column part of each).

Every rule compares, on each exit partition of a column method, the value number of each leaf of the column (streams,
statistics, positions, index entries, counters, children) with what the ORC table below prescribes."""
import itertools
from terms import *
from orc import *
from layers import NULL, npres, nnull, nvals, hasnull

# variant of Data -> streams besides PRESENT, in the order the ORC format defines: (kind, encoder)
ORC = {
    "Boolean": [("DATA", "BooleanRLE")],
    "Long": [("DATA", "SignedIntRLEv1")],
    "Float": [("DATA", "CompressionStream")],
    "Double": [("DATA", "CompressionStream")],
    "Timestamp": [("DATA", "SignedIntRLEv1"), ("SECONDARY", "UnsignedIntRLEv1")],
    "Decimal": [("DATA", "CompressionStream"), ("SECONDARY", "SignedIntRLEv1")],
    "String": [("DATA", "CompressionStream"), ("LENGTH", "UnsignedIntRLEv1")],
    "Binary": [("DATA", "CompressionStream"), ("LENGTH", "UnsignedIntRLEv1")],
    "Struct": [],
    "List": [("LENGTH", "UnsignedIntRLEv1")],
    "Map": [("LENGTH", "UnsignedIntRLEv1")],
    "Union": [("DATA", "ByteRLE")],
}
NESTED = ("Struct", "List", "Map", "Union")


def variants(ctx):
    """the columns, which must be exactly those of the table"""
    got = {c.name: c for c in ctx.columns}
    if set(got) != set(ORC):
        raise Anchor("column kinds %s differ from the ORC table (%s)" % (sorted(got), sorted(ORC)))
    return [got[n] for n in ORC]


def suffix(new, old):
    """what was appended to a sequence, or None when it was changed in any other way"""
    if new is old:
        return []
    if old.op == "seq" and not old.a:
        return parts_of(new)
    op = parts_of(old)
    np = parts_of(new)
    if len(np) >= len(op) and all(x is y for x, y in zip(np, op)):
        return np[len(op):]
    return None


def bag(*ts):
    """multiset of a bag term's parts"""
    out = []
    for t in ts:
        out += [p for p in parts_of(t)]
    return sorted(out, key=lambda p: p.i)


def same_bag(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def roles(ctx, col):
    """stream kind -> leaf, checked against the table"""
    r = col.roles()
    want = {"PRESENT": "BooleanRLE"}
    want.update(dict(ORC[col.name]))
    for k, enc in want.items():
        if k not in r:
            raise Anchor("%s: write_data_streams lists no %s stream backed by a stream of the column" % (col.adt, k))
    return {k: r[k] for k in want}


def mut_methods(ctx, col):
    """methods reachable from outside that can change the column by themselves (not the BaseData protocol)"""
    out = []
    for f in col.methods():
        t = ctx.p.t(f.locals[1])
        if f.reach and t["k"] == "ref" and t["mut"] and t["e"] == col.ty:
            out.append(f)
    return out


class Eff:
    def __init__(self, col, f, s, o):
        self.col, self.f, self.s, self.o = col, f, s, o
        self.old = {l.name: l.get(s.old(0)) for l in col.leaves()}
        self.new = {l.name: s.eng.reduce(o.st, l.get(s.new(o, 0))) for l in col.leaves()}
        r = roles(col.ctx, col)
        self.sfx = {k: suffix(self.new[l.name], self.old[l.name]) for k, l in r.items()}
        ss, rg = col.stripe_stats.name, col.rg_stats.name
        self.ss, self.rg, self.ss2, self.rg2 = self.old[ss], self.old[rg], self.new[ss], self.new[rg]
        before = bag(self.ss, self.rg)
        after = bag(self.ss2, self.rg2)
        self.stat = None
        rest = list(after)
        try:
            for x in before:
                rest.remove(x)
            self.stat = rest
        except ValueError:
            pass
        # closing: the row group statistics were handed over
        self.close = self.rg2 is not self.rg and not any(p.op == "sp" and p.a[0] is self.rg for p in parts_of(self.rg2))
        p = self.sfx["PRESENT"]
        if p is not None and len(p) == 1 and p[0].op == "el" and p[0].a[0] is I(1):
            self.kind = "value"
        elif p is not None and len(p) == 1 and p[0].op == "el" and p[0].a[0] is I(0):
            self.kind = "null"
        elif all(self.new[n] is self.old[n] for n in self.new):
            self.kind = "none"
        else:
            self.kind = "other"

    @property
    def tag(self):
        return "%s::%s" % (self.col.name, self.f.name)

    def args(self):
        """[(term, type entry)] of the value arguments"""
        p = self.col.ctx.p
        out = []
        for i in range(1, self.f.argc):
            ty = self.f.locals[i + 1]
            t = p.t(ty)
            a = self.s.arg(i)
            r = self.s.roots[i]
            if t["k"] == "ref" and r is not None:
                a = self.s.old(i)
                t = p.t(t["e"])
            out.append((a, t))
        return out


def effects(ctx, col):
    if not hasattr(col, "_eff"):
        out = []
        for f in mut_methods(ctx, col):
            s = ctx.summary(f, "column")
            if s.roots[0] is None:
                continue
            for o in s.rets:
                for st, res in open_ites(s, o):
                    out.append(Eff(col, f, s, st))
        col._eff = out
        # methods that only hand out children change nothing and are not writers
        col._writers = sorted(set(e.f.name for e in out if e.kind != "none"))
    return col._eff


def open_ites(s, o, limit=64):
    """split an exit partition until no leaf of self holds a gate"""
    from engine import Out
    work, out = [o], []
    while work:
        x = work.pop()
        t = s.eng.reduce(x.st, s.new(x, 0))
        g = None
        for y in walk(t):
            if y.op == "ite" and y.a[0].op != "int":
                # the gate must not sit under a map binder
                if not contains(y.a[0], lambda z: z.op in ("ix", "acc")):
                    g = y
                    break
        if g is None or len(out) + len(work) > limit:
            out.append((x, None))
            continue
        for st, v in s.eng.split(x.st.fork(), g.a[0]):
            work.append(Out(x.kind, x.val, st, x.info))
    return out


def use_effects(rep, ctx, col):
    for e in effects(ctx, col):
        rep.use(e.s)
    names = set(e.f.name for e in effects(ctx, col) if e.kind == "null")
    if "write_null" not in names:
        rep.ob("%s::write_null:present" % col.name, False, "no exit of write_null records a null")
    if not any(e.kind == "value" for e in effects(ctx, col)):
        rep.ob("%s:value-writer" % col.name, False, "no reachable method records a value")
    return effects(ctx, col)


def int_arg(t, ty, signed):
    """the argument as a 64-bit integer"""
    if ty["k"] != "int":
        return None
    return cast(t, ty["bits"], ty["signed"], 64, signed)


def expected(ctx, col, e):
    """stream kind -> expected appended parts, and the value counted, for a value write (None: judged by another rule)"""
    a = e.args()
    n = col.name
    if n == "Boolean":
        x = a[0][0]
        return {"DATA": [mk("el", x)]}, x
    if n == "Long":
        x = int_arg(a[0][0], a[0][1], True)
        return {"DATA": [mk("el", x)]}, x
    if n in ("Float", "Double"):
        x = a[0][0]
        w = 4 if n == "Float" else 8
        v = x if n == "Double" else mk("cast", "FloatToFloat", "f32", "f64", x)
        return {"DATA": [mk("sp", mk("fbytes", "le", w, x))]}, v
    if n == "Decimal":
        x, ty = a[0]
        ex = set()
        w = ty["bits"]
        y = x
        out = {mk("sp", mk("varint", "s", x))}
        for w2 in (64, 128):
            if w2 >= w:
                out.add(mk("sp", mk("varint", "s", cast(x, w, ty["signed"], w2, True))))
        sc = scale_leaf(ctx, col)
        sv = sc.get(e.s.old(0))
        st = ctx.p.t(sc.ty)
        return {"DATA": [out], "SECONDARY": [mk("el", cast(sv, st["bits"], st["signed"], 64, True))]}, cast(x, w, ty["signed"], 128, True)
    if n in ("String", "Binary"):
        x = a[0][0]
        return {"DATA": [mk("sp", x)], "LENGTH": [mk("el", slen(x))]}, x
    if n == "Timestamp":
        return {"DATA": [None], "SECONDARY": [None]}, None
    if n in ("List", "Map"):
        x = int_arg(a[0][0], a[0][1], False)
        return {"LENGTH": [mk("el", x)]}, mk("present")
    if n == "Union":
        x, ty = a[0]
        return {"DATA": [mk("el", cast(x, ty["bits"], ty["signed"], 8, False))]}, mk("present")
    if n == "Struct":
        return {}, mk("present")
    raise Anchor("no table entry for column %s" % n)


def scale_leaf(ctx, col):
    """the decimal column's scale: the leaf initialised from the second field of Schema::Decimal"""
    if not hasattr(col, "_scale"):
        s = ctx.summary(col.fn("new"), "column")
        col._scale = None
        for o in s.rets:
            for l in col.leaves("num"):
                v = l.get(o.val)
                if v.op == "fld" and v.a[2] == 1 and v.a[1] is not None and v.a[0].op == "sym":
                    col._scale = l
        if col._scale is None:
            raise Anchor("%s: no field holds the scale given in the schema" % col.adt)
    return col._scale


def match_parts(got, want):
    if got is None or len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if w is None:
            if g.op != "el":
                return False
        elif isinstance(w, set):
            if g not in w:
                return False
        elif g is not w:
            return False
    return True


# ------------------------------------------------------------------ C05 / C28
def summed_out(eng, st, lits):
    """do two or three of the inequalities of this state and of `lits` add up to one that cannot hold"""
    ge = []
    for c, v in list(st.facts.items()) + lits:
        while c.op == "not":
            c, v = c.a[0], not v
        if c.op == "neg":
            d = c.a[0]
            ge.append(d if not v else mathsub(I(-1), d, 64))
    for n in (2, 3):
        for cs in itertools.combinations(ge, n):
            t = I(0)
            for x in cs:
                t = mathsub(t, mathsub(I(0), x, 64), 64)
            b = eng.bounds(st, t)
            if b and b[1] < 0:
                return True
    return False


def too_many_variants(ctx, col, s, o):
    """does this exit need more than the 256 variants a union can have (C24: at-most-256, counters, variants-kept)"""
    for n in (slen(tagcounts(ctx, col).get(s.old(0))), slen(col.child_leaves()[0].get(s.old(0)))):
        few = [(neg(mathsub(I(256), n, 64)), False)]
        if not assume_all(s.eng, o.st.fork(), few) or summed_out(s.eng, o.st, few):
            return True
    return False


def rejects_tag(ctx, col, s, o):
    """does this panic of a union's writer reject a tag that names no variant"""
    if col.name != "Union" or s.f.argc < 2:
        return False
    if too_many_variants(ctx, col, s, o):
        return True
    a = s.arg(1)
    for n in (slen(tagcounts(ctx, col).get(s.old(0))), slen(col.child_leaves()[0].get(s.old(0)))):
        if s.eng.decide(o.st, neg(mathsub(a, n, 64))) is False:
            return True
    return False


def values_once(ctx, rep, content=True, only=None):
    for col in variants(ctx):
        if only and col.name not in only:
            continue
        rs = roles(ctx, col)
        for k, enc in [("PRESENT", "BooleanRLE")] + ORC[col.name]:
            got = ctx.p.t(rs[k].ty)["path"].split("::")[-1]
            rep.ob("%s:encoder:%s" % (col.name, k), got == enc, "%s stream of %s is a %s, the format requires %s" % (k, col.name, got, enc))
        effs = use_effects(rep, ctx, col)
        for f in mut_methods(ctx, col):
            if f.name in col._writers or f.name == "write_null":
                s = ctx.summary(f, "column")
                for o in s.panics:
                    rep.ob("%s::%s:accepts" % (col.name, f.name), rejects_tag(ctx, col, s, o), "refuses some value by a panic (%s): %s" % (o.info, pcs(o)), f)
        for e in effs:
            if e.kind == "none":
                if e.f.name in col._writers:
                    rep.ob("%s:ignored" % e.tag, False, "an exit of this writer records nothing", e.f)
                continue
            if e.kind == "other":
                rep.ob("%s:presence" % e.tag, False, "appends %s to the presence stream, expected exactly one bit" % (e.sfx["PRESENT"],), e.f)
                continue
            isnull = e.f.name == "write_null"
            rep.ob("%s:presence" % e.tag, (e.kind == "null") == isnull, "records a %s" % e.kind, e.f)
            if e.kind == "null":
                for k, x in e.sfx.items():
                    if k != "PRESENT":
                        rep.ob("%s:%s" % (e.tag, k), x == [], "a null adds %s to the %s stream" % (x, k), e.f)
                rep.ob("%s:stat" % e.tag, e.stat is not None and len(e.stat) == 1 and e.stat[0] is mk("el", NULL), "a null is counted as %s" % (e.stat,), e.f)
            else:
                want, v = expected(ctx, col, e)
                for k, _ in ORC[col.name]:
                    rep.ob("%s:%s" % (e.tag, k), match_parts(e.sfx[k], want[k]), "a value adds %s to the %s stream, expected %s" % (e.sfx[k], k, want[k]), e.f)
                if v is None:
                    good = e.stat is not None and len(e.stat) == 1 and e.stat[0].op == "el" and e.stat[0].a[0].op == "val"
                else:
                    good = e.stat is not None and len(e.stat) == 1 and e.stat[0] is mk("el", mk("val", v))
                rep.ob("%s:stat" % e.tag, good, "a value is counted as %s" % (e.stat,), e.f)
            for l in col.child_leaves():
                rep.ob("%s:child:%s" % (e.tag, l.name), e.new[l.name] is e.old[l.name], "writes to a child column", e.f)
            for l in col.leaves("stream"):
                if l not in rs.values():
                    rep.ob("%s:extra:%s" % (e.tag, l.name), e.new[l.name] is e.old[l.name], "appends to a stream that is never written out", e.f)


# ------------------------------------------------------------------ row groups
def pos_map(ctx, col, rep=None):
    """self position leaf -> stream leaf, entry leaf -> self position leaf, from the closing partitions"""
    if hasattr(col, "_pm"):
        return col._pm
    selfpos, entrypos, entrystat = {}, {}, None
    for e in effects(ctx, col):
        if not e.close:
            continue
        for l in col.leaves("position"):
            v = e.new[l.name]
            hits = [s for s in col.leaves("stream") if v is mk("pos", e.new[s.name])]
            if len(hits) == 1 and selfpos.get(l.name, hits[0]) is hits[0]:
                selfpos[l.name] = hits[0]
            else:
                selfpos[l.name] = None
        sx = suffix(e.new[col.entries.name], e.old[col.entries.name])
        if sx and len(sx) == 1 and sx[0].op == "el":
            for l in col.entry_leaves:
                v = l.get(sx[0].a[0])
                if l.kind == "position":
                    hit = [q for q in col.leaves("position") if v is e.old[q.name]]
                    if len(hit) == 1 and entrypos.get(l.name, hit[0]) is hit[0]:
                        entrypos[l.name] = hit[0]
                    else:
                        entrypos[l.name] = None
    if not selfpos or not entrypos:
        raise Anchor("%s: no writer ever closes a row group" % col.adt)
    col._pm = (selfpos, entrypos)
    return col._pm


def stride_of(ctx, col, e):
    """the configured row index stride as a 64-bit term"""
    c = e.old[col.config.name] if isinstance(e, Eff) else col.config.get(e)
    import r_config
    p = r_config.leaf_set_by(ctx, ctx.adt_ty("Config"), "with_row_index_stride")
    if p is None:
        raise Anchor("Config: what with_row_index_stride sets is not found")
    f = r_config.get(c, p)
    ty = config_type(ctx, "row_index_stride")
    setrng(f, *typerange(ty["bits"], ty["signed"]))
    return cast(f, ty["bits"], ty["signed"], 64, False)


def config_type(ctx, name):
    import r_config
    ty = ctx.adt_ty("Config")
    p = r_config.leaf_set_by(ctx, ty, "with_" + name)
    for q, lt_ in r_config.flat_leaves(ctx, ty):
        if q == p:
            return ctx.p.t(lt_)
    raise Anchor("Config: what with_%s sets is not found" % name)


def row_groups(ctx, rep, nested=True):
    for col in variants(ctx):
        effs = use_effects(rep, ctx, col)
        selfpos, entrypos = pos_map(ctx, col)
        el_stat = [l for l in col.entry_leaves if l.kind == "stats"]
        if len(el_stat) != 1:
            raise Anchor("%s: row index entry holds %d statistics" % (col.adt, len(el_stat)))
        for e in effs:
            if e.kind not in ("value", "null"):
                continue
            n1 = add64(nvals(e.rg), I(1))
            stride = stride_of(ctx, col, e)
            # row group invariant: fewer values than the stride before each write (stride >= 1)
            st = fresh_state()
            eng = e.s.eng
            feas = eng.assume(st, neg(mathsub(n1, stride, 64)), False) if False else assume_all(eng, st, [(neg(mathsub(stride, n1, 64)), False), (neg(mathsub(I(0), stride, 64)), True)])
            feas = feas and assume_all(eng, st, e.o.st.pc)
            if not feas:
                continue
            full = eng.decide(st, eqz(mathsub(n1, stride, 64)))
            ev = mk("el", NULL) if e.kind == "null" else None
            if e.close:
                rep.ob("%s:closes-when-full" % e.tag, full is True, "closes the row group although it is not known to hold exactly the stride (%s)" % pcs(e.o), e.f)
                rep.ob("%s:reset" % e.tag, e.rg2 is EMPTY, "row group statistics are %s after closing" % e.rg2, e.f)
                sx = suffix(e.new[col.entries.name], e.old[col.entries.name])
                ok1 = sx is not None and len(sx) == 1 and sx[0].op == "el"
                rep.ob("%s:entry" % e.tag, ok1, "closing appends %s to the row index" % (sx,), e.f)
                if ok1:
                    ent = sx[0].a[0]
                    got = bag(el_stat[0].get(ent))
                    want = list(bag(e.rg)) + list(e.stat or [])
                    rep.ob("%s:entry-stats" % e.tag, same_bag(got, sorted(want, key=lambda p: p.i)) and bool(e.stat), "entry statistics are %s" % (got,), e.f)
                    for l in col.entry_leaves:
                        if l.kind == "position":
                            hit = [q for q in col.leaves("position") if l.get(ent) is e.old[q.name]]
                            rep.ob("%s:entry-pos:%s" % (e.tag, l.name), len(hit) == 1, "entry position %s is not the recorded start of the group" % l.name, e.f)
                for l in col.leaves("position"):
                    rep.ob("%s:start:%s" % (e.tag, l.name), any(e.new[l.name] is mk("pos", e.new[s.name]) for s in col.leaves("stream")), "the next group's start %s is %s" % (l.name, short(e.new[l.name])), e.f)
                if nested and col.name in ("List", "Map", "Union"):
                    rep.ob("C06:nested:%s" % col.name, all(e.new[l.name] is not e.old[l.name] for l in col.child_leaves()), "closing a row group of the parent does not close the children's row group: their entries are groups of their own values, not of rows", e.f)
            else:
                rep.ob("%s:open-when-not-full" % e.tag, full is False, "keeps the row group open although it may already hold the stride (%s)" % pcs(e.o), e.f)
                rep.ob("%s:entries-unchanged" % e.tag, e.new[col.entries.name] is e.old[col.entries.name], "row index changed without closing the group", e.f)
                for l in col.leaves("position"):
                    rep.ob("%s:start-unchanged:%s" % (e.tag, l.name), e.new[l.name] is e.old[l.name], "start of the open group moved", e.f)
            if nested and col.name == "Struct" and e.kind == "null":
                rep.ob("C06:nested:Struct", all(e.new[l.name] is not e.old[l.name] for l in col.child_leaves()), "a null struct does not advance its children's row groups: after it their entries no longer start at multiples of the stride in rows", e.f)
            rep.ob("%s:config" % e.tag, e.new[col.config.name] is e.old[col.config.name], "configuration changed by a write", e.f)
        # start state
        for s, o, t in news(ctx, col, rep):
            rep.ob("%s::new:rg" % col.name, col.rg_stats.get(t) is EMPTY and col.entries.get(t) is EMPTY, "a new column starts inside a row group", s.f)
            for l in col.leaves("position"):
                rep.ob("%s::new:start:%s" % (col.name, l.name), l.get(t) is mk("pos", EMPTY), "first group does not start at the stream start: %s" % l.get(t), s.f)
        # last, incomplete group
        for s, o, new, E in index_cases(ctx, col, rep):
            me = s.old(0)
            rg, E0 = col.rg_stats.get(me), col.entries.get(me)
            eng = s.eng
            nonempty = eng.decide(o.st, eqz(nvals(rg)))
            if nonempty is None:
                for v in (True, False):
                    st = o.st.fork()
                    if eng.assume(st, eqz(nvals(rg)), v):
                        last_group(ctx, rep, col, s, E0, rg, E, v, el_stat[0], me)
            else:
                last_group(ctx, rep, col, s, E0, rg, E, nonempty, el_stat[0], me)


def last_group(ctx, rep, col, s, E0, rg, E, empty, el_stat, me):
    sx = suffix(E, E0)
    tag = "%s::write_index_streams" % col.name
    if empty:
        rep.ob(tag + ":no-empty-group", sx == [], "an empty last row group is listed (%s)" % (sx,), s.f)
        return
    good = sx is not None and len(sx) == 1 and sx[0].op == "el"
    rep.ob(tag + ":last-group", good, "the last, incomplete row group appends %s to the row index" % (sx,), s.f)
    if good:
        ent = sx[0].a[0]
        rep.ob(tag + ":last-group-stats", el_stat.get(ent) is rg, "statistics of the last group are %s" % el_stat.get(ent), s.f)
        for l in col.entry_leaves:
            if l.kind == "position":
                hit = [q for q in col.leaves("position") if l.get(ent) is q.get(me)]
                rep.ob(tag + ":last-group-pos:" + l.name, len(hit) == 1, "position %s of the last group is %s" % (l.name, l.get(ent)), s.f)


def fresh_state():
    from engine import State
    return State()


def assume_all(eng, st, lits):
    return all(eng.assume(st, c, v) for c, v in lits)


def pcs(o):
    return " and ".join(("" if v else "not ") + short(c, 120) for c, v in o.st.pc[-4:]) or "always"


def news(ctx, col, rep):
    s = ctx.summary(col.fn("new"), "column")
    rep.use(s)
    return [(s, o, o.val) for o in s.rets]


# ------------------------------------------------------------------ row index and data streams
def row_index_list(ctx, s, o):
    """the sequence of RowIndexEntry messages whose framed form is appended to out (None when not of that shape)"""
    sx = suffix(s.new(o, 1), s.old(1))
    if not sx:
        return None, sx
    p = sx[0]
    if p.op != "sp" or p.a[0].op != "fin":
        return None, sx
    q = p.a[0].a[0]
    if q.op == "seq" and len(q.a) == 1 and q.a[0].op == "sp":
        q = q.a[0].a[0]
    if q.op != "pb" or q.a[0].op != "agg" or not str(q.a[0].a[0]).endswith("RowIndex"):
        return None, sx
    m = q.a[0]
    ty = proto_ty(ctx, "RowIndex")
    ix = [i for i, f in enumerate(ctx.p.t(ty)["variants"][0]["fields"]) if f["name"] == "entry"]
    if len(ix) != 1:
        raise Anchor("RowIndex.entry not found")
    return fld(m, None, ix[0]), sx


def proto_ty(ctx, last):
    c = [i for i in ctx.p.raw["adts"] if ctx.p.types[i].get("path", "").endswith("orc_proto::" + last)]
    if len(c) != 1:
        raise Anchor("message %s not found" % last)
    return c[0]


def proto_field(ctx, msg, t, name):
    """value of a field of a message aggregate: ('unset',) / term, options and boxed submessages opened"""
    ty = proto_ty(ctx, msg)
    fs = ctx.p.t(ty)["variants"][0]["fields"]
    ix = [i for i, f in enumerate(fs) if f["name"].strip("_") == name or f["name"] == name]
    if len(ix) != 1:
        raise Anchor("%s.%s not found" % (msg, name))
    return fld(t, None, ix[0], len(fs))


def index_cases(ctx, col, rep):
    """(summary, ok partition, self after, list of index entries after the last group was closed)"""
    s = col.sum("write_index_streams", "BaseData")
    rep.use(s)
    out = []
    for o in s.oks():
        new = s.new(o, 0)
        lst, sx = row_index_list(ctx, s, o)
        E = None
        if lst is not None:
            ps = parts_of(lst)
            if len(ps) == 1 and ps[0].op == "mapcat":
                for x in walk(ps[0].a[1]):
                    if x.op == "at" and x.a[1] is mk("ix", ps[0].a[2]):
                        E = x.a[0]
                        break
                if E is not None and ps[0].a[0] is not slen(E):
                    rep.ob("%s::write_index_streams:all-entries" % col.name, False, "writes %s entries out of %s" % (ps[0].a[0], slen(E)), s.f)
            elif lst is EMPTY:
                E = EMPTY
        if E is None:
            rep.ob("%s::write_index_streams:shape" % col.name, False, "the row index written is %s" % short(mk("seq", *sx) if sx else EMPTY), s.f)
            continue
        out.append((s, o, new, E))
    if not s.oks():
        rep.ob("%s::write_index_streams:ok" % col.name, False, "no successful exit", s.f)
    return out


def entry_body(ctx, s, o, E):
    """per-entry body: term of the RowIndexEntry appended for index ix, and the binder"""
    lst, _ = row_index_list(ctx, s, o)
    p = parts_of(lst)[0]
    return p.a[1], mk("ix", p.a[2])


def by_hasnull(eng, st, H):
    """[(value of H, state)] consistent with st"""
    d = eng.decide(st, H)
    if d is not None:
        return [(d, st)]
    out = []
    for v in (True, False):
        s2 = st.fork()
        if eng.assume(s2, H, v):
            out.append((v, s2))
    return out


def open_term(eng, st, t, limit=64):
    """[(state, t without gates)]: t with every gate that is not bound by a map resolved by case split"""
    work, out = [(st, t)], []
    while work:
        st, t = work.pop()
        t = eng.reduce(st, t)
        g = None
        for y in walk(t):
            if y.op == "ite" and not contains(y.a[0], lambda z: z.op in ("ix", "acc")):
                g = y
                break
        if g is None or len(out) + len(work) > limit:
            out.append((st, t))
            continue
        for s2, _ in eng.split(st.fork(), g.a[0]):
            work.append((s2, t))
    return out


def single(body):
    ps = parts_of(body)
    return ps[0].a[0] if len(ps) == 1 and ps[0].op == "el" else None


def index_entries(ctx, rep, presence=True, order=True, stats=True):
    """C04/C07/C06: what one row index entry of each column contains"""
    for col in variants(ctx):
        tag = "%s::write_index_streams" % col.name
        selfpos, entrypos = pos_map(ctx, col)
        rs = roles(ctx, col)
        el_stat = [l for l in col.entry_leaves if l.kind == "stats"][0]
        for s, o, new, E in index_cases(ctx, col, rep):
            if E is EMPTY:
                continue
            body, ix = entry_body(ctx, s, o, E)
            eng = s.eng
            me = s.old(0)
            allv = cat(col.stripe_stats.get(me), col.rg_stats.get(me))
            for has, st in by_hasnull(eng, o.st, hasnull(allv)):
              for st, body1 in open_term(eng, st, body):
                b = single(body1)
                if b is None:
                    rep.ob(tag + ":entry", False, "entry is %s" % short(body1), s.f)
                    continue
                pos = eng.reduce(st, proto_field(ctx, "RowIndexEntry", b, "positions"))
                got = []
                bad = None
                for p in parts_of(pos):
                    if p.op == "sp" and p.a[0].op == "rec":
                        q = p.a[0].a[0]
                        hit = [l for l in col.entry_leaves if l.kind == "position" and l.get(mk("at", E, ix)) is q]
                        if len(hit) == 1 and entrypos.get(hit[0].name) is not None and selfpos.get(entrypos[hit[0].name].name) is not None:
                            sl = selfpos[entrypos[hit[0].name].name]
                            kind = [k for k, l in rs.items() if l is sl]
                            got.append(kind[0] if kind else "?")
                            continue
                    bad = p
                    got.append("?")
                rest = [k for k, _ in ORC[col.name]]
                if presence:
                    rep.ob(tag + ":present-positions", ("PRESENT" in got) == has and got.count("PRESENT") <= 1,
                           "with%s nulls in the stripe an entry lists positions of %s" % ("" if has else "out", got), s.f)
                if order:
                    want = (["PRESENT"] if has else []) + rest
                    rep.ob(tag + ":order", got == want, "with%s nulls an entry lists positions of %s, the format requires %s" % ("" if has else "out", got, want), s.f)
                if stats:
                    sv = proto_field(ctx, "RowIndexEntry", b, "statistics")
                    want = el_stat.get(mk("at", E, ix))
                    inner = [x for x in walk(sv) if x.op == "toproto"]
                    good = len(inner) == 1 and any(x is want for x in walk(inner[0]))
                    rep.ob(tag + ":entry-stats", good, "entry statistics are %s" % short(sv), s.f)


def stream_listing(ctx, rep, check_present=True, check_all=True):
    """C03/C04: what write_data_streams writes and lists"""
    for col in variants(ctx):
        s = col.sum("write_data_streams", "BaseData")
        rep.use(s)
        tag = "%s::write_data_streams" % col.name
        eng = s.eng
        me = s.old(0)
        rs = roles(ctx, col)
        ss = col.stripe_stats.get(me)
        if not s.oks():
            rep.ob(tag + ":ok", False, "no successful exit", s.f)
        for o in s.oks():
            for has, st in by_hasnull(eng, o.st, hasnull(ss)):
                outp = suffix(eng.reduce(st, s.new(o, 1)), s.old(1))
                infp = suffix(eng.reduce(st, s.new(o, 2)), s.old(2))
                if outp is None or infp is None:
                    rep.ob(tag + ":append", False, "bytes or stream entries written earlier were changed", s.f)
                    continue
                own = (["PRESENT"] if has else []) + [k for k, _ in ORC[col.name]]
                wl = [mk("sp", mk("fin", rs[k].get(me))) for k in own]
                if check_present:
                    P = mk("sp", mk("fin", rs["PRESENT"].get(me)))
                    rep.ob(tag + ":present", (P in outp) == has and any(p.op == "el" and ctx.kindname(ctx.info_fields(p.a[0])["kind"]) == "PRESENT" for p in infp) == has,
                           "with%s nulls in the stripe the present stream is %swritten" % ("" if has else "out", "" if P in outp else "not "), s.f)
                if not check_all:
                    continue
                kids_b, kids_i = child_parts(ctx, col, me, "dat")
                # the streams of one column may come in any order, as long as they are listed in that order
                n = len(own)
                if len(outp) >= n and sorted(p.i for p in outp[:n]) == sorted(p.i for p in wl):
                    own = [own[wl.index(p)] for p in outp[:n]]
                    wl = outp[:n]
                rep.ob(tag + ":bytes", outp == wl + kids_b, "with%s nulls writes %s, expected %s" % ("" if has else "out", short(mk("seq", *outp)), short(mk("seq", *(wl + kids_b)))), s.f)
                cid = col.cid.get(me)
                for p in infp[:len(infp) - len(kids_i)]:
                    if p.op == "el":
                        rep.ob(tag + ":number", ctx.info_fields(p.a[0])["column_id"] is cid, "lists a stream of column %s under the number %s" % (cid, short(ctx.info_fields(p.a[0])["column_id"])), s.f)
                good = len(infp) == len(own) + len(kids_i) and infp[len(own):] == kids_i
                if good:
                    for k, p in zip(own, infp):
                        if p.op != "el":
                            good = False
                            continue
                        fi = ctx.info_fields(p.a[0])
                        good &= ctx.kindname(fi["kind"]) == k and fi["column_id"] is cid and fi["length"] is slen(mk("fin", rs[k].get(me)))
                rep.ob(tag + ":listed", good, "with%s nulls lists %s, expected kinds %s of column %s with their exact lengths, then the children" % ("" if has else "out", short(mk("seq", *infp), 900), own, cid), s.f)
            pass
        # errors must not list more than was written
    # index streams
    if check_all:
        for col in variants(ctx):
            tag = "%s::write_index_streams" % col.name
            for s, o, new, E in index_cases(ctx, col, rep):
                me = s.old(0)
                outp, infp = suffix(s.new(o, 1), s.old(1)), suffix(s.new(o, 2), s.old(2))
                kb, ki = child_parts(ctx, col, me, "idx")
                rep.ob(tag + ":bytes", outp is not None and len(outp) == 1 + len(kb) and outp[1:] == kb, "writes %s" % short(mk("seq", *(outp or []))), s.f)
                for p in (infp or [])[:1]:
                    if p.op == "el":
                        num = ctx.info_fields(p.a[0])["column_id"]
                        rep.ob(tag + ":number", num is col.cid.get(me), "lists the index of column %s under the number %s" % (col.cid.get(me), short(num)), s.f)
                good = infp is not None and len(infp) == 1 + len(ki) and infp[1:] == ki and infp[0].op == "el"
                if good:
                    fi = ctx.info_fields(infp[0].a[0])
                    good = ctx.kindname(fi["kind"]) == "ROW_INDEX" and fi["column_id"] is col.cid.get(me) and fi["length"] is plen(outp[0])
                rep.ob(tag + ":listed", good, "lists %s, expected one ROW_INDEX entry with the exact length, then the children" % short(mk("seq", *(infp or [])), 900), s.f)
                # index must leave the data streams alone
                for l in col.leaves("stream"):
                    rep.ob(tag + ":stream-unchanged:" + l.name, l.get(new) is l.get(me), "writing the index changes stream %s" % l.name, s.f)


def child_parts(ctx, col, me, what):
    """bytes and stream entries of the children, in schema order"""
    b, i = [], []
    for l in col.child_leaves():
        t = l.get(me)
        if l.kind == "children":
            x = at(t, mk("ix", 1))
            b.append(mk("mapcat", slen(t), mk("child_" + what, x), 1))
            i.append(mk("mapcat", slen(t), mk("childinfo_" + what, x), 1))
        else:
            x = boxed(t) if l.kind == "boxchild" else t
            b.append(mk("sp", mk("child_" + what, x)))
            i.append(mk("sp", mk("childinfo_" + what, x)))
    return b, i


def boxed(t):
    return fld(t, "bx", 0, 1)


# ------------------------------------------------------------------ C08 (column part), C10 (kind)
STATKIND = {"Boolean": ["Boolean"], "Long": ["Long", "Date"], "Float": ["Double"], "Double": ["Double"], "Timestamp": ["Timestamp"],
            "Decimal": ["Decimal"], "String": ["String"], "Binary": ["Binary"],
            "Struct": ["Generic"], "List": ["Generic"], "Map": ["Generic"], "Union": ["Generic"]}


def stats_cover(ctx, rep):
    """after the index is written the stripe statistics hold every value once; a write keeps them in one of the two bags"""
    for col in variants(ctx):
        for e in use_effects(rep, ctx, col):
            if e.kind in ("value", "null"):
                good = e.stat is not None and len(e.stat) == 1 and e.stat[0].op == "el"
                rep.ob("%s:counted-once" % e.tag, good, "statistics of the stripe and of the open group together change by %s" % (e.stat,), e.f)
                if e.close:
                    # what leaves the open group must arrive in the stripe's
                    rep.ob("%s:handed-over" % e.tag, e.rg2 is EMPTY and same_bag(bag(e.ss2), sorted(bag(e.ss, e.rg) + list(e.stat or []), key=lambda p: p.i)), "on closing, the stripe statistics become %s" % short(e.ss2), e.f)
        s = col.sum("write_index_streams", "BaseData")
        rep.use(s)
        me = s.old(0)
        ss, rg = col.stripe_stats.get(me), col.rg_stats.get(me)
        tag = "%s::write_index_streams" % col.name
        for o in s.oks():
            new = s.new(o, 0)
            ss2, rg2 = col.stripe_stats.get(new), col.rg_stats.get(new)
            empty = s.eng.decide(o.st, eqz(nvals(rg)))
            a, b = bag(ss2), bag(ss, rg)
            if empty:
                drop = [p for p in b if not (p.op == "sp" and p.a[0] is rg)]
                good = same_bag(a, drop) or same_bag(a, b)
            else:
                good = same_bag(a, b)
            rep.ob(tag + ":stripe-stats", good, "after writing the index the stripe statistics are %s" % short(ss2), s.f)
            rep.ob(tag + ":group-handed-over", rg2 is EMPTY or (empty and rg2 is rg), "after writing the index the open group still holds %s" % short(rg2), s.f)
        s = col.sum("write_data_streams", "BaseData")
        for o in s.oks():
            rep.ob("%s::write_data_streams:stats-kept" % col.name, col.stripe_stats.get(s.new(o, 0)) is col.stripe_stats.get(s.old(0)), "writing the data changes the statistics", s.f)


def stats_listed(ctx, rep, kind=False):
    """statistics(): the column's own stripe statistics, once, then the children's, in schema order"""
    for col in variants(ctx):
        s = col.sum("statistics", "BaseData")
        rep.use(s)
        tag = "%s::statistics" % col.name
        me = s.old(0)
        n = 0
        for o in s.rets:
            for st, t in open_term(s.eng, o.st, s.new(o, 1)):
                n += 1
                sx = suffix(t, s.old(1))
                kids, _ = child_parts2(ctx, col, me, "stat")
                good = sx is not None and len(sx) == 1 + len(kids) and sx[1:] == kids and sx[0].op == "el"
                rep.ob(tag + ":own-then-children", good, "appends %s" % short(mk("seq", *(sx or []))), s.f)
                if good:
                    x = sx[0].a[0]
                    v = statvariant(ctx, x)
                    inner = fld(x, x.a[1] if x.op == "agg" else None, 0, 1)
                    # a wrapper type around the bag still holds exactly the bag
                    w = [y for y in walk(inner) if y is col.stripe_stats.get(me)]
                    rep.ob(tag + ":bag", len(w) == 1, "reports %s" % short(inner), s.f)
                    if kind:
                        rep.ob(tag + ":kind", v in STATKIND[col.name], "statistics of a %s column reported as %s" % (col.name, v), s.f)
                        if col.name == "Long":
                            date = schema_is(ctx, s.eng, st, [l.get(me) for l in col.leaves("schema")], "Date")
                            rep.ob(tag + ":date", date is not None and (v == "Date") == date, "a %s column reports its statistics as %s" % ("date" if date else "integer" if date is False else "date or integer", v), s.f)
            o = o
        rep.ob(tag + ":exits", n > 0, "no exit", s.f)
        # the same kind in row index entries
        if kind:
            for s, o, new, E in index_cases(ctx, col, rep):
                if E is EMPTY:
                    continue
                body, ix = entry_body(ctx, s, o, E)
                for st, b1 in open_term(s.eng, o.st, body):
                    b = single(b1)
                    if b is None:
                        rep.ob("%s::write_index_streams:entry" % col.name, False, "entry is %s" % short(b1), s.f)
                        continue
                    inner = [x for x in walk(proto_field(ctx, "RowIndexEntry", b, "statistics")) if x.op == "toproto"]
                    v = statvariant(ctx, inner[0].a[0]) if inner else None
                    rep.ob("%s::write_index_streams:kind" % col.name, v in STATKIND[col.name], "row index statistics of a %s column written as %s" % (col.name, v), s.f)
                    if col.name == "Long":
                        date = schema_is(ctx, s.eng, st, [l.get(s.old(0)) for l in col.leaves("schema")], "Date")
                        rep.ob("%s::write_index_streams:date" % col.name, date is not None and (v == "Date") == date, "row index statistics of a %s column written as %s" % ("date" if date else "integer", v), s.f)


def schema_is(ctx, eng, st, schemas, name):
    """does the partition know that the column's schema is this variant"""
    names = [v["name"] for v in ctx.p.t(ctx.adt_ty("Schema"))["variants"]]
    for x in schemas:
        d = mk("discr", x)
        r = eng.decide(st, eqint(d, I(names.index(name)), 64))
        if r is not None:
            return r
    return None


def statvariant(ctx, t):
    ty = ctx.p.t(ctx.adt_ty("Statistics"))
    if t.op == "agg" and isinstance(t.a[1], int) and str(t.a[0]).split("::")[-1] == "Statistics":
        return ty["variants"][t.a[1]]["name"]
    return None


def child_parts2(ctx, col, me, what):
    b = []
    for l in col.child_leaves():
        t = l.get(me)
        if l.kind == "children":
            b.append(mk("mapcat", slen(t), mk("child_" + what, at(t, mk("ix", 1))), 1))
        else:
            b.append(mk("sp", mk("child_" + what, boxed(t) if l.kind == "boxchild" else t)))
    return b, None


def direct_encodings(ctx, rep):
    """every column declares the encoding its streams are in (DIRECT: no dictionary, RLE version 1)"""
    kinds = [v["name"] for v in ctx.p.t(proto_ty(ctx, "ColumnEncoding_Kind"))["variants"]]
    for col in variants(ctx):
        s = col.sum("column_encodings", "BaseData")
        rep.use(s)
        tag = "%s::column_encodings" % col.name
        rep.ob(tag + ":exits", len(s.rets) > 0, "no exit", s.f)
        for o in s.rets:
            sx = suffix(s.new(o, 1), s.old(1))
            if not rep.ob(tag + ":own", bool(sx) and sx[0].op == "el", "appends %s" % short(mk("seq", *(sx or []))), s.f):
                continue
            for st, e in open_term(s.eng, o.st, sx[0].a[0]):
                k = proto_field(ctx, "ColumnEncoding", e, "kind")
                k = k.a[2] if k.op == "agg" and k.a[1] == 1 else None
                kn = kinds[k.a[1]] if k is not None and k.op == "agg" and isinstance(k.a[1], int) else None
                rep.ob(tag + ":direct", kn == "DIRECT", "declares %s" % (kn or "no encoding"), s.f)
                for extra in ("dictionarySize",):
                    v = proto_field(ctx, "ColumnEncoding", e, extra)
                    rep.ob(tag + ":no-" + extra, v.op == "agg" and v.a[1] == 0, "declares %s %s" % (extra, short(v)), s.f)


# ------------------------------------------------------------------ C12 (column part)
def preorder(ctx, rep):
    stats_listed(ctx, rep)
    schema = ctx.p.t(ctx.adt_ty("Schema"))
    enc_ty = proto_ty(ctx, "ColumnEncoding")
    for col in variants(ctx):
        # encodings
        s = col.sum("column_encodings", "BaseData")
        rep.use(s)
        me = s.old(0)
        tag = "%s::column_encodings" % col.name
        rep.ob(tag + ":exits", len(s.rets) > 0, "no exit", s.f)
        for o in s.rets:
            sx = suffix(s.new(o, 1), s.old(1))
            kids, _ = child_parts2(ctx, col, me, "enc")
            good = sx is not None and len(sx) == 1 + len(kids) and sx[1:] == kids and sx[0].op == "el"
            rep.ob(tag + ":own-then-children", good, "appends %s" % short(mk("seq", *(sx or []))), s.f)
        # panics of statistics/column_encodings must not be reachable with a consistent numbering
        for m in ("column_encodings", "statistics"):
            s2 = col.sum(m, "BaseData")
            for o in s2.panics:
                st = o.st
                ok1 = s2.eng.decide(st, eqz(mathsub(slen(s2.old(1)), wide(ctx, col.cid, s2.old(0)), 64)))
                rep.ob("%s::%s:panic" % (col.name, m), ok1 is False, "can panic although the list already holds exactly the columns before this one", s2.f)
        # the column number never changes
        cid = col.cid
        for e in effects(ctx, col):
            rep.ob("%s:column-id-kept" % e.tag, e.new[cid.name] is e.old[cid.name], "column number changes to %s" % e.new[cid.name], e.f)
        for m in ("write_index_streams", "write_data_streams"):
            s3 = col.sum(m, "BaseData")
            for o in s3.rets:
                rep.ob("%s::%s:column-id-kept" % (col.name, m), cid.get(s3.new(o, 0)) is cid.get(s3.old(0)), "column number changes", s3.f)
        # construction
        numbering_new(ctx, rep, col, schema)


def wide(ctx, leaf, t):
    ty = ctx.p.t(leaf.ty)
    return cast(leaf.get(t), ty["bits"], ty["signed"], 64, False)


def new_args(ctx, col, s):
    """roots of `new` by type: schema, config, column counter"""
    f = s.f
    r = {}
    for i in range(f.argc):
        t = ctx.p.t(f.locals[i + 1])
        e = ctx.p.t(t["e"]) if t["k"] == "ref" else t
        if e["k"] == "adt" and e["path"].split("::")[-1] == "Schema":
            r["schema"] = i
        elif e["k"] == "adt" and e["path"].split("::")[-1] == "Config":
            r["config"] = i
        elif e["k"] == "int" and t["k"] == "ref" and t["mut"]:
            r["cid"] = i
    if "config" not in r or "cid" not in r:
        raise Anchor("%s::new: no configuration or column counter parameter" % col.adt)
    return r


SCHEMA_OF = {"Struct": "Struct", "List": "List", "Map": "Map", "Union": "Union", "Decimal": "Decimal"}


def schema_children(ctx, col, sch):
    """child schema terms of a compound schema, as [(kind, term)]: 'one' or 'each' (with binder ix(1))"""
    ty = ctx.p.t(ctx.adt_ty("Schema"))
    vi = [i for i, v in enumerate(ty["variants"]) if v["name"] == SCHEMA_OF[col.name]][0]
    fs = ty["variants"][vi]["fields"]
    out = []
    for i, f in enumerate(fs):
        t = fld(sch, vi, i, len(fs))
        k = ctx.p.t(f["ty"])
        if k["k"] == "adt" and k["path"].endswith("boxed::Box"):
            out.append(("one", boxed(t)))
        elif k["k"] == "adt" and k["path"].endswith("vec::Vec"):
            ek = ctx.p.t(k["args"][0])
            if ek["k"] == "adt" and ek["path"].split("::")[-1] == "Schema":
                out.append(("each", t, lambda x: x))
            else:
                g = ctx.p.t(k["args"][0])["variants"][0]["fields"]
                j = [n for n, q in enumerate(g) if ctx.p.t(q["ty"]).get("path", "").split("::")[-1] == "Schema"][0]
                out.append(("each", t, lambda x, j=j, n=len(g): fld(x, None, j, n)))
    return out


def numbering_new(ctx, rep, col, schema):
    for s, o, t in news(ctx, col, rep):
        a = new_args(ctx, col, s)
        c0 = s.old(a["cid"])
        tag = "%s::new" % col.name
        rep.ob(tag + ":own-number", col.cid.get(t) is c0, "takes column number %s, the counter holds %s" % (col.cid.get(t), c0), s.f)
        nxt = add(c0, I(1), 32)
        if col.name in NESTED:
            sch = s.old(a["schema"])
            cfg = s.old(a["config"])
            kids = schema_children(ctx, col, sch)
            leaves = child_order(ctx, col, s, t, sch)
            rep.ob(tag + ":children", len(leaves) == len(kids), "%d children for %d child schemas" % (len(leaves), len(kids)), s.f)
            for l, k in zip(leaves, kids):
                v = l.get(t)
                if k[0] == "one":
                    want = mk("data", k[1], cfg, nxt)
                    got = boxed(v) if l.kind == "boxchild" else v
                    rep.ob(tag + ":child:" + l.name, got is want, "child %s is %s, expected %s" % (l.name, short(got), short(want)), s.f)
                    nc = mk("ncols", k[1])
                    nxt = add(nxt, nc, 32)
                else:
                    ix = None
                    ps = parts_of(v)
                    good = len(ps) == 1 and ps[0].op == "mapcat" and ps[0].a[0] is slen(k[1])
                    if good:
                        b = single(ps[0].a[1])
                        ix = mk("ix", ps[0].a[2])
                        good = b is not None and b.op == "data" and b.a[0] is k[2](at(k[1], ix)) and b.a[1] is cfg
                        # number: counter + 1 + columns of the earlier siblings
                        if good:
                            before = mk("sum", ix, mk("ncols", k[2](at(k[1], mk("ix", 1)))), 1)
                            good = b.a[2] is add(nxt, before, 32)
                    rep.ob(tag + ":children-in-order:" + l.name, good, "children are %s" % short(v), s.f)
                    nxt = add(nxt, mk("sum", slen(k[1]), mk("ncols", k[2](at(k[1], mk("ix", 1)))), 1), 32)
        got = s.new(o, a["cid"])
        rep.ob(tag + ":counter", got is nxt, "leaves the counter at %s, expected %s" % (got, nxt), s.f)


def child_order(ctx, col, s, t, sch):
    """child leaves in schema order: for a map the leaf built from the key schema first"""
    ls = col.child_leaves()
    if len(ls) == 1:
        return ls
    kids = schema_children(ctx, col, sch)
    out = []
    for k in kids:
        for l in ls:
            v = l.get(t)
            v = boxed(v) if l.kind == "boxchild" else v
            if v.op == "data" and v.a[0] is k[1]:
                out.append(l)
    return out


# ------------------------------------------------------------------ C11 (column part)
def row_counts(ctx, rep):
    for col in variants(ctx):
        s = col.sum("verify_row_count", "BaseData")
        rep.use(s)
        tag = "%s::verify_row_count" % col.name
        me = s.old(0)
        d = s.arg(1)
        ss, rg = col.stripe_stats.get(me), col.rg_stats.get(me)
        tot = add64(nvals(ss), nvals(rg))
        want = eqz(mathsub(d, tot, 64))
        rep.ob(tag + ":exits", len(s.rets) > 0, "never returns", s.f)
        for o in s.rets:
            rep.ob(tag + ":own", s.eng.decide(o.st, want) is True, "returns without having compared the expected count with all values held (%s)" % pcs(o), s.f)
        for o in s.panics:
            if len([1 for c, v in o.st.pc]) == 0:
                continue
            rep.ob(tag + ":panic-only-on-mismatch", s.eng.decide(o.st, want) is False, "can panic although the count is right (%s)" % pcs(o), s.f)
        if col.name not in NESTED:
            continue
        pres = add64(npres(ss), npres(rg))
        for o in s.rets:
            g = o.st.mem.get(("G", "verify"), EMPTY)
            ps = parts_of(g) if g.op == "seq" else parts_of(g)
            want_l = []
            counter = [l for l in col.leaves("num") if l is not col.cid]
            vec = [l for l in col.leaves("vec")]
            for l in col.child_leaves():
                t = l.get(me)
                if col.name == "Struct":
                    want_l.append(("each", t, lambda i: pres))
                elif col.name == "Union":
                    want_l.append(("each", t, None))
                else:
                    want_l.append(("one", boxed(t) if l.kind == "boxchild" else t, lentotal(ctx, col).get(me)))
            good = len(ps) == len(want_l)
            if good:
                left = list(want_l)
                for p in ps:
                    hit = None
                    for w in left:
                        if w[0] == "one" and p.op == "el" and p.a[0] is mk("verify", w[1], w[2]):
                            hit = w
                        elif w[0] == "each" and p.op == "mapcat" and p.a[0] is slen(w[1]):
                            b = single(p.a[1])
                            ix = mk("ix", p.a[2])
                            if b is not None and b.op == "verify" and b.a[0] is at(w[1], ix):
                                n = pres if w[2] else at(tagcounts(ctx, col).get(me), ix)
                                if b.a[1] is n:
                                    hit = w
                        elif w[0] == "each" and p.op == "mapcat" and w[2] is None and p.a[0] is slen(tagcounts(ctx, col).get(me)):
                            b = single(p.a[1])
                            ix = mk("ix", p.a[2])
                            if b is not None and b.op == "verify" and b.a[0] is at(w[1], ix) and b.a[1] is at(tagcounts(ctx, col).get(me), ix):
                                hit = w
                    if hit is None:
                        good = False
                        break
                    left.remove(hit)
            rep.ob(tag + ":children", good, "verifies %s" % short(g), s.f)
        # the expected child counts are kept up to date
        for e in use_effects(rep, ctx, col):
            if e.kind not in ("value", "null"):
                continue
            if col.name in ("List", "Map"):
                l = lentotal(ctx, col)
                want = e.old[l.name]
                if e.kind == "value":
                    a, ty = e.args()[0]
                    want = add64(want, int_arg(a, ty, False))
                rep.ob("%s:child-total" % e.tag, e.new[l.name] is want, "expected number of child values becomes %s" % e.new[l.name], e.f)
            if col.name == "Union":
                l = tagcounts(ctx, col)
                want = e.old[l.name]
                if e.kind == "value":
                    a, ty = e.args()[0]
                    a = cast(a, ty["bits"], ty["signed"], 64, False)
                    want = store(want, a, add64(at(want, a), I(1)))
                rep.ob("%s:tag-counts" % e.tag, e.new[l.name] is want, "tag counts become %s" % e.new[l.name], e.f)
        for s2, o, t in news(ctx, col, rep):
            if col.name in ("List", "Map"):
                rep.ob("%s::new:child-total" % col.name, lentotal(ctx, col).get(t) is I(0), "starts with %s" % lentotal(ctx, col).get(t), s2.f)
            if col.name == "Union":
                v = tagcounts(ctx, col).get(t)
                n = slen(col.child_leaves()[0].get(t))
                zero = [p for p in parts_of(v)]
                good = slen(v) is n and all((p.op == "rp" and p.a[0] is I(0)) or (p.op == "mapcat" and single(p.a[1]) is I(0)) or (p.op == "el" and p.a[0] is I(0)) for p in zero)
                rep.ob("Union::new:tag-counts", good, "starts with %s" % v, s2.f)
        for m in ("write_index_streams", "write_data_streams"):
            pass


def lentotal(ctx, col):
    """counter of child values: the number leaf that a value write changes"""
    if not hasattr(col, "_lt"):
        c = set()
        for e in effects(ctx, col):
            if e.kind == "value":
                for l in col.leaves("num"):
                    if e.new[l.name] is not e.old[l.name]:
                        c.add(l)
        if len(c) != 1:
            raise Anchor("%s: no single counter of expected child values" % col.adt)
        col._lt = c.pop()
    return col._lt


def tagcounts(ctx, col):
    if not hasattr(col, "_tc"):
        c = set()
        for e in effects(ctx, col):
            if e.kind == "value":
                for l in col.leaves("vec"):
                    if e.new[l.name] is not e.old[l.name]:
                        c.add(l)
        if len(c) != 1:
            raise Anchor("%s: no single list of tag counts" % col.adt)
        col._tc = c.pop()
    return col._tc


# ------------------------------------------------------------------ C15 (column part)
def config_used(ctx, rep):
    """every encoder, stream and child a column creates uses the column's own configuration"""
    for col in variants(ctx):
        for s, o, t in news(ctx, col, rep):
            a = new_args(ctx, col, s)
            cfg = s.old(a["config"])
            rep.ob("%s::new:config" % col.name, col.config.get(t) is cfg, "keeps %s" % short(col.config.get(t)), s.f)
            comp = config_field(ctx, cfg, "compression")
            n = codec_uses(rep, "%s::new" % col.name, s, o, comp)
            rep.ob("%s::new:codecs" % col.name, n == len(col.leaves("stream")), "%d streams created for %d streams of the column" % (n, len(col.leaves("stream"))), s.f)
        s = col.sum("write_index_streams", "BaseData")
        for o in s.oks():
            comp = config_field(ctx, col.config.get(s.old(0)), "compression")
            n = codec_uses(rep, "%s::write_index_streams" % col.name, s, o, comp)
            rep.ob("%s::write_index_streams:codec" % col.name, n == 1, "%d streams created for the row index" % n, s.f)
        s = col.sum("write_data_streams", "BaseData")
        for o in s.oks():
            comp = config_field(ctx, col.config.get(s.old(0)), "compression")
            codec_uses(rep, "%s::write_data_streams" % col.name, s, o, comp)
        for e in effects(ctx, col):
            rep.ob("%s:config" % e.tag, e.new[col.config.name] is e.old[col.config.name], "configuration changed by a write", e.f)


def config_field(ctx, cfg, name):
    """the configured value: the field the public setter of that name stores its argument in"""
    import r_config
    ty = ctx.adt_ty("Config")
    p = r_config.leaf_set_by(ctx, ty, "with_" + name)
    if p is not None:
        v = r_config.get(cfg, p)
        for f in r_config.setters(ctx, ty):
            # kept in a wider field than it is given in: as it was given
            a, b = ctx.p.t(f.locals[2]), config_type(ctx, name)
            if f.name == "with_" + name and a["k"] == "int" == b["k"] and a["bits"] < b["bits"]:
                v = cast(v, b["bits"], b["signed"], a["bits"], a["signed"])
        return v
    fs = ctx.p.t(ty)["variants"][0]["fields"]
    ix = [i for i, f in enumerate(fs) if f["name"] == name]
    if len(ix) != 1:
        # a setting made of several fields: the whole field all of whose leaves come from the argument
        whole = r_config.whole_set_by(ctx, ty, "with_" + name)
        if whole is None:
            raise Anchor("Config: what with_%s sets is not found" % name)
        ix = [whole]
    return fld(cfg, None, ix[0], len(fs))


def codec_uses(rep, tag, s, o, comp):
    g = o.st.mem.get(("G", "new"), EMPTY)
    n = 0
    for p in parts_of(g):
        if p.op == "sp" and p.a[0].op == "seq" and not p.a[0].a:
            continue
        n += 1
        good = p.op == "el" and p.a[0].op == "new" and len(p.a[0].a) == 2 and p.a[0].a[1] is comp
        rep.ob(tag + ":codec", good, "creates %s, expected the configured compression %s" % (short(p), comp), s.f)
    return n


# ------------------------------------------------------------------ C22 (column part)
def sizes(ctx, rep):
    for col in variants(ctx):
        s = col.sum("estimated_size", "BaseData")
        rep.use(s)
        me = s.old(0)
        want = I(0)
        for l in col.leaves("stream"):
            want = add64(want, mk("ret", "estimated_size", l.get(me)))
        for l in col.child_leaves():
            t = l.get(me)
            if l.kind == "children":
                want = add64(want, mk("sum", slen(t), mk("ret", "estimated_size", at(t, mk("ix", 1))), 1))
            else:
                want = add64(want, mk("ret", "estimated_size", boxed(t) if l.kind == "boxchild" else t))
        rep.ob("%s::estimated_size:exits" % col.name, len(s.rets) > 0 and not s.panics, "has %d exits and %d panics" % (len(s.rets), len(s.panics)), s.f)
        for o in s.rets:
            rep.ob("%s::estimated_size" % col.name, o.val is want, "is %s, expected the sum over every stream and child: %s" % (short(o.val), short(want)), s.f)


# ------------------------------------------------------------------ C23 (column part)
def clean_start(ctx, rep):
    for col in variants(ctx):
        ns = news(ctx, col, rep)
        rep.ob("%s::new:exits" % col.name, len(ns) > 0, "no exit", ns[0][0].f if ns else None)
        for s, o, t in ns:
            for l in col.leaves():
                v = l.get(t)
                tag = "%s::new:%s" % (col.name, l.name)
                if l.kind in ("stream", "stats", "entries"):
                    rep.ob(tag, v is EMPTY, "a fresh column starts with %s" % short(v), s.f)
                elif l.kind == "position":
                    rep.ob(tag, v is mk("pos", EMPTY), "a fresh column starts at %s" % short(v), s.f)


# ------------------------------------------------------------------ C24
def union_tags(ctx, rep):
    col = [c for c in variants(ctx) if c.name == "Union"][0]
    effs = use_effects(rep, ctx, col)
    tags = roles(ctx, col)["DATA"]
    kids = col.child_leaves()[0]
    s0, o0, t0 = news(ctx, col, rep)[0]
    n = 0
    for e in effs:
        if e.kind != "value":
            continue
        n += 1
        a, ty = e.args()[0]
        a64 = cast(a, ty["bits"], ty["signed"], 64, False)
        cnt = slen(e.old[tagcounts(ctx, col).name])
        bound = [slen(e.old[kids.name]), cnt]
        good = any(e.s.eng.decide(e.o.st, neg(mathsub(a64, b, 64))) is True for b in bound)
        rep.ob("%s:in-range" % e.tag, good, "records a tag without knowing it is below the number of variants (%s)" % pcs(e.o), e.f)
        rep.ob("%s:tag" % e.tag, match_parts(e.sfx["DATA"], [mk("el", cast(a, ty["bits"], ty["signed"], 8, False))]), "records %s" % (e.sfx["DATA"],), e.f)
    rep.ob("Union:writers", n > 0, "no writer found")
    for f in mut_methods(ctx, col):
        s = ctx.summary(f, "column")
        for o in s.panics:
            if too_many_variants(ctx, col, s, o):
                continue
            rep.ob("%s::%s:panic-clean" % (col.name, f.name), s.new(o, 0) is s.old(0), "part of the value is recorded before the tag is rejected: %s" % short(s.new(o, 0)), f)
            a = s.arg(1) if f.argc > 1 else None
            if a is not None and f.name in col._writers:
                cnt = slen(tagcounts(ctx, col).get(s.old(0)))
                k = slen(kids.get(s.old(0)))
                dec = [s.eng.decide(o.st, neg(mathsub(a, b, 64))) for b in (cnt, k)]
                rep.ob("%s::%s:panic-only-out-of-range" % (col.name, f.name), False in dec, "rejects a tag that names a variant (%s)" % pcs(o), f)
    # as many counters as variants, at most 256 of them
    for s, o, t in news(ctx, col, rep):
        k, c = slen(kids.get(t)), slen(tagcounts(ctx, col).get(t))
        rep.ob("Union::new:counters", k is c, "%s counters for %s variants" % (c, k), s.f)
        rep.ob("Union::new:at-most-256", s.eng.decide(o.st, neg(mathsub(I(256), k, 64))) is False, "a union with more than 256 variants is accepted (%s)" % pcs(o), s.f)
        b = s.eng.decide(o.st, neg(mathsub(I(255), k, 64)))
    for s in [ctx.summary(col.fn("new"), "column")]:
        for o in s.panics:
            a = new_args(ctx, col, s)
            sch = s.old(a["schema"])
            ty = ctx.p.t(ctx.adt_ty("Schema"))
            names = [v["name"] for v in ty["variants"]]
            isun = s.eng.decide(o.st, eqint(mk("discr", sch), I(names.index("Union")), 64))
            k = schema_children(ctx, col, sch)[0]
            many = s.eng.decide(o.st, neg(mathsub(I(256), slen(k[1]), 64)))
            rep.ob("Union::new:panic-only-too-many", isun is False or many is True, "rejects a union schema with at most 256 variants (%s)" % pcs(o), s.f)
    for e in effs:
        l = kids
        rep.ob("%s:variants-kept" % e.tag, e.new[l.name] is e.old[l.name] and slen(e.new[tagcounts(ctx, col).name]) is slen(e.old[tagcounts(ctx, col).name]), "number of variants changes", e.f)
