"""Rules of the statistics objects: what they count, their bounds and sums, and the messages they are written as."""
from terms import *
from orc import *
import layers
from layers import is_stat
from r_writer import open_term

BASE = "BaseStatistics"


class Stat:
    """one statistics type: its methods' summaries over its own fields"""

    def __init__(self, ctx, ty):
        self.ctx, self.ty = ctx, ty
        t = ctx.p.t(ty)
        self.adt = t["path"]
        self.name = self.adt.split("::")[-1]
        self.fields = t["variants"][0]["fields"]
        self.ix = {f["name"]: i for i, f in enumerate(self.fields)}

    def fn(self, name):
        p = self.ctx.p
        f = p.method(self.adt, name, None) or p.method(self.adt, name, BASE)
        if f is None:
            # a provided method of the trait: its instance for this type
            c = [g for g in p.fns if g and g.local and g.name == name and g.path.endswith("::%s::%s" % (BASE, name)) and g.argc and p.t(g.locals[1])["k"] == "ref" and p.t(g.locals[1])["e"] == self.ty]
            f = c[0] if len(c) == 1 else None
        return f

    def sum(self, name):
        f = self.fn(name)
        if f is None:
            raise Anchor("%s::%s not found" % (self.name, name))
        return self.ctx.summary(f, None)

    def get(self, t, i):
        return fld(t, None, i, len(self.fields))

    def acc(self, name, state):
        """the value an accessor reports in a given state"""
        s = self.sum(name)
        if len(s.rets) != 1 or s.panics:
            # one partition is all the arithmetic accessors need
            raise Anchor("%s::%s is not a single expression" % (self.name, name))
        return subst(s.rets[0].val, {s.old(0): state})

    def role(self, i):
        """what a field is for, from the public name its users read it by"""
        n = self.fields[i]["name"]
        t = self.ctx.p.t(self.fields[i]["ty"])
        opt = t["k"] == "adt" and t["path"].endswith("Option")
        if opt and n.startswith("min"):
            return "min"
        if opt and n.startswith("max"):
            return "max"
        if n == "sum_lengths":
            return "lengths"
        if n.startswith("sum"):
            return "optsum" if opt else "sum"
        if n in ("num_true", "num_false"):
            return n
        return None

    def payload(self, i):
        t = self.ctx.p.t(self.fields[i]["ty"])
        return t["args"][0] if t["k"] == "adt" and t["path"].endswith("Option") else self.fields[i]["ty"]


def stat_types(ctx):
    out = []
    for i in ctx.p.raw["adts"]:
        t = ctx.p.types[i]
        p = t.get("path", "")
        if is_stat(p.split("::")[-1]) and "::statistics::" in p and "orc_proto" not in p and t["kind"] == "struct":
            out.append(Stat(ctx, i))
    return out


def open_all(s, o):
    return open_term(s.eng, o.st, s.new(o, 0))


def le(eng, st, pt, a, b):
    """a <= b known on the partition; for floats: known in the absence of NaN"""
    if a is b:
        return True
    ii = eng.intinfo(pt) if pt is not None else None
    if ii:
        return eng.decide(st, lt(b, a, *ii)) is False
    k = eng.ty(pt)["k"]
    F = st.facts
    if k == "float":
        return F.get(mk("flt", b, a)) is False or F.get(mk("flt", a, b)) is True or F.get(mk("fle", a, b)) is True or F.get(mk("fle", b, a)) is False
    for x, y, ops in ((a, b, {"Lt": True, "Le": True, "Gt": False, "Ge": False}), (b, a, {"Gt": True, "Ge": True, "Lt": False, "Le": False})):
        for op, v in ops.items():
            if F.get(mk("bin2", op, x, y)) is v:
                return True
    return False


def isopt(eng, st, t):
    """True: Some, False: None, None: unknown"""
    if t.op == "agg":
        return t.a[1] == 1
    d = mk("discr", t)
    one, zero = eng.decide(st, eqint(d, I(1), 64)), eng.decide(st, eqint(d, I(0), 64))
    if one is True or zero is False:
        return True
    if zero is True or one is False:
        return False
    return None


def pay(t):
    return fld(t, 1, 0, 1)


def pcs(st, n=10):
    return " ".join("%s%s;" % ("" if v else "not ", short(c, 90)) for c, v in st.pc[:n])


def statistics(ctx, rep):
    types = stat_types(ctx)
    rep.ob("types", len(types) >= 8, "only %d statistics types" % len(types))
    for t in types:
        stat_type(ctx, rep, t)
    enum_dispatch(ctx, rep)


def null_flag(x, V, P):
    """x says that not every value is present (the counts start equal, grow together or V alone, and merge by addition: V >= P)"""
    d = sub64(V, P)
    return x is notb(eqz(d)) or x in (neg(sub64(P, V)), notb(neg(sub64(d, I(1)))), mk("ult", 64, P, V), lt(P, V, 64, False))


def agree(eng, st, a, b):
    """both options known or both not: True; decided apart: False"""
    x, y = isopt(eng, st, a), isopt(eng, st, b)
    if x is not None and y is not None:
        return x is y
    if x is not None or y is not None:
        # what one is decides the other
        have, t = (x, b) if x is not None else (y, a)
        return eng.assume(st, eqint(mk("discr", t), I(1), 64), have)
    return None


def together(t):
    """minimum and maximum are known together: in a new object, after update and after merge (given the same of both)"""
    mm = [i for r in ("min", "max") for i in range(len(t.fields)) if t.role(i) == r]
    if len(mm) != 2:
        return None
    lo, hi = mm
    for name in ("new", "update", "update_null", "merge"):
        s = t.sum(name)
        for o in s.rets:
            for st, v in open_term(s.eng, o.st, o.val) if name == "new" else open_all(s, o):
                olds = [] if name == "new" else [s.old(0)] + ([s.old(1)] if name == "merge" else [])
                if any(agree(s.eng, st, t.get(q, lo), t.get(q, hi)) is False for q in olds):
                    continue
                x, y = isopt(s.eng, st, t.get(v, lo)), isopt(s.eng, st, t.get(v, hi))
                if not (x is y is not None or any(t.get(v, lo) is t.get(q, lo) and t.get(v, hi) is t.get(q, hi) for q in olds)):
                    return None
    return mm


def stat_type(ctx, rep, t):
    tag = t.name
    upd = t.sum("update")
    new, nul, mer = t.sum("new"), t.sum("update_null"), t.sum("merge")
    for s in (upd, new, nul, mer, t.sum("num_values"), t.sum("num_present")):
        rep.use(s)
    old = upd.old(0)
    V, P = (lambda x: t.acc("num_values", x)), (lambda x: t.acc("num_present", x))
    hn = t.fn("has_null")
    if hn is not None:
        H = t.sum("has_null")
        for o in H.rets:
            rep.ob(tag + ":has-null", null_flag(o.val, V(H.old(0)), P(H.old(0))), "has_null is %s" % short(o.val), hn)
    for n, f in (("num_values", V), ("num_present", P)):
        if n in t.ix:
            rep.ob(tag + ":" + n, f(old) is t.get(old, t.ix[n]), "%s() is not the field %s" % (n, n), t.fn(n))
    roles = {i: t.role(i) for i in range(len(t.fields)) if t.role(i)}
    # ---- new
    for o in new.rets:
        for st, v in open_term(new.eng, o.st, o.val):
            rep.ob(tag + ":new:count", V(v) is I(0) and P(v) is I(0), "a fresh object counts %s values, %s present" % (short(V(v)), short(P(v))), new.f)
            for i, r in roles.items():
                x = t.get(v, i)
                pt = t.payload(i)
                zero = (x.op == "float" and x.a[0] == 0) if ctx.p.t(pt)["k"] == "float" else x is I(0)
                good = isopt(new.eng, st, x) is False if r in ("min", "max") else (isopt(new.eng, st, x) is True and pay(x) is I(0)) if r == "optsum" else zero
                rep.ob("%s:new:%s" % (tag, t.fields[i]["name"]), good, "starts as %s" % short(x), new.f)
    if new.panics:
        rep.ob(tag + ":new:panic", False, "can panic", new.f)
    # ---- null
    for o in nul.rets:
        for st, v in open_all(nul, o):
            rep.ob(tag + ":null:count", V(v) is add64(V(old), I(1)) and P(v) is P(old), "a null changes the counts to %s and %s" % (short(V(v)), short(P(v))), nul.f)
            for i in roles:
                rep.ob("%s:null:%s" % (tag, t.fields[i]["name"]), t.get(v, i) is t.get(old, i), "a null changes it to %s" % short(t.get(v, i)), nul.f)
    # ---- update
    args = [upd.old(i) if upd.roots[i] is not None else upd.arg(i) for i in range(1, upd.f.argc)]
    n = 0
    for o in upd.rets:
        for st, v in open_all(upd, o):
            n += 1
            rep.ob(tag + ":update:count", V(v) is add64(V(old), I(1)) and P(v) is add64(P(old), I(1)), "a value changes the counts to %s and %s" % (short(V(v)), short(P(v))), upd.f)
            for i, r in roles.items():
                x = args[0] if args else None
                if x is None:
                    rep.ob("%s:update:%s" % (tag, t.fields[i]["name"]), False, "update takes no value", upd.f)
                    continue
                field(rep, upd, st, t, i, r, t.get(old, i), t.get(v, i), True, x, "%s:update" % tag)
    rep.ob(tag + ":update:paths", n > 0 and not upd.panics, "update never returns" if not n else "update can panic: %s" % (upd.panics[0].info,) if upd.panics else "", upd.f)
    # ---- merge
    me, rh = mer.old(0), mer.old(1)
    n = 0
    for o in mer.rets:
        for st, v in open_all(mer, o):
            n += 1
            rep.ob(tag + ":merge:count", V(v) is add64(V(me), V(rh)) and P(v) is add64(P(me), P(rh)), "merging changes the counts to %s and %s" % (short(V(v)), short(P(v))), mer.f)
            for i, r in roles.items():
                field(rep, mer, st, t, i, r, t.get(me, i), t.get(v, i), False, t.get(rh, i), "%s:merge" % tag)
    rep.ob(tag + ":merge:paths", n > 0 and not mer.panics, "merge can panic" if mer.panics else "merge never returns", mer.f)


def field(rep, s, st, t, i, r, old, new, single, x, tag):
    """the new value of one field, given its old one and what was recorded (a value, or another object's field)"""
    eng = s.eng
    key = "%s:%s" % (tag, t.fields[i]["name"])
    pt = t.payload(i)
    say = lambda m: rep.ob(key, False, m + " (%s)" % pcs(st), s.f)
    if r in ("min", "max"):
        val = x if single else pay(x)
        if not single:
            xs = isopt(eng, st, x)
            if xs is False:
                return rep.ob(key, new is old or (isopt(eng, st, old) is False and isopt(eng, st, new) is False), "merging nothing changes it to %s (%s)" % (short(new), pcs(st)), s.f)
        rel = (lambda a, b: le(eng, st, pt, a, b)) if r == "min" else (lambda a, b: le(eng, st, pt, b, a))
        os = isopt(eng, st, old)
        if new is old or (os is True and isopt(eng, st, new) is True and pay(new) is pay(old)):
            if not single and xs is None:
                # nothing known about the other side: keeping is right only when it cannot matter
                return say("is kept although the other object's may be %s" % ("smaller" if r == "min" else "larger"))
            if os is not True:
                return say("is kept although there may be none yet")
            return rep.ob(key, rel(pay(old), val), "is kept although the new one may be %s (%s)" % ("smaller" if r == "min" else "larger", pcs(st)), s.f)
        if isopt(eng, st, new) is True and pay(new) is val or (not single and new is x):
            if not single and xs is not True:
                if os is False:
                    return rep.ob(key, True)
                return say("is replaced although the other object may have none")
            if os is False:
                return rep.ob(key, True)
            if os is None:
                return say("is replaced whatever it was")
            return rep.ob(key, rel(val, pay(old)), "is replaced although the new one may be %s (%s)" % ("larger" if r == "min" else "smaller", pcs(st)), s.f)
        return say("becomes %s" % short(new))
    if r == "optsum":
        val = x if single else pay(x)
        w, sg = eng.intinfo(pt)
        have = isopt(eng, st, old) is True and (single or isopt(eng, st, x) is True)
        lost = isopt(eng, st, old) is False or (not single and isopt(eng, st, x) is False)
        no = isopt(eng, st, new)
        if no is True:
            if not have:
                return say("is present although an overflow may have lost it")
            fits = [st.facts.get(mk("nofl", "add", w, sg, a, b)) for a, b in ((pay(old), val), (val, pay(old)))]
            return rep.ob(key, pay(new) is add(pay(old), val, w, sg) and True in fits, "becomes %s, %s (%s)" % (short(pay(new)), "not known not to have overflowed" if True not in fits else "not the sum", pcs(st)), s.f)
        if no is False:
            if lost:
                return rep.ob(key, True)
            fits = [st.facts.get(mk("nofl", "add", w, sg, a, b)) for a, b in ((pay(old), val), (val, pay(old)))]
            return rep.ob(key, False in fits, "is dropped without an overflow (%s)" % pcs(st), s.f)
        if new is old and lost:
            # kept as it was: right only when it was lost itself
            return rep.ob(key, isopt(eng, st, old) is False, "keeps what it has although the sum merged in is lost (%s)" % pcs(st), s.f)
        return say("becomes %s" % short(new))
    if r == "sum":
        if ctx_float(eng, pt):
            good = new.op == "fop" and new.a[0] == "Add" and set(new.a[1:]) == {old, x} or (new.op == "fop" and new.a[0] == "Add" and len(new.a) == 3 and old is x)
        else:
            w, sg = eng.intinfo(pt)
            good = new is add(old, x, w, sg)
        return rep.ob(key, good, "becomes %s" % short(new), s.f)
    if r == "lengths":
        d = slen(x) if single else x
        return rep.ob(key, new is add64(old, d), "becomes %s" % short(new), s.f)
    if r in ("num_true", "num_false"):
        if not single:
            return rep.ob(key, new is add64(old, x), "becomes %s" % short(new), s.f)
        v = eng.decide(st, x)
        if v is None:
            return rep.ob(key, new is add64(old, mk("b2i", x if r == "num_true" else notb(x))) or new is add64(old, mk("zext", 1, 64, x)), "becomes %s whatever the value" % short(new), s.f)
        hit = v == (r == "num_true")
        return rep.ob(key, new is (add64(old, I(1)) if hit else old), "becomes %s for %s" % (short(new), v), s.f)


def ctx_float(eng, pt):
    return eng.ty(pt)["k"] == "float"


def enum_dispatch(ctx, rep):
    """the enum over the statistics types forwards to the object it holds"""
    p = ctx.p
    en = [i for i in p.raw["adts"] if p.types[i].get("path", "").endswith("::Statistics") and p.types[i]["kind"] == "enum"]
    if len(en) != 1:
        raise Anchor("enum Statistics not found")
    ty = en[0]
    vs = p.t(ty)["variants"]
    adt = p.t(ty)["path"]
    unwraps(ctx, rep, adt, vs)
    for name in ("update_null", "num_values", "num_present", "merge"):
        f = p.method(adt, name, BASE)
        if f is None:
            raise Anchor("Statistics::%s not found" % name)
        s = ctx.summary(f, inner_layer)
        rep.use(s)
        seen = set()
        for o in s.outs:
            k = variant_of(s.eng, o.st, s.old(0), len(vs))
            tag = "Statistics:%s" % name
            if k is None:
                rep.ob(tag + ":variant", False, "an exit does not depend on the kind held (%s)" % pcs(o.st), f)
                continue
            tag += ":" + vs[k]["name"]
            if o.kind == "panic":
                other = variant_of(s.eng, o.st, s.old(1), len(vs)) if name == "merge" else None
                rep.ob(tag + ":panic", name == "merge" and not can_be(s.eng, o.st, s.old(1), k), "panics although both objects are of the same kind (%s)" % pcs(o.st), f)
                continue
            seen.add(k)
            inner = fld(s.old(0), k, 0, 1)
            if name in ("num_values", "num_present"):
                want = mk("n_" + name, inner)
                rep.ob(tag, o.val is want, "returns %s" % short(o.val), f)
            else:
                new = s.new(o, 0)
                same = fld(new, k, 0, 1)
                want = mk("st_null", inner) if name == "update_null" else mk("st_merge", inner, fld(s.old(1), k, 0, 1))
                rep.ob(tag, same is want and (new.op != "agg" or new.a[1] == k), "leaves %s" % short(new), f)
        rep.ob("Statistics:%s:all" % name, seen == set(range(len(vs))), "kinds handled: %s" % sorted(seen), f)


def unwraps(ctx, rep, adt, vs):
    """unwrap_x hands out the object held, of exactly one kind, and panics for the others"""
    p = ctx.p
    seen = {}
    for f in p.methods(adt, None):
        if not f.name.startswith("unwrap_"):
            continue
        s = ctx.summary(f, inner_layer)
        rep.use(s)
        ks = set()
        for o in s.rets:
            k = variant_of(s.eng, o.st, s.old(0), len(vs))
            good = k is not None and o.val.op == "ref" and o.val.a[0] == s.roots[0] and o.val.a[1] == (("v", k, 0),)
            rep.ob("Statistics:%s" % f.name, good, "returns %s" % short(o.val), f)
            ks.add(k)
        for o in s.panics:
            rep.ob("Statistics:%s" % f.name, not any(can_be(s.eng, o.st, s.old(0), k) for k in ks if k is not None), "panics for the kind it unwraps", f)
        k = ks.pop() if len(ks) == 1 else None
        want = f.name[len("unwrap_"):]
        rep.ob("Statistics:%s:kind" % f.name, k is not None and vs[k]["name"].lower() == want, "unwraps %s" % (vs[k]["name"] if k is not None else "no single kind"), f)
        seen[f.name] = k
    rep.ob("Statistics:unwraps", len(seen) >= len(vs) and len(set(seen.values())) == len(seen), "kinds unwrapped: %s" % seen)


def inner_layer(eng, callee):
    a = layers.adt_of(eng, callee)
    m = callee["decl"].split("::")[-1]
    if not is_stat(a) or a == "Statistics":
        return None
    if m in ("num_values", "num_present"):
        return lambda eng, st, c, av, at_, dty, site: layers.ret(st, mk("n_" + m, layers.tv(eng, st, av[0], at_[0])))
    if m == "update_null":
        def f(eng, st, c, av, at_, dty, site):
            layers.upd(eng, st, av[0], at_[0], lambda o: mk("st_null", o))
            return layers.ret(st, UNIT)
        return f
    if m == "merge":
        def g(eng, st, c, av, at_, dty, site):
            d = eng.value(st, layers.tv(eng, st, av[1], at_[1]))
            layers.upd(eng, st, av[0], at_[0], lambda o: mk("st_merge", o, d))
            return layers.ret(st, UNIT)
        return g
    return None


def can_be(eng, st, t, k):
    return eng.decide(st, eqint(mk("discr", t), I(k), 64)) is not False


def variant_of(eng, st, t, n):
    c = [k for k in range(n) if can_be(eng, st, t, k)]
    return c[0] if len(c) == 1 else None


# ------------------------------------------------------------------ C10
#  kind held -> (sub-message, {message field: field of the object})
MSG = {
    "Boolean": ("bucketStatistics", {"count": ("num_true", "num_false")}),
    "Long": ("intStatistics", {"minimum": "min", "maximum": "max", "sum": "sum"}),
    "Date": ("dateStatistics", {"minimum": "min", "maximum": "max"}),
    "Double": ("doubleStatistics", {"minimum": "min", "maximum": "max", "sum": "sum"}),
    "Decimal": ("decimalStatistics", {"minimum": "min", "maximum": "max", "sum": "sum"}),
    "Timestamp": ("timestampStatistics", {"minimum": "min", "maximum": "max", "minimumUtc": "min", "maximumUtc": "max"}),
    "String": ("stringStatistics", {"minimum": "min", "maximum": "max", "sum": "sum_lengths"}),
    "Binary": ("binaryStatistics", {"sum": "sum_lengths"}),
    "Generic": (None, {}),
}
META = ("unknown_fields", "cached_size")


def struct_fields(ctx, adt):
    for i in ctx.p.raw["adts"]:
        if ctx.p.types[i].get("path") == adt:
            return [f["name"] for f in ctx.p.types[i]["variants"][0]["fields"]]
    raise Anchor("type %s not found" % adt)


def messages(ctx, rep):
    """Statistics::to_proto puts everything known where readers look for it"""
    p = ctx.p
    en = [i for i in p.raw["adts"] if p.types[i].get("path", "").endswith("::Statistics") and p.types[i]["kind"] == "enum"]
    if len(en) != 1:
        raise Anchor("enum Statistics not found")
    vs = p.t(en[0])["variants"]
    adt = p.t(en[0])["path"]
    if set(v["name"] for v in vs) != set(MSG):
        raise Anchor("kinds of statistics %s differ from the table" % [v["name"] for v in vs])
    f = p.method(adt, "to_proto", None)
    if f is None:
        raise Anchor("Statistics::to_proto not found")
    s = ctx.summary(f, None)
    rep.use(s)
    inner, mm = {}, {}
    for k, v in enumerate(vs):
        inner[k] = Stat(ctx, v["fields"][0]["ty"])
    for o in s.panics:
        k = variant_of(s.eng, o.st, s.old(0), len(vs))
        rep.ob("to_proto:%s:panic" % (vs[k]["name"] if k is not None else "?"), vs[k]["name"] == "Decimal" and "overflow" in str(o.info) if k is not None else False, "can panic: %s" % (o.info,), f)
    seen = set()
    for o in s.rets:
        for st, val in open_term(s.eng, o.st, o.val):
            k = variant_of(s.eng, st, s.old(0), len(vs))
            if k is None:
                rep.ob("to_proto:kind", False, "an exit does not depend on the kind held", f)
                continue
            seen.add(k)
            if k not in mm:
                mm[k] = together(inner[k])
            if mm[k] and agree(s.eng, st, *[inner[k].get(fld(s.old(0), k, 0, 1), q) for q in mm[k]]) is False:
                continue
            message_of(ctx, rep, s, st, f, vs[k]["name"], inner[k], fld(s.old(0), k, 0, 1), val)
    rep.ob("to_proto:all", seen == set(range(len(vs))), "kinds handled: %s" % sorted(seen), f)
    decimal_format(ctx, rep)


def message_of(ctx, rep, s, st, f, kind, T, me, val):
    eng = s.eng
    tag = "to_proto:" + kind
    names = struct_fields(ctx, val.a[0]) if val.op == "agg" else []
    if not val.op == "agg" or "numberOfValues" not in names:
        rep.ob(tag + ":message", False, "returns %s" % short(val), f)
        return
    get = {n: val.a[2 + i] for i, n in enumerate(names)}
    V, P = T.acc("num_values", me), T.acc("num_present", me)
    nv, hn = get["numberOfValues"], get["hasNull"]
    rep.ob(tag + ":numberOfValues", isopt(eng, st, nv) is True and pay(nv) is P, "number of values is %s, not the non-null count" % short(nv), f)
    rep.ob(tag + ":hasNull", isopt(eng, st, hn) is True and null_flag(pay(hn), V, P), "null flag is %s" % short(hn), f)
    sub_, want = MSG[kind]
    subs = [n for n in names if n.endswith("Statistics")]
    rep.ob(tag + ":kind", all((isopt(eng, st, get[n]) is (n == sub_)) for n in subs), "messages set: %s, expected %s" % ([n for n in subs if isopt(eng, st, get[n]) is not False], sub_), f)
    if sub_ is None or isopt(eng, st, get[sub_]) is not True:
        return
    m = pay(get[sub_])
    mn = struct_fields(ctx, m.a[0]) if m.op == "agg" else []
    if not mn:
        rep.ob(tag + ":fields", False, "message is %s" % short(m), f)
        return
    for i, n in enumerate(mn):
        if n in META:
            continue
        x = m.a[2 + i]
        key = "%s:%s" % (tag, n)
        if n not in want:
            rep.ob(key, x.op == "agg" and (x.a[1] == 0 or x.op == "seq") or x is EMPTY, "%s is set to %s" % (n, short(x)), f)
            continue
        if n == "count":
            src = [T.get(me, T.ix[q]) for q in want[n]]
            ps = parts_of(x)
            rep.ob(key, len(ps) >= 1 and all(q.op == "el" for q in ps) and [q.a[0] for q in ps] in (src, src[:1]), "buckets are %s" % short(x), f)
            continue
        src = [q for q in range(len(T.fields)) if (T.role(q) == want[n] or T.fields[q]["name"] == want[n] or (want[n] == "sum" and T.role(q) in ("sum", "optsum")))]
        if len(src) != 1:
            raise Anchor("%s: no single field for %s" % (T.name, n))
        y = T.get(me, src[0])
        if T.role(src[0]) in ("min", "max", "optsum"):
            have = isopt(eng, st, y)
            px, v = isopt(eng, st, x), pay(y)
            if have is None:
                rep.ob(key, x is y, "is set to %s whether or not it is known" % short(x), f)
                continue
            rep.ob(key + ":present", px is have, "is %s although it is %s" % ("absent" if px is False else "present", "known" if have else "not known"), f)
            if px is not True or have is not True:
                continue
        else:
            rep.ob(key + ":present", isopt(eng, st, x) is True, "is absent", f)
            v = y
            if isopt(eng, st, x) is not True:
                continue
        g = pay(x)
        if kind == "Decimal":
            why = decimal_text(eng, st, g, v, T.get(me, T.ix["scale"]))
            rep.ob(key, why is None, "%s (%s)" % (why, pcs(st)), f)
        elif kind == "Date":
            rep.ob(key, g is cast(v, 64, True, 32, True), "is %s" % short(g), f)
        else:
            rep.ob(key, g is v, "is %s, not %s" % (short(g), short(v)), f)


def decimal_text(eng, st, t, val, scale_):
    """None when t is the exact decimal val / 10^scale, else what is wrong"""
    neg_ = eng.decide(st, lt(val, I(0), 128, True))
    if neg_ is None:
        return "the sign of the value is not distinguished"
    a = scale(val, -1, 128, True) if neg_ else val
    mods = [x for x in walk(t) if x.op == "pow"]
    ps = parts_of(t)
    if neg_:
        if not (ps and ps[0].op == "el" and ps[0].a[0] is I(ord("-"))):
            return "a negative value has no minus sign: %s" % short(t)
        ps = ps[1:]
    u = lambda x: mk("bin", x.a[0], x.a[1], False, *x.a[3:]) if x.op == "bin" and x.a[0] in ("div", "rem") else x
    # both operands are non-negative, so signed and unsigned division agree; |val| may be computed in either type
    same = lambda x: x is a or (x.op in ("zext", "sext") and x.a[2] is a)
    pows = [mk("pow", I(10), scale_), mk("pow", I(10), mk("zext", 32, 64, scale_))]

    def isop(x, op):
        return x.op == "bin" and x.a[0] == op and x.a[1] == 128 and same(x.a[3]) and x.a[4] in pows
    disp = lambda p: p.a[0] if p.op == "sp" and p.a[0].op == "disp" else None
    if not ps or disp(ps[0]) is None or disp(ps[0]).a[1] is not None or not isop(disp(ps[0]).a[0], "div"):
        return "the integer part is not |value| / 10^scale: %s" % short(t)
    rem = binop("rem", 128, True, a, pows[0])
    rz = [x for x in walk_facts(st) if isop(x, "rem")] or [rem]
    if len(ps) == 1:
        ok_ = any(eng.decide(st, lt(I(0), r, 128, True)) is False or eng.decide(st, eqz(r)) is True for r in rz)
        return None if ok_ else "the fraction is left out although it may not be zero"
    if len(ps) != 3 or not (ps[1].op == "el" and ps[1].a[0] is I(ord("."))):
        return "the fraction is not separated by a point: %s" % short(t)
    d = disp(ps[2])
    if d is None or not isop(d.a[0], "rem"):
        return "the fraction is not |value| mod 10^scale: %s" % short(t)
    if d.a[1] is None or d.a[1] not in (scale_, mk("zext", 32, 64, scale_)):
        return "the fraction is not padded with zeros to the scale: %s" % short(t)
    return None


def walk_facts(st):
    for c in st.facts:
        for x in walk(c):
            yield x


def decimal_format(ctx, rep):
    T = [t for t in stat_types(ctx) if t.name == "DecimalStatistics"][0]
    f = T.fn("format")
    if f is None:
        return
    s = ctx.summary(f, None)
    rep.use(s)
    for o in s.rets:
        for st, v in open_term(s.eng, o.st, o.val):
            why = decimal_text(s.eng, st, v, s.arg(1), T.get(s.old(0), T.ix["scale"]))
            rep.ob("decimal:format", why is None, "%s (%s)" % (why, pcs(st)), f)
    for o in s.panics:
        rep.ob("decimal:format:panic", "overflow" in str(o.info), "can panic: %s" % (o.info,), f)
