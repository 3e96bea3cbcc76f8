"""Settings: what a caller sets is what is used, illegal values are refused when set (C15)."""
from terms import *
import terms
from orc import *
from engine import State
import r_writer as rw

MAXB = 8388607
LIMITS = {"with_block_size": (1, MAXB), "with_compression_level": (1, 22)}
CODECS = {"NoCompression": ("NONE", None), "SnappyCompression": ("SNAPPY", "snappy"), "ZstdCompression": ("ZSTD", "zstd")}


def adt_named(ctx, last):
    return ctx.adt_ty(last)


def flat_leaves(ctx, ty):
    """every field, through this crate's structs: [(path, type)]"""
    out = []

    def go(ty, path):
        t = ctx.p.t(ty)
        if t["k"] == "adt" and t["kind"] == "struct" and t.get("local") and t["variants"] and t["variants"][0]["fields"]:
            fs = t["variants"][0]["fields"]
            for i, f in enumerate(fs):
                go(f["ty"], path + ((i, len(fs)),))
        elif t["k"] == "tuple" and t["es"]:
            for i, e in enumerate(t["es"]):
                go(e, path + ((i, len(t["es"])),))
        elif path:
            out.append((path, ty))
    go(ty, ())
    return out


def get(t, path):
    for i, n in path:
        t = fld(t, None, i, n)
    return t


def setters(ctx, ty):
    adt = ctx.p.t(ty)["path"]
    return [f for f in ctx.p.methods(adt) if f.name.startswith("with_") and f.argc == 2 and f.locals[0] == ty and f.locals[1] == ty]


def stored(ctx, f, ty):
    """leaves of the result that are the argument, over all returning partitions"""
    S = ctx.summary(f, None)
    ls = flat_leaves(ctx, ty)
    def plain(x):
        return x.a[2] if x.op == "zext" and x.a[2] is S.arg(1) else x        # widened: the same number
    return [p for p, _ in ls if S.rets and all(plain(get(o.val, p)) is S.arg(1) for o in S.rets)]


def leaf_set_by(ctx, ty, name):
    """the field a setter stores its argument in"""
    for f in setters(ctx, ty):
        if f.name == name:
            got = stored(ctx, f, ty)
            return got[0] if len(got) == 1 else None
    return None


def whole_set_by(ctx, ty, name):
    """the direct field a setter stores its (compound) argument in"""
    fs = ctx.p.t(ty)["variants"][0]["fields"]
    for f in setters(ctx, ty):
        if f.name == name:
            S = ctx.summary(f, None)
            got = [i for i in range(len(fs)) if S.rets and all(fld(o.val, None, i, len(fs)) is S.arg(1) for o in S.rets)]
            return got[0] if len(got) == 1 else None
    return None


def in_range(eng, st, t, lo, hi, signed):
    b = eng.bounds(st, t)
    return b is not None and b[0] is not None and b[1] is not None and b[0] >= lo and b[1] <= hi


def assume_range(eng, st, t, lo, hi):
    good = eng.assume(st, terms.neg(terms.mathsub(t, I(lo), 64)), False)
    return good and eng.assume(st, terms.neg(terms.mathsub(I(hi), t, 64)), False) and eng.consistent(st)


def settings(ctx, rep):
    """setters store exactly their argument where it is used; limits are enforced when set"""
    n = 0
    for last in ("Config", "SnappyCompression", "ZstdCompression"):
        ty = adt_named(ctx, last)
        ls = flat_leaves(ctx, ty)
        fs = ctx.p.t(ty)["variants"][0]["fields"]
        for x in fs:
            rep.ob("%s:private" % last, not x["pub"], "field %s of %s can be set from outside without its limits" % (x["name"], last))
        owner = {}
        limited = {}
        for f in setters(ctx, ty):
            S = ctx.summary(f, None)
            rep.use(S)
            a = S.arg(1)
            tag = "%s::%s" % (last, f.name)
            at_ = stored(ctx, f, ty)
            if not at_:
                # a compound argument: its leaves
                at_ = whole(ctx, S, ls, a)
            rep.ob(tag + ":stored", len(at_) == 1, "the value set is stored in %d fields" % len(at_), f)
            if len(at_) != 1:
                continue
            rep.ob(tag + ":own-field", at_[0] not in owner, "sets the same field as %s" % owner.get(at_[0]), f)
            owner[at_[0]] = f.name
            lim = LIMITS.get(f.name)
            for o in S.rets:
                n += 1
                for p, _ in ls:
                    if p[:len(at_[0])] != at_[0]:
                        rep.ob(tag + ":others-kept", get(o.val, p) is get(S.arg(0), p), "also changes another setting to %s" % short(get(o.val, p)), f)
                if lim:
                    rep.ob(tag + ":limit", in_range(S.eng, o.st, a, lim[0], lim[1], True), "accepts values outside %d..=%d (%s)" % (lim[0], lim[1], S.eng.bounds(o.st, a)), f)
            for o in S.panics:
                st = o.st.fork()
                if lim:
                    rep.ob(tag + ":accepts", not assume_range(S.eng, st, a, lim[0], lim[1]), "refuses a value within %d..=%d [%s]" % (lim[0], lim[1], "; ".join("%s=%s" % (short(x, 60), v) for x, v in o.st.pc[-4:])), f)
                else:
                    rep.ob(tag + ":accepts", False, "refuses some values: %s" % (o.info,), f)
            if lim:
                limited[at_[0]] = lim
        # whoever makes one keeps within the limits
        makers = [f for f in ctx.p.fns if f and f.local and f.id in ctx.p._rootset() and f.locals and f.locals[0] == ty and f not in setters(ctx, ty)]
        for f in makers:
            S = ctx.summary(f, None)
            rep.use(S)
            for o in S.rets:
                for p, lim in limited.items():
                    v = get(o.val, p)
                    same = any(get(derefd(ctx, S, i, ty), p) is v for i in range(f.argc) if derefd(ctx, S, i, ty) is not None)
                    rep.ob("%s::%s:legal" % (last, f.name), same or in_range(S.eng, o.st, v, lim[0], lim[1], True), "yields the value %s, outside %d..=%d" % (short(v, 100), lim[0], lim[1]), f)
            rep.ob("%s::%s:returns" % (last, f.name), len(S.rets) > 0, "never returns", f)
        # nobody changes one in place
        for f in ctx.p.fns:
            if f and f.local and f.id in ctx.p._rootset():
                for i in range(f.argc):
                    y = ctx.p.t(f.locals[i + 1])
                    if y["k"] == "ref" and y.get("mut") and y["e"] == ty:
                        S = ctx.summary(f, None)
                        rep.use(S)
                        for o in S.rets:
                            for p, lim in limited.items():
                                v = get(S.new(o, i), p)
                                rep.ob("%s::%s:legal" % (last, f.name), v is get(S.old(i), p) or in_range(S.eng, o.st, v, lim[0], lim[1], True), "leaves the value %s" % short(v, 100), f)
        for nm in LIMITS:
            if last == "Config" or (nm == "with_compression_level" and last != "ZstdCompression"):
                continue
            rep.ob("%s:%s:exists" % (last, nm), nm in owner.values(), "%s has no %s" % (last, nm))
        if last == "Config":
            for nm in ("with_row_index_stride", "with_compression", "with_stripe_size"):
                rep.ob("%s:%s:exists" % (last, nm), nm in owner.values(), "%s has no %s" % (last, nm))


def derefd(ctx, S, i, ty):
    y = ctx.p.t(S.f.locals[i + 1])
    if S.f.locals[i + 1] == ty or (y["k"] == "ref" and y["e"] == ty):
        return S.arg(i)
    return None


def whole(ctx, S, ls, a):
    """paths of struct-valued fields that hold the argument in every partition"""
    pre = set()
    for p, _ in ls:
        for k in range(1, len(p)):
            pre.add(p[:k])
    return sorted([q for q in pre if all(get(o.val, q) is a for o in S.rets)], key=len)[:1] if S.rets else []


def builders(ctx, rep):
    """build() wraps the settings in the codec they are for; what a stream is made from them is that codec at that size"""
    proj, ety = rw.compression_enum(ctx)
    vs = ctx.p.t(ety)["variants"]
    cty = adt_named(ctx, "Compression")
    which = {}
    for last in CODECS:
        ty = adt_named(ctx, last)
        adt = ctx.p.t(ty)["path"]
        bs = [f for f in ctx.p.methods(adt) if f.name == "build"]
        if len(bs) != 1:
            raise Anchor("%s::build not found" % adt)
        S = ctx.summary(bs[0], None)
        rep.use(S)
        rep.ob("%s::build:returns" % last, len(S.rets) > 0 and not S.panics, "build can fail", bs[0])
        for o in S.rets:
            e = proj(o.val)
            good = e.op == "agg" and isinstance(e.a[1], int)
            payload = fld(e, e.a[1], 0, 1) if good else None
            rep.ob("%s::build:wraps" % last, good and payload is S.arg(0), "build yields %s" % short(o.val, 200), bs[0])
            if good:
                rep.ob("%s::build:own-codec" % last, which.get(e.a[1], last) == last, "the same codec as %s" % which.get(e.a[1]), bs[0])
                which[e.a[1]] = last
    for i, v in enumerate(vs):
        rep.ob("codec:%s:built" % v["name"], i in which, "no builder makes codec %s" % v["name"])
    kinds = ctx.enum_names("CompressionKind")
    cadt = ctx.p.t(cty)["path"]
    for f in ctx.p.methods(cadt):
        if f.name not in ("kind", "block_size"):
            continue
        S = ctx.summary(f, None)
        rep.use(S)
        seen = set()
        for o in S.rets:
            e = proj(S.arg(0))
            poss = [i for i in range(len(vs)) if S.eng.decide(o.st, eqint(S.eng.discr_of(e, ety), I(i), 64)) is not False]
            for i in poss:
                seen.add(i)
                last = which.get(i)
                if last is None:
                    continue
                if f.name == "kind":
                    got = kinds[o.val.a[1]] if o.val.op == "agg" and isinstance(o.val.a[1], int) else None
                    rep.ob("kind:%s" % last, got == CODECS[last][0], "%s declares kind %s" % (last, got), f)
                else:
                    want = size_leaf(ctx, e, i, last, vs)
                    rep.ob("block_size:%s" % last, o.val is want if want is not None else True, "%s declares block size %s" % (last, short(o.val)), f)
        rep.ob("%s:total" % f.name, seen == set(range(len(vs))) and not S.panics, "%s does not cover every codec" % f.name, f)


def size_leaf(ctx, e, i, last, vs):
    if last == "NoCompression":
        return None
    ty = vs[i]["fields"][0]["ty"]
    p = leaf_set_by(ctx, ty, "with_block_size")
    if p is None:
        raise Anchor("%s: no block size" % last)
    return get(fld(e, i, 0, 1), p)


def same(eng, st, a, b):
    """the two values are equal on this path"""
    if a is b:
        return True
    if a.op == "agg":
        v, n = a.a[1], len(a.a) - 2
        if v is not None:
            d = mk("discr", b)
            if not isinstance(v, int) or not (b.op == "agg" and b.a[1] == v) and eng.decide(st, eqint(d, I(v), 64)) is not True:
                return False
        return all(same(eng, st, x, fld(b, v, i, n)) for i, x in enumerate(a.a[2:]))
    return False


def clones(ctx, rep):
    """a clone equals the original (every other rule takes Clone for the identity; this is why it may)"""
    for f in ctx.p.fns:
        if f.name != "clone" or "Clone" not in (getattr(f, "impl_trait", None) or "") or "protos::" in f.path:
            continue
        s = ctx.summary(f, None)
        rep.use(s)
        for o in s.outs:
            tag = "%s:clone" % (f.impl_adt or f.path).split("::")[-1].split("<")[0]
            if o.kind != "ret":
                rep.ob(tag, False, "can panic", f)
                continue
            v = s.eng.value(o.st, o.val)
            rep.ob(tag, same(s.eng, o.st, v, s.old(0)), "gives %s" % short(v, 200), f)
