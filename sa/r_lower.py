"""Rules of the lower layers: varints, timestamps, run-length encoders, compression framing, sinks."""
from terms import *
import terms
from orc import *
from orc import Rep
import layers
from layers import adt_of, column_layer
from bits import Bits, Z, O, const


def sink_layer(eng, callee):
    """only the compression stream is abstract (a byte sequence): encoders are analysed themselves"""
    a = adt_of(eng, callee)
    m = callee["decl"].split("::")[-1]
    if a == "CompressionStream":
        return column_layer(eng, callee)
    return None


def path_literals(o):
    """every literal known on a partition"""
    return list(o.st.facts.items())


def bits_of(o, width):
    """bit domain under the sign facts of a partition"""
    known = {}
    for c, v in path_literals(o):
        while c.op == "not":
            c, v = c.a[0], not v
        if c.op == "neg" and c.a[0].op == "sym":
            tw = width(c.a[0])
            if tw and tw[1]:
                known[(c.a[0], tw[0] - 1)] = 1 if v else 0
    return Bits(known, width)


def appended(new, old):
    """the elements appended to a sequence, or None"""
    if new is old:
        return []
    ps = parts_of(new)
    if ps and ps[0].op == "sp" and ps[0].a[0] is old:
        return ps[1:]
    return None


# ------------------------------------------------------------------ C20
def varints(ctx, rep):
    impls = [f for f in ctx.p.fns if f and f.local and f.name == "write_varint" and (getattr(f, "impl_trait", None) or "").split("<")[0].endswith("VarInt")]
    seen = set()
    for f in impls:
        w, s = ctx.engine(sink_layer).intinfo(f.locals[1]) or (None, None)
        if w is None:
            raise Anchor("%s: receiver is not an integer" % f.path)
        seen.add((w, s))
        varint_of(ctx, rep, f, w, s)
    for w, s in ((64, False), (64, True), (128, False), (128, True)):
        rep.ob("impl:%s%d" % ("i" if s else "u", w), (w, s) in seen, "no write_varint for %s%d" % ("i" if s else "u", w))


def varint_of(ctx, rep, f, w, s):
    nm = "%s%d" % ("i" if s else "u", w)
    S = ctx.summary(f, sink_layer, unroll=24)
    rep.use(S)
    x = S.arg(0)
    width = lambda t: (w, s) if t is x else None
    rep.ob("%s:no-panic" % nm, not S.panics, "writing some value panics: %s" % [p.info for p in S.panics][:2], f)
    rep.ob("%s:paths" % nm, S.rets, "no path returns", f)
    lens = set()
    for o in S.rets:
        B = bits_of(o, width)
        xb = B(x, w)
        # the code to be written: the value itself, or its zigzag image
        zb = tuple(B.norm((Z if k == 0 else xb[k - 1]) ^ xb[w - 1]) for k in range(w)) if s else xb
        ps = appended(S.new(o, 1), S.old(1))
        if ps is None or not all(p.op == "el" for p in ps):
            rep.ob("%s:bytes" % nm, False, "appends something other than a fixed number of bytes: %s" % short(S.new(o, 1)), f)
            continue
        n = len(ps)
        lens.add(n)
        zero, some = set(), []
        for c, v in path_literals(o):
            z, q = B.literal(c, v, w)
            zero |= set(z)
            some += q
        rep.ob("%s:len%d:nonempty" % (nm, n), n > 0, "no byte is written", f)
        for k, p in enumerate(ps):
            b = B(p.a[0], 8)
            ok_ = True
            bad = ""
            for j in range(7):
                want = zb[7 * k + j] if 7 * k + j < w else Z
                if want in zero:
                    want = Z
                got = Z if b[j] in zero else b[j]
                if got != want:
                    ok_, bad = False, "bit %d of byte %d is not bit %d of the %s" % (j, k, 7 * k + j, "zigzag code" if s else "value")
            rep.ob("%s:len%d:byte%d" % (nm, n, k), ok_, bad + " (%s)" % short(p.a[0], 200), f)
            top = Z if b[7] in zero else b[7]
            rep.ob("%s:len%d:cont%d" % (nm, n, k), top == (O if k < n - 1 else Z), "the continuation bit of byte %d of %d is %s" % (k, n, "not set" if k < n - 1 else "not clear"), f)
        rest = [k for k in range(7 * n, w) if zb[k] != Z and zb[k] not in zero]
        rep.ob("%s:len%d:complete" % (nm, n), not rest, "on a path writing %d bytes the value's bits from %s on are not known to be zero" % (n, rest[:1]), f)
        if n > 1:
            low = 7 * (n - 1)
            hi = set(zb[low:]) - {Z}
            ok_ = any(all(y in hi or y in zero for y in q) for q in some)
            rep.ob("%s:len%d:minimal" % (nm, n), ok_, "a path writing %d bytes does not imply that the value needs them" % n, f)
    full = -(-w // 7)
    rep.ob("%s:lengths" % nm, lens == set(range(1, full + 1)), "lengths written: %s, expected 1..%d" % (sorted(lens), full), f)


# ------------------------------------------------------------------ C21
EPOCH = 1420070400            # 1 January 2015 00:00:00 UTC in seconds since 1 January 1970


def timestamps(ctx, rep):
    import r_column as rc
    col = next((c for c in rc.variants(ctx) if c.name == "Timestamp"), None)
    writers = 0
    for f in rc.mut_methods(ctx, col):
        tys = [ctx.p.t(f.locals[i + 1]) for i in range(1, f.argc)]
        if [t["s"] for t in tys] != ["i64", "u32"]:
            continue
        S = ctx.summary(f, "column", unroll=12, below=((2, 10 ** 9),))
        rep.use(S)
        n = 0
        for o in S.rets:
            for x, _ in rc.open_ites(S, o):
                e = rc.Eff(col, f, S, x)
                if e.kind == "none":
                    continue
                n += 1
                timestamp_of(rep, S, f, e, x)
        rep.ob("%s:paths" % f.name, n > 0, "records nothing", f)
        for o in S.panics:
            rep.ob("%s:no-panic" % f.name, False, "panics on a valid timestamp: %s" % (o.info,), f)
        writers += n > 0
    rep.ob("writers", writers >= 2, "found %d methods recording seconds and nanoseconds" % writers)
    known = set(f.name for f in rc.mut_methods(ctx, col) if [ctx.p.t(f.locals[i + 1])["s"] for i in range(1, f.argc)] == ["i64", "u32"])
    for e in rc.effects(ctx, col):
        if e.kind == "value":
            rep.ob("%s:known" % e.f.name, e.f.name in known, "records a timestamp in a form this rule does not know", e.f)


def timestamp_of(rep, S, f, e, o):
    epoch = "epoch" in f.name
    tag = f.name
    sec, nanos = S.arg(1), S.arg(2)
    d, q = e.sfx["DATA"], e.sfx["SECONDARY"]
    one = lambda p: p is not None and len(p) == 1 and p[0].op == "el"
    pc = " ".join("%s=%s;" % (short(c, 80), v) for c, v in o.st.pc[:8])
    if not (one(d) and one(q)):
        rep.ob(tag + ":one-each", False, "a value does not append exactly one element to both streams", f)
        return
    want = sub(sec, I(EPOCH), 64, True) if epoch else sec
    unix = sec if epoch else add(sec, I(EPOCH), 64, True)
    # readers take one second off values before 1970 that have more than 999999 ns, so the format stores those one higher
    shifted = add(want, I(1), 64, True)
    for s1, before in S.eng.split(o.st.fork(), lt(unix, I(0), 64, True)):
        for s2, big in S.eng.split(s1.fork(), lt(I(999999), nanos, 32, False)):
            got = S.eng.reduce(s2, d[0].a[0])
            m = {x: I(int(v)) for x in walk(got) if x.op == "b2i" for v in [S.eng.decide(s2, x.a[0])] if v is not None}
            got = subst(got, m) if m else got
            if before and big:
                rep.ob(tag + ":seconds", got is shifted or got is want, "seconds stream gets %s" % short(got), f)
                rep.ob("C21:pre-epoch", got is shifted, "a time before 1970 with more than 999999 ns is stored without the second readers take off again (ORC-763)", f)
            else:
                rep.ob(tag + ":seconds", got is want, "seconds stream gets %s instead of %s" % (short(got), short(want)), f)
    # nanoseconds: low three bits a constant code k, the rest nanos divided by 10^(k+1) (k > 0), nothing lost
    width = lambda t: (32, False) if t is nanos or (t.op == "bin" and t.a[1] == 32 and not t.a[2]) else None
    B = Bits({}, width)
    P, N = S.eng.divisors(o.st, nanos)
    # k * (nanos / A) is (k / A) * nanos where A is known to divide nanos
    qt = q[0].a[0]
    m = {}
    for x in walk(qt):
        if x.op == "lin" and len(x.a[2]) == 1 and x.a[2][0][0].op == "zext":
            d_, k = x.a[2][0][0].a[2], x.a[2][0][1]
            if d_.op == "bin" and d_.a[0] == "div" and d_.a[3] is nanos and isint(d_.a[4]) and P % d_.a[4].a[0] == 0 and k % d_.a[4].a[0] == 0:
                m[x] = mklin(x.a[0], x.a[1], {mk("zext", 32, 64, nanos): k // d_.a[4].a[0]})
    qt = subst(qt, m) if m else qt
    b = B(qt, 64)
    code = 0
    for k in range(3):
        if b[k] not in (Z, O):
            rep.ob(tag + ":code", False, "low bits of the stored nanoseconds are not a known code: %s" % short(q[0].a[0]), f)
            return
        code |= (b[k] == O) << k
    D = 1 if code == 0 else 10 ** (code + 1)
    v = binop("div", 32, False, nanos, I(D))
    r = rng(v)
    vb = B(v, 32)
    hi = S.eng.bounds(o.st, v)
    nb = hi[1].bit_length() if hi else 32
    good = all(b[3 + k] == (vb[k] if k < 32 else Z) or (k >= nb and b[3 + k] in (Z, vb[k] if k < 32 else Z)) for k in range(61))
    rep.ob(tag + ":nanos%d" % code, good, "with code %d the stored value is not nanoseconds / %d: %s" % (code, D, short(q[0].a[0])), f)
    zero = S.eng.decide(o.st, eqz(nanos)) is True
    rep.ob(tag + ":exact%d" % code, zero or P % D == 0, "nanoseconds are divided by %d where that is not known to be exact (%s)" % (D, pc), f)
    if code < 7:
        more = 100 if code == 0 else D * 10
        rep.ob(tag + ":stripped%d" % code, zero or any(more % n_ == 0 for n_ in N), "trailing zeros are left in the nanoseconds (code %d, %s)" % (code, pc), f)
    # statistics
    want = add(scale(unix, 1000, 64, True), mk("zext", 32, 64, binop("div", 32, False, nanos, I(10 ** 6))), 64, True)
    st = e.stat
    ok_ = st is not None and len(st) == 1 and st[0].op == "el" and st[0].a[0].op == "val"
    m = st[0].a[0].a[0] if ok_ else None
    rep.ob(tag + ":millis", ok_ and m is want, "statistics get %s instead of %s" % (short(m) if ok_ else st, short(want)), f)
