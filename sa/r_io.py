"""I/O errors are reported, short writes lose nothing (C16)."""
from terms import *
import terms
from orc import *
import layers
import r_writer as rw
import r_column as col_
import r_stream as sm


def real(ctx, s, c):
    """a failure the sink can cause (protobuf output into memory cannot fail)"""
    n = c.a[0]
    if n == "pb_flush":
        w = c.a[1]
        return not (w.op == "seq" and not w.a)
    return not n.startswith("pb_")


SWALLOW = ("partial", "broken", "ok", "ioerr", "wn")


def residue(t, memo):
    """the first trace of a failed or partial operation inside a term"""
    if t in memo:
        return memo[t]
    memo[t] = None
    if t.op in SWALLOW:
        memo[t] = t
        return t
    for y in t.a:
        r = None
        if isinstance(y, T):
            r = residue(y, memo)
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, T):
                    r = r or residue(z, memo)
                elif isinstance(z, tuple):
                    for q in z:
                        if isinstance(q, T):
                            r = r or residue(q, memo)
        if r is not None:
            memo[t] = r
            return r
    return None


def check(ctx, rep, s, tag, needs=True, healthy=None, panics=True):
    """every exit of one function: a failed operation is reported as an error, and errors report failed operations"""
    rep.use(s)
    n = 0
    for o in s.outs:
        failed = [c for c, v in o.st.facts.items() if c.op == "ok" and v is False and real(ctx, s, c)]
        anyok = [c for c, v in o.st.facts.items() if c.op == "ok"]
        n += bool(anyok)
        if failed:
            c = failed[0]
            good = o.kind == "ret" and is_err(o.val)
            rep.ob("%s:%s" % (tag, c.a[0]), good, "%s although `%s` failed" % ("panics" if o.kind == "panic" else "returns %s" % short(o.val, 80), c.a[0]), s.f)
            continue
        if o.kind == "panic" and any(c.op == "nofl" and v is False and c.a[1] >= 64 for c, v in o.st.facts.items()):
            continue        # a 64-bit count overflowed: a debug build panics there whether or not it is checked
        if (o.kind == "panic" and panics and "unreachable" not in str(o.info[0]) or o.kind == "ret" and o.val is not None and is_err(o.val)) and not any(c.op == "ok" and v is False for c, v in o.st.facts.items()):
            possible = healthy is None or healthy(o.st)
            rep.ob("%s:spurious" % tag, not possible, "%s although nothing has failed" % ("panics (%s)" % (o.info,) if o.kind == "panic" else "reports an error"), s.f)
        if o.kind != "ret" or (o.val is not None and is_err(o.val)):
            continue
        memo = {}
        bad = residue(o.val, memo) if o.val is not None else None
        for r in s.roots:
            if r is not None and bad is None:
                bad = residue(o.st.mem[r], memo)
        lost = o.st.mem.get(("G", "lost"), EMPTY)
        rep.ob("%s:handed-on" % tag, lost is EMPTY, "success although a buffered output goes without having been flushed: %s is never written" % short(lost, 120), s.f)
        rep.ob("%s:complete" % tag, bad is None, "success although some operation may have failed or been cut short: %s" % short(bad, 200) if bad is not None else "", s.f)
    if needs:
        rep.ob("%s:io" % tag, n > 0, "no fallible operation seen", s.f)


def constant(t):
    return t.op == "int" or t.op == "agg" and all(isinstance(x, T) and constant(x) for x in t.a[2:])


def unfailed(w, s, st, cs):
    """can this exit be taken by a writer whose operations have all succeeded so far"""
    me = w.old(s)
    m = {l.get(me): v for l, v in cs.items()}
    for c, v in st.pc:
        r = s.eng.reduce(st, subst(c, m))
        if r.op == "int" and bool(r.a[0]) != bool(v):
            return False
    return True


def constants(ctx, w):
    """what the fields of a writer are known to hold as long as every operation on it has succeeded: {leaf: constant}"""
    cs = {}
    for l in w.leaves:
        vs = {l.get(o.val.a[2]) for o in w.new.oks()}
        if len(vs) == 1 and constant(next(iter(vs))):
            cs[l] = vs.pop()
    while True:
        bad = set()
        for s in w.steps:
            for o in (s.oks() if rw.returns_result(ctx, s) else s.rets):
                for st, new in rw.cases(s, o.st, s.new(o)):
                    if not unfailed(w, s, st, cs):
                        continue
                    m = {l.get(w.old(s)): v for l, v in cs.items()}
                    bad |= {l for l in cs if s.eng.reduce(st, subst(l.get(new), m)) is not cs[l]}
        if not bad:
            return cs
        for l in bad:
            del cs[l]


def io_errors(ctx, rep):
    w = rw.writer(ctx, rep)
    cs = constants(ctx, w)
    for s in [w.new] + w.steps + [w.fin]:
        h = None if s is w.new else lambda st, s=s: unfailed(w, s, st, cs)
        check(ctx, rep, s, "Writer::" + s.f.name, needs=rw.returns_result(ctx, s) or s is w.new, healthy=h)
    for c in col_.variants(ctx):
        for m in ("write_index_streams", "write_data_streams"):
            check(ctx, rep, c.sum(m, "BaseData"), "%s::%s" % (c.name, m))
    # Data hands on what the column returned
    adt = ctx.p.t(ctx.data_ty)["path"]
    for f in ctx.p.methods(adt, "BaseData"):
        if f.name not in ("write_index_streams", "write_data_streams"):
            continue
        s = ctx.summary(f, rw.data_policy(ctx))
        rep.use(s)
        for o in s.rets:
            g = parts_of(o.st.mem.get(("G", "calls"), EMPTY))
            rep.ob("Data::" + f.name, len(g) == 1 and g[0].op == "el" and o.val is mk("callret", g[0].a[0]), "does not return what the column returned: %s" % short(o.val, 100), f)
    # encoders and streams
    for last in ("CompressionStream", "BooleanRLE", "ByteRLE", "SignedIntRLEv1", "UnsignedIntRLEv1", "IntRLEv1"):
        a = [i for i in ctx.p.raw["adts"] if ctx.p.types[i].get("path", "").split("::")[-1] == last]
        if not a:
            continue
        adt = ctx.p.t(a[0])["path"]
        for f in ctx.p.methods(adt):
            if f.name != "finish":
                continue
            s = ctx.summary(f, stream_boundary if last != "CompressionStream" else sm.stream_layer)
            check(ctx, rep, s, "%s::finish" % last, panics=False)     # C14, C18, C19 show that there are none
    counter(ctx, rep)
    finished(ctx, rep, w)


def stream_boundary(eng, callee):
    a = layers.adt_of(eng, callee)
    m = callee["decl"].split("::")[-1]
    if a == "CompressionStream" and m == "finish":
        return layers.enc_finish
    if a == "CompressionStream" and m == "write_u8":
        return layers.enc_write
    if a == "CompressionStream" and m == "write_bytes":
        return layers.enc_bytes
    return None


def finished(ctx, rep, w):
    """finish succeeds only after a flush of everything, and gives the sink back"""
    s = w.fin
    for o in s.oks():
        v = o.val.a[2]
        good = v.op == "inner"
        rep.ob("finish:sink", good, "finish does not hand back the sink but %s" % short(v, 100), s.f)
        if not good:
            continue
        fl = [c for c, x in o.st.facts.items() if c.op == "ok" and c.a[0] == "flush" and x is True]
        rep.ob("finish:flushed", any(c.a[1] is v.a[0] for c in fl), "finish succeeds without flushing the sink after the last byte", s.f)


# ------------------------------------------------------------------ the counting output
def sink_layer(eng, callee):
    """calls on the sink itself are events"""
    m = callee["decl"].split("::")[-1]
    if (callee.get("trait") or "").endswith("Write") and callee.get("fn") is None:
        def f(eng, st, c, av, at_, dty, site):
            from models import tv, target, ok, err, ret
            r, p = target(eng, av[0], at_[0])
            sink = eng.read(st, r, p)
            args = tuple(eng.value(st, tv(eng, st, v, t)) for v, t in zip(av[1:], at_[1:]))
            ev = mk("sink", m, sink, *args)
            eng.write(st, r, p, mk("used", ev))
            c_ = mk("ok", m, ev)
            out = []
            for s, v in eng.split(st, c_):
                if not v:
                    out.append(("ret", s, err(mk("ioerr", c_))))
                elif m == "write":
                    n = mk("accepted", ev)
                    n.rng = (0, 1 << 62)
                    out.append(("ret", s, ok(n)))
                else:
                    out.append(("ret", s, ok(UNIT)))
            return out
        if m in ("write", "flush", "write_all"):
            return f
        raise terms_giveup(m)
    return None


def terms_giveup(m):
    from engine import Giveup
    return Giveup("Write::%s on the sink" % m)


def counter(ctx, rep):
    """CountWrite counts exactly what the sink accepted and reports every failure"""
    ty = ctx.adt_ty("CountWrite")
    adt = ctx.p.t(ty)["path"]
    fs = ctx.p.t(ty)["variants"][0]["fields"]
    n = len(fs)
    inner = [i for i, f in enumerate(fs) if ctx.p.t(f["ty"])["k"] == "param"]
    nums = [i for i, f in enumerate(fs) if ctx.p.t(f["ty"])["k"] == "int"]
    if len(inner) != 1:
        raise Anchor("CountWrite: which field is the sink?")
    inner = inner[0]
    pos = ctx.p.method(adt, "pos")
    s = ctx.summary(pos, None)
    rep.use(s)
    cnt = [i for i in nums if s.rets and all(o.val is fld(s.old(0), None, i, n) for o in s.rets)]
    rep.ob("CountWrite::pos", len(cnt) == 1 and len(s.rets) == len(s.outs), "pos is not the count", pos)
    if len(cnt) != 1:
        return
    cnt = cnt[0]
    for f in ctx.p.methods(adt):
        if f.name == "new":
            s = ctx.summary(f, None)
            rep.use(s)
            for o in s.outs:
                good = o.kind == "ret" and fld(o.val, None, inner, n) is s.arg(0) and fld(o.val, None, cnt, n) is I(0)
                rep.ob("CountWrite::new", good, "a new output does not start at 0 on the sink given", f)
        elif f.name == "into_inner":
            s = ctx.summary(f, None)
            rep.use(s)
            for o in s.outs:
                rep.ob("CountWrite::into_inner", o.kind == "ret" and o.val is fld(s.arg(0), None, inner, n), "does not give the sink back", f)
    seen = set()
    for f in ctx.p.methods(adt, "Write"):
        s = ctx.summary(f, sink_layer)
        rep.use(s)
        seen.add(f.name)
        old = s.old(0)
        sink0, c0 = fld(old, None, inner, n), fld(old, None, cnt, n)
        if f.name not in ("write", "flush", "write_all"):
            raise Anchor("CountWrite overrides Write::%s" % f.name)
        for o in s.outs:
            tag = "CountWrite::" + f.name
            if o.kind == "panic":
                rep.ob(tag, False, "can panic: %s" % (o.info,), f)
                continue
            new = s.new(o)
            evs = [c.a[1] for c in o.st.facts if c.op == "ok"]
            args = (s.old(1),) if f.argc > 1 else ()
            want = mk("sink", f.name, sink0, *args)
            good = len(evs) == 1 and evs[0] is want and fld(new, None, inner, n) is mk("used", want)
            rep.ob(tag + ":passed-on", good, "does not pass exactly its own call on to the sink: %s" % short(mk("seq", *[mk("el", e) for e in evs]), 150), f)
            if not good:
                continue
            okay = o.st.facts[mk("ok", f.name, want)]
            by = {"write": mk("accepted", want), "write_all": slen(args[0]) if args else None, "flush": I(0)}[f.name] if okay else I(0)
            rep.ob(tag + ":counted", fld(new, None, cnt, n) is add64(c0, by), "the count becomes %s" % short(fld(new, None, cnt, n), 120), f)
            if not okay:
                rep.ob(tag + ":error", is_err(o.val), "an error of the sink becomes %s" % short(o.val, 80), f)
            else:
                wv = by if f.name == "write" else UNIT
                rep.ob(tag + ":result", is_ok(o.val) and o.val.a[2] is wv, "returns %s" % short(o.val, 100), f)
    rep.ob("CountWrite:write+flush", {"write", "flush"} <= seen, "CountWrite implements %s" % sorted(seen))
