"""Rules about Writer, Stripe and the Data tree (C01-C03, C08, C11-C13, C15-C17, C22, C23, C27: the file-level part of each)."""
import itertools
from terms import *
from orc import *
import layers
from r_column import suffix, bag, same_bag, proto_field, proto_ty, config_field, pcs, open_term, single, variants, news, new_args, fresh_state, boxed
from layers import NULL


def kindof(ctx, fn):
    """position of the (&Data, &mut Vec<Type>) parameters of a function that describes a column tree as footer types"""
    p = ctx.p
    d = v = None
    for i in range(fn.argc):
        t = p.t(fn.locals[i + 1])
        if t["k"] != "ref":
            continue
        e = p.t(t["e"])
        if e["k"] == "adt" and t["e"] == ctx.data_ty:
            d = i
        elif e["k"] == "adt" and e["path"].split("::")[-1] == "Vec" and t["mut"] and p.t(e["args"][0]).get("path", "").endswith("orc_proto::Type"):
            v = i
    if d is not None and v is not None:
        return d, v
    if d is not None and p.t(fn.locals[0]).get("path", "").split("::")[-1] == "Vec" and p.t(p.t(fn.locals[0])["args"][0]).get("path", "").endswith("orc_proto::Type"):
        return d, None
    return None


def types_fn(ctx):
    c = [f for f in ctx.p.fns if f and f.local and f.id in ctx.p._rootset() and kindof(ctx, f)]
    if len(c) > 1:
        # the one that recurses is the description; others are wrappers
        c = [f for f in c if any(g.path == f.path for g in called(ctx, f))] or c
    if len(c) != 1:
        raise Anchor("expected one function that turns a column tree into footer types, found %d" % len(c))
    return c[0]


def called(ctx, f):
    out = []
    for i in f.callees():
        g = ctx.p.fns[i]
        if g:
            out.append(g)
    return out


def writer_policy(ctx):
    if hasattr(ctx, "_wp"):
        return ctx._wp
    tf = types_fn(ctx)
    di, vi = kindof(ctx, tf)

    def policy(eng, callee):
        if callee["fn"] is not None and eng.p.fns[callee["fn"]] is not None and eng.p.fns[callee["fn"]].path == tf.path:
            def m(eng, st, c, av, at_, dty, site):
                d = eng.value(st, layers.tv(eng, st, av[di], at_[di]))
                if vi is None:
                    return layers.ret(st, mk("seq", mk("sp", mk("types", d))))
                layers.upd(eng, st, av[vi], at_[vi], lambda o: cat(o, mk("seq", mk("sp", mk("types", d)))))
                return layers.ret(st, UNIT)
            return m
        return layers.writer_layer(eng, callee)
    ctx._wp = policy
    return policy


class W:
    """the writer: leaves by role, summaries of its public methods, inferred invariant"""

    def __init__(self, ctx):
        self.ctx = ctx
        p = ctx.p
        self.ty = ctx.adt_ty("Writer")
        self.adt = p.t(self.ty)["path"]
        ls = ctx.flatten(self.ty)
        self.leaves = ls

        def one(k, what):
            c = [l for l in ls if l.kind == k]
            if len(c) != 1:
                raise Anchor("Writer: expected one %s, found %s" % (what, [l.name for l in c]))
            return c[0]
        self.bytes = one("countwrite", "counted output")
        self.data = one("child", "column tree")
        c = [l for l in ls if l.kind == "vec" and p.t(p.t(l.ty)["args"][0]).get("path", "").split("::")[-1] == "StripeInfo"]
        if len(c) != 1:
            raise Anchor("Writer: expected one list of StripeInfo")
        self.infos = c[0]
        self.methods = [f for f in p.methods(self.adt) if f.reach]
        self.sums = {}
        self.new = self.sum("new")
        self.steps = []
        self.fin = None
        for f in self.methods:
            if f.name == "new":
                continue
            t = p.t(f.locals[1]) if f.argc else None
            if t is None:
                continue
            if t["k"] == "ref" and t["mut"] and t["e"] == self.ty:
                s = self.sum(f.name)
                self.steps.append(s)
            elif f.locals[1] == self.ty:
                s = self.sum(f.name)
                if self.fin is not None:
                    raise Anchor("Writer: more than one method consumes the writer")
                self.fin = s
        if self.fin is None:
            raise Anchor("Writer: no method consumes the writer")
        self.flush = [s for s in self.steps if any(self.bytes.get(s.new(o)) is not self.bytes.get(s.old()) for o in s.rets)]
        if not self.flush:
            raise Anchor("Writer: no step method writes stripes")
        self.infer()

    def sum(self, name):
        f = self.ctx.p.method(self.adt, name)
        if f is None:
            raise Anchor("Writer::%s not found" % name)
        return self.ctx.summary(f, writer_policy(self.ctx))

    def old(self, s):
        """writer state on entry"""
        return s.arg(0) if s.roots[0] is None else s.old(0)

    # ------------------------------------------------------------ invariant inference
    def infer(self):
        """Houdini: the largest subset of candidate equalities that holds after new and is kept by every successful step"""
        c0 = zero_cw
        nums = [l for l in self.leaves if l.kind == "num"]
        cand = [("len", l) for l in nums]
        for k in ("config", "schema"):
            g = [l for l in self.leaves if l.kind == k]
            cand += [("eq", a, b) for i, a in enumerate(g) for b in g[i + 1:]]
        rec = self.ctx.p.t(self.ctx.p.t(self.infos.ty)["args"][0])["variants"][0]["fields"]
        self.nrec = len(rec)
        ints = [i for i, x in enumerate(rec) if self.ctx.p.t(x["ty"])["k"] == "int"]
        cand += [("rsum", l, (i,)) for l in nums for i in ints]
        cand += [("content", None, c) for r in range(1, len(ints) + 1) for c in itertools.combinations(ints, r)]
        start = [o.val.a[2] for o in self.new.oks()]
        cand = [c for c in cand if start and all(self.holds(c, t, c0) for t in start)]
        self.inv = [c for c in cand if c[0] in ("len", "eq")]
        while True:
            bad = [c for c in self.inv if not self.kept(c)]
            if not bad:
                break
            self.inv = [c for c in self.inv if c not in bad]
        # running totals over the listed stripes, each on its own on top of these
        base = self.inv
        more = []
        for c in cand:
            if c[0] in ("rsum", "content"):
                self.inv = base + [c]
                if self.kept(c):
                    more.append(c)
        self.inv = base + more

    def kept(self, c):
        return all(self.holds(c, t, lambda x: self.under(s, x), (s.eng, st)) for s in self.steps for o in (s.oks() if returns_result(self.ctx, s) else s.rets)
                   for st, t in cases(s, o.st, s.new(o)))

    def holds(self, c, t, f, path=None):
        if c[0] == "len":
            return mathsub(f(c[1].get(t)), f(slen(self.bytes.get(t))), 64) is I(0)
        if c[0] in ("rsum", "content"):
            lead = I(3) if c[0] == "content" else I(0)
            x = c[1].get(t) if c[0] == "rsum" else slen(self.bytes.get(t))
            tot = self.rec_sum(self.infos.get(t), c[2])
            return tot is not None and same_num(f(x), f(add64(lead, tot)), path)
        return f(c[1].get(t)) is f(c[2].get(t))

    def rec_sum(self, infos, fields):
        tot = I(0)
        for i in fields:
            x = sum_over(infos, lambda e: fld(e, None, i, self.nrec))
            if x is None:
                return None
            tot = add64(tot, x)
        return tot

    def under(self, s, t):
        """t (over the entry state of s) rewritten with the invariant assumed on entry"""
        me = self.old(s)
        m = {}
        for c in self.inv:
            if c[0] == "len":
                m[c[1].get(me)] = slen(self.bytes.get(me))
            elif c[0] == "rsum":
                m.setdefault(c[1].get(me), self.rec_sum(self.infos.get(me), c[2]))
            elif c[0] == "content":
                one, rest = c[2][0], c[2][1:]
                x = self.rec_sum(self.infos.get(me), (one,))
                m[x] = sub64(sub64(slen(self.bytes.get(me)), I(3)), self.rec_sum(self.infos.get(me), rest))
            else:
                m[c[2].get(me)] = c[1].get(me)
        return subst(split_sums(t), m) if m else t


def split_sums(t):
    """sums over a concatenation as the sum of the parts' sums, field by field"""
    memo = {}

    def one(n, body, k):
        ixk = mk("ix", k)
        bases = {x.a[0] for x in walk(body) if x.op == "at" and x.a[1] is ixk and x.a[0].op == "seq" and slen(x.a[0]) is n}
        if len(bases) != 1:
            bases = {x.a[0] for x in walk(body) if x.op == "at" and x.a[1] is ixk and slen(x.a[0]) is n}
        if len(bases) != 1:
            return None
        base = bases.pop()
        hole = mk("sym", "split_sums hole", "")
        b = subst(body, {at(base, ixk): hole})
        if contains(b, lambda x: x is ixk):
            return None
        tot = I(0)
        for q in parts_of(seqof(base)):
            if q.op == "el":
                tot = add64(tot, subst(b, {hole: q.a[0]}))
            elif q.op == "sp":
                g = subst(b, {hole: at(q.a[0], mk("ix", 1))})
                if g.op == "lin":
                    tot = add64(tot, mul(slen(q.a[0]), I(g.a[1]), 64)) if g.a[1] else tot
                    for x, c in g.a[2]:
                        tot = add64(tot, mul(mk("sum", slen(q.a[0]), x, 1), I(c), 64))
                else:
                    tot = add64(tot, mk("sum", slen(q.a[0]), g, 1))
            else:
                return None
        return tot
    m = {}
    for x in walk(t):
        if x.op == "sum":
            r = one(*x.a)
            if r is not None and r is not x:
                m[x] = r
    return subst(t, m) if m else t


def zero_cw(t):
    """a fresh counted output has accepted no bytes"""
    m = {}
    for x in walk(t):
        if x.op == "len" and x.a[0].op == "cw":
            m[x] = I(0)
    return subst(t, m) if m else t


def returns_result(ctx, s):
    t = ctx.p.t(s.f.locals[0])
    return t["k"] == "adt" and t["path"].endswith("Result")


def writer(ctx, rep):
    if not hasattr(ctx, "_w"):
        ctx._w = W(ctx)
    w = ctx._w
    for s in [w.new, w.fin] + w.steps:
        rep.use(s)
    return w


def message(t, name):
    """the single message of this type inside one section: (message, framed?)"""
    if t.op != "sp":
        return None, None
    q = t.a[0]
    framed = False
    if q.op == "fin":
        framed = True
        q = q.a[0]
        if q.op == "seq" and len(q.a) == 1 and q.a[0].op == "sp":
            q = q.a[0].a[0]
    if q.op == "pb" and q.a[0].op == "agg" and str(q.a[0].a[0]).endswith("::" + name):
        return q.a[0], framed
    return None, None


def same_num(x, y, path=None):
    """x == y mod 2^64, using what the path decided (a pending row count that is zero on the path that lists no stripe)"""
    d = mathsub(x, y, 64)
    return d is I(0) or path is not None and path[0].decide(path[1], eqz(sub64(x, y))) is True


def cases(s, st, t):
    return open_term(s.eng, st, t)


def finishes(ctx, rep):
    """[(summary, state, written suffix parts)] of every successful finish"""
    w = writer(ctx, rep)
    s = w.fin
    out = []
    for o in s.oks():
        v = o.val.a[2]
        if v.op == "inner":
            v = v.a[0]
        else:
            rep.ob("finish:returns-sink", False, "successful finish returns %s, not the sink" % short(v), s.f)
            continue
        for st, t in cases(s, o.st, v):
            sx = suffix(t, w.bytes.get(w.old(s)))
            out.append((w, s, st, t, sx))
    rep.ob("finish:can-succeed", len(out) > 0, "finish has no successful exit", s.f)
    return out


def stripe_part(ctx, parts):
    """leading index, data and footer sections of one stripe, and what follows"""
    if len(parts) >= 3 and parts[0].op == "sp" and parts[0].a[0].op == "child_idx":
        m, framed = message(parts[2], "StripeFooter")
        if parts[1].op == "sp" and parts[1].a[0].op == "child_dat" and m is not None and framed:
            return parts[:3], parts[3:], m
    return None, parts, None


def some_of(t):
    return t.a[2] if t.op == "agg" and t.a[1] == 1 and len(t.a) == 3 and str(t.a[0]).endswith("Option") else None


def is_none(t):
    return t.op == "agg" and t.a[1] == 0 and str(t.a[0]).endswith("Option")


def eqlen(a, parts):
    return a is not None and mathsub(a, slen(mk("seq", *parts)), 64) is I(0)


# ------------------------------------------------------------------ C01
def file_tail(ctx, rep):
    w = writer(ctx, rep)
    for o in w.new.oks():
        b = w.bytes.get(o.val.a[2])
        sx = parts_of(b)
        good = len(sx) > 1 and sx[0].op == "sp" and sx[0].a[0].op == "cw" and literal(sx[1:]) == b"ORC"
        rep.ob("new:header", good, "a new file starts with %s" % short(b), w.new.f)
    rep.ob("new:can-succeed", len(w.new.oks()) > 0, "Writer::new has no successful exit", w.new.f)
    n = 0
    for w, s, st, t, sx in finishes(ctx, rep):
        n += 1
        if sx is None:
            rep.ob("finish:appends", False, "finish does not append to the bytes already written: %s" % short(t), s.f)
            continue
        _, rest, _ = stripe_part(ctx, sx)
        lead = sx[:len(sx) - len(rest)]
        md = ft = ps = None
        if len(rest) == 4:
            md, mf = message(rest[0], "Metadata")
            ft, ff = message(rest[1], "Footer")
            ps, pf = message(rest[2], "PostScript")
        if not rep.ob("finish:sections", md is not None and ft is not None and ps is not None, "the file does not end in metadata, footer, postscript and one byte: %s" % short(mk("seq", *rest)), s.f):
            continue
        rep.ob("finish:framed", mf and ff and not pf, "metadata and footer must be framed with the codec and the postscript must not", s.f)
        last = rest[3]
        good = last.op == "el" and (last.a[0] is cast(slen(mk("seq", rest[2])), 64, False, 8, False))
        rep.ob("finish:length-byte", good, "last byte is %s, not the length of the postscript" % short(last), s.f)
        G = lambda n: some_of(proto_field(ctx, "PostScript", ps, n))
        rep.ob("postscript:metadataLength", eqlen(G("metadataLength"), [rest[0]]), "metadataLength is %s" % short(G("metadataLength") or NULL), s.f)
        rep.ob("postscript:footerLength", eqlen(G("footerLength"), [rest[1]]), "footerLength is %s" % short(G("footerLength") or NULL), s.f)
        rep.ob("postscript:magic", G("magic") is not None and literal([p for p in parts_of(seqof(G("magic")))]) == b"ORC", "magic is %s" % short(G("magic") or NULL), s.f)
        wv = G("writerVersion")
        rep.ob("postscript:writerVersion", wv is not None and wv.op == "int" and wv.a[0] >= 6, "writerVersion is %s: below 6 it names an old Java writer whose timestamp bounds readers take as local time" % short(wv or NULL), s.f)
        v = proto_field(ctx, "PostScript", ps, "version")
        rep.ob("postscript:version", literal(parts_of(v)) == b"\x00\x0c", "version is %s" % short(v), s.f)
        H, C = some_of(proto_field(ctx, "Footer", ft, "headerLength")), some_of(proto_field(ctx, "Footer", ft, "contentLength"))
        before = parts_of(w.bytes.get(w.old(s))) + lead
        rep.ob("footer:headerLength", H is I(3), "headerLength is %s" % short(H or NULL), s.f)
        good = H is not None and C is not None and mathsub(add64(w.under(s, H), w.under(s, C)), w.under(s, slen(mk("seq", *before))), 64) is I(0)
        rep.ob("footer:contentLength", good, "headerLength + contentLength = %s + %s is not the offset of the metadata" % (short(H or NULL), short(C or NULL)), s.f)
    rep.ob("finish:partitions", n >= 6, "only %d successful exits" % n, w.fin.f)


def seqof(t):
    return t if t.op == "seq" else mk("seq", mk("sp", t))


def literal(parts):
    """bytes value of a constant sequence, or None"""
    out = b""
    for p in parts:
        q = p.a[0] if p.op in ("el", "sp") else p
        if q.op == "int" and p.op == "el":
            out += bytes([q.a[0] & 255])
        elif q.op == "bytes":
            out += bytes.fromhex(q.a[0])
        elif q.op == "seq":
            r = literal(parts_of(q))
            if r is None:
                return None
            out += r
        else:
            return None
    return out


def declared(ctx, rep):
    """C15/C01: the postscript declares the codec and block size in use, the footer the stride"""
    n = 0
    comp_ty = ctx.adt_ty("Compression")
    for w, s, st, t, sx in finishes(ctx, rep):
        if not sx:
            continue
        me = w.old(s)
        cfgs = [l for l in w.leaves if l.kind == "config"]
        cfg = cfgs[0].get(me)
        comp = config_field(ctx, cfg, "compression")
        for p in sx:
            ps, framed = message(p, "PostScript")
            if ps is not None:
                n += 1
                kind, size = codec_terms(ctx, s, st, w.under(s, comp), rep)
                k = some_of(w.under(s, proto_field(ctx, "PostScript", ps, "compression")))
                b = some_of(w.under(s, proto_field(ctx, "PostScript", ps, "compressionBlockSize")))
                if kind is not None:
                    rep.ob("postscript:compression", k is not None and k is kind, "declares %s, the codec in use is %s" % (k, kind), s.f)
                    if codec_name(ctx, kind) != "NONE":
                        rep.ob("postscript:compressionBlockSize", b is not None and mathsub(b, size, 64) is I(0), "declares %s, the block size in use is %s" % (b, size), s.f)
            ft, framed = message(p, "Footer")
            if ft is not None:
                r = some_of(w.under(s, proto_field(ctx, "Footer", ft, "rowIndexStride")))
                want = w.under(s, config_field(ctx, cfg, "row_index_stride"))
                rep.ob("footer:rowIndexStride", r is want, "declares stride %s, the configured one is %s" % (r, want), s.f)
    rep.ob("postscript:partitions", n >= 3, "only %d postscripts" % n, w.fin.f)


def codec_name(ctx, t):
    names = [v["name"] for v in ctx.p.t(proto_ty(ctx, "CompressionKind"))["variants"]]
    return names[t.a[1]] if t.op == "agg" and isinstance(t.a[1], int) else None


def codec_terms(ctx, s, st, comp, rep):
    """declared kind and block size of a Compression value in this partition, from Compression's own accessors"""
    # the variant of the codec enum this partition is in
    enum_leaf = compression_enum(ctx)
    inner = enum_leaf[0](comp)
    vs = ctx.p.t(enum_leaf[1])["variants"]
    d = mk("discr", inner)
    poss = [i for i in range(len(vs)) if s.eng.decide(st, eqint(d, I(i), 64)) is not False]
    if len(poss) != 1:
        rep.ob("postscript:one-codec", False, "the postscript is the same for several codecs", s.f)
        return None, None
    i = poss[0]
    kinds = {"No": "NONE", "Snappy": "SNAPPY", "Zstd": "ZSTD"}
    nm = vs[i]["name"]
    if nm not in kinds:
        raise Anchor("compression codec %s is not in the table" % nm)
    names = [v["name"] for v in ctx.p.t(proto_ty(ctx, "CompressionKind"))["variants"]]
    kind = agg(ctx.p.t(proto_ty(ctx, "CompressionKind"))["path"], names.index(kinds[nm]), [])
    size = None
    if nm != "No":
        pt = ctx.p.t(vs[i]["fields"][0]["ty"])
        fs = pt["variants"][0]["fields"]
        j = [q for q, f in enumerate(fs) if ctx.p.t(f["ty"])["k"] == "int" and f["name"] == "block_size"]
        if len(j) != 1:
            raise Anchor("%s: no block size" % pt["path"])
        size = fld(fld(inner, i, 0, 1), None, j[0], len(fs))
    return kind, size


def compression_enum(ctx):
    """(projection from Compression to its codec enum, type of the enum)"""
    t = ctx.adt_ty("Compression")
    y = ctx.p.t(t)
    if y["kind"] == "enum":
        return (lambda x: x), t
    fs = y["variants"][0]["fields"]
    c = [i for i, f in enumerate(fs) if ctx.p.t(f["ty"])["k"] == "adt" and ctx.p.t(f["ty"]).get("kind") == "enum"]
    if len(c) != 1:
        raise Anchor("Compression does not wrap one codec enum")
    return (lambda x: fld(x, None, c[0], len(fs))), fs[c[0]]["ty"]


# ------------------------------------------------------------------ C02
def info_roles(ctx):
    ty = ctx.adt_ty("StripeInfo")
    fs = ctx.p.t(ty)["variants"][0]["fields"]
    ix = {f["name"]: i for i, f in enumerate(fs)}
    return ix, len(fs)


def flush_cases(ctx, rep, w, s):
    """[(state, entry state, bytes suffix, infos suffix, new state or None, kind)] for each successful exit of a step or finish"""
    out = []
    me = w.old(s)
    for o in (s.oks() if returns_result(ctx, s) else s.rets):
        new = s.new(o) if s.roots[0] is not None else None
        if new is None:
            v = o.val.a[2]
            v = v.a[0] if v.op == "inner" else v
            for st, t in cases(s, o.st, v):
                out.append((st, me, suffix(t, w.bytes.get(me)), None, None))
        else:
            for st, t in cases(s, o.st, new):
                out.append((st, me, suffix(w.bytes.get(t), w.bytes.get(me)), suffix(w.infos.get(t), w.infos.get(me)), t))
    return out


def footer_of(sx):
    for p in sx or []:
        m, f = message(p, "Footer")
        if m is not None:
            return m
    return None


def stripe_directory(ctx, rep):
    w = writer(ctx, rep)
    ix, nf = info_roles(ctx)
    num = rows_leaf(ctx, w)
    iface = proto_ty(ctx, "StripeInformation")
    pb_of = {"offset": "offset", "indexLength": "index_length", "dataLength": "data_length", "footerLength": "footer_length", "numberOfRows": "num_rows"}
    used = directory_fields(ctx, w, list(pb_of), nf)
    flushes = 0
    for s in w.steps + [w.fin]:
        me = w.old(s)
        rows = num.get(me)
        given = [s.arg(i) for i in range(1, s.f.argc)] if s in w.flush else []
        for g in given:
            rows = add64(rows, g)
        tag = s.f.name
        for st, me, sx, ii, new in flush_cases(ctx, rep, w, s):
            if sx is None:
                rep.ob(tag + ":appends", False, "bytes already written are changed", s.f)
                continue
            sp3, rest, sf = stripe_part(ctx, sx)
            lead = sp3 or []
            ft = footer_of(sx)
            if new is not None:
                rep.ob(tag + ":nothing-else", not rest, "writes %s outside a stripe" % short(mk("seq", *rest)), s.f)
                if ii is None:
                    rep.ob(tag + ":directory-append", False, "stripes already listed are changed", s.f)
                    continue
            else:
                # the directory the footer lists
                if ft is None:
                    rep.ob(tag + ":footer", False, "no footer written", s.f)
                    continue
                strp = proto_field(ctx, "Footer", ft, "stripes")
                base = listed_infos(ctx, strp)
                if base is None:
                    if strp is EMPTY and w.infos.get(me) is EMPTY:
                        base = EMPTY
                    else:
                        rep.ob(tag + ":footer-stripes", False, "footer stripes are %s" % short(strp), s.f)
                        continue
                ii = suffix(base, w.infos.get(me))
                if ii is None:
                    rep.ob(tag + ":footer-stripes", False, "the footer does not list all stripes in file order: %s" % short(strp), s.f)
                    continue
                mp = parts_of(strp)[0]
                b = single(mp.a[1])
                e = at(base, mk("ix", mp.a[2]))
                for pf, nm in pb_of.items():
                    got = some_of(proto_field(ctx, "StripeInformation", b, pf)) if b is not None else None
                    rep.ob(tag + ":footer:" + pf, got is not None and pf in used and got is fld(e, None, used[pf], nf), "%s is %s" % (pf, short(got or NULL)), s.f)
                tot = some_of(proto_field(ctx, "Footer", ft, "numberOfRows"))
                good = tot is not None and tot.op == "sum" and tot.a[0] is slen(base) and tot.a[1] is fld(at(base, mk("ix", tot.a[2])), None, used.get("numberOfRows", -1) if "numberOfRows" in used else 0, nf)
                if not good and tot is not None and "numberOfRows" in used:
                    k = used["numberOfRows"]
                    want = sum_over(base, lambda e: fld(e, None, k, nf))
                    good = tot is want or want is not None and same_num(w.under(s, tot), w.under(s, want), (s.eng, st))
                rep.ob(tag + ":footer:rows", good, "the total row count is %s" % short(tot or NULL), s.f)
            if not lead:
                rep.ob(tag + ":no-bytes-no-entry", not ii, "lists a stripe without writing one: %s" % short(mk("seq", *ii)), s.f)
                if new is not None:
                    rep.ob(tag + ":rows-kept", mathsub(num.get(new), rows, 64) is I(0) or s not in w.flush and num.get(new) is num.get(me), "%s rows are handed over, %s are counted" % (rows, num.get(new)), s.f)
                else:
                    rep.ob(tag + ":empty-only", s.eng.decide(st, eqz(rows)) is True, "finishes without writing the rows still held (%s)" % rows, s.f)
                continue
            flushes += 1
            rep.ob(tag + ":not-empty", s.eng.decide(st, eqz(rows)) is False, "a stripe without rows can be written", s.f)
            if not rep.ob(tag + ":one-entry", len(ii) == 1 and ii[0].op == "el", "a stripe is written and %s listed" % short(mk("seq", *ii)), s.f):
                continue
            e = ii[0].a[0]
            want = {"offset": slen(w.bytes.get(me)), "indexLength": slen(mk("seq", lead[0])), "dataLength": slen(mk("seq", lead[1])), "footerLength": slen(mk("seq", lead[2])), "numberOfRows": rows}
            for pf, nm in pb_of.items():
                f = used.get(pf)
                if f is None:
                    continue
                got = fld(e, None, f, nf)
                good = mathsub(w.under(s, got), w.under(s, want[pf]), 64) is I(0)
                rep.ob(tag + ":stripe:" + pf, good, "%s of the stripe is recorded as %s, it is %s" % (pf, short(got), short(want[pf])), s.f)
            if new is not None:
                rep.ob(tag + ":rows-restart", num.get(new) is I(0), "after a stripe the row count is %s" % num.get(new), s.f)
    # the directory fields the footer uses are those recorded
    for pf in pb_of:
        rep.ob("directory:" + pf, pf in used, "footer does not list %s" % pf, w.fin.f)
    rep.ob("directory:distinct", len(set(used.values())) == len(used), "two directory fields are listed from the same source: %s" % used, w.fin.f)
    for o in w.new.oks():
        t = o.val.a[2]
        rep.ob("new:empty-directory", w.infos.get(t) is EMPTY and num.get(t) is I(0), "a new file starts with stripes or rows", w.new.f)
    rep.ob("flushes", flushes >= 4, "only %d exits write a stripe" % flushes, w.fin.f)


def directory_fields(ctx, w, names, nf):
    """which field of the recorded stripe the footer lists as what (the first exit that lists any)"""
    used = {}
    for st, me, sx, ii, new in flush_cases(ctx, None, w, w.fin):
        ft = footer_of(sx)
        if ft is None:
            continue
        strp = proto_field(ctx, "Footer", ft, "stripes")
        base = listed_infos(ctx, strp)
        if base is None:
            continue
        mp = parts_of(strp)[0]
        b = single(mp.a[1])
        e = at(base, mk("ix", mp.a[2]))
        for pf in names:
            got = some_of(proto_field(ctx, "StripeInformation", b, pf)) if b is not None else None
            f = [i for i in range(nf) if got is fld(e, None, i, nf)]
            if len(f) == 1 and got is not None:
                used.setdefault(pf, f[0])
    return used


def sum_over(seq, g):
    from terms import slen as _l
    ps = parts_of(seq)
    tot = I(0)
    for p in ps:
        if p.op == "el":
            tot = add64(tot, g(p.a[0]))
        elif p.op == "sp":
            k = g(at(p.a[0], mk("ix", 1)))
            tot = add64(tot, mk("sum", slen(p.a[0]), k, 1))
        else:
            return None
    return tot


def listed_infos(ctx, strp):
    """the sequence over which the footer's stripe list is mapped"""
    ps = parts_of(strp)
    if len(ps) != 1 or ps[0].op != "mapcat":
        return None
    for x in walk(ps[0].a[1]):
        if x.op == "at" and x.a[1] is mk("ix", ps[0].a[2]) and ps[0].a[0] is slen(x.a[0]):
            return x.a[0]
    return None


def rows_leaf(ctx, w):
    """the leaf counting the rows handed over for the current stripe"""
    for l in w.leaves:
        if l.kind != "num":
            continue
        for s in w.flush:
            if s.f.argc < 2:
                continue
            for o in s.oks():
                new = s.new(o)
                if w.bytes.get(new) is w.bytes.get(w.old(s)) and mathsub(l.get(new), add64(l.get(w.old(s)), s.arg(1)), 64) is I(0):
                    return l
    raise Anchor("Writer: no counter grows by the rows handed over")


# ------------------------------------------------------------------ C03 (file part)
def footer_streams(ctx, rep):
    w = writer(ctx, rep)
    n = 0
    for s in w.flush + [w.fin]:
        for st, me, sx, ii, new in flush_cases(ctx, rep, w, s):
            sp3, rest, sf = stripe_part(ctx, sx or [])
            if sf is None:
                if any(contains(p, lambda x: x.op in ("child_idx", "child_dat")) for p in rest if message(p, "Footer")[0] is None and message(p, "Metadata")[0] is None):
                    rep.ob(s.f.name + ":stripe-shape", False, "a stripe is not index, data and footer in this order: %s" % short(mk("seq", *rest)), s.f)
                continue
            n += 1
            d = w.data.get(me)
            idx, dat = sp3[0].a[0], sp3[1].a[0]
            rep.ob(s.f.name + ":index-then-data", idx.a[0] is d and dat.a[0] is mk("after_idx", d), "the stripe consists of %s and %s" % (short(idx), short(dat)), s.f)
            want = mk("seq", mk("sp", mk("childinfo_idx", idx.a[0])), mk("sp", mk("childinfo_dat", dat.a[0])))
            strm = proto_field(ctx, "StripeFooter", sf, "streams")
            ps = parts_of(strm)
            good = len(ps) == 1 and ps[0].op == "mapcat" and ps[0].a[0] is slen(want)
            rep.ob(s.f.name + ":all-streams-listed", good, "the stripe footer lists %s" % short(strm), s.f)
            if good:
                b = single(ps[0].a[1])
                k = ctx.info_fields(at(want, mk("ix", ps[0].a[2])))
                for pf, nm in (("kind", "kind"), ("column", "column_id"), ("length", "length")):
                    got = some_of(proto_field(ctx, "Stream", b, pf)) if b is not None else None
                    rep.ob(s.f.name + ":stream:" + pf, got is k[nm], "%s is %s" % (pf, short(got or NULL)), s.f)
    rep.ob("stripe-footers", n >= 4, "only %d stripe footers" % n, w.fin.f)


# ------------------------------------------------------------------ C12/C13 (stripe encodings)
def footer_encodings(ctx, rep):
    w = writer(ctx, rep)
    n = 0
    for s in w.flush + [w.fin]:
        for st, me, sx, ii, new in flush_cases(ctx, rep, w, s):
            sp3, rest, sf = stripe_part(ctx, sx or [])
            if sf is None:
                continue
            n += 1
            d = w.data.get(me)
            c = proto_field(ctx, "StripeFooter", sf, "columns")
            ps = parts_of(c)
            good = len(ps) == 1 and ps[0].op == "sp" and ps[0].a[0].op == "child_enc" and ps[0].a[0].a[0] in (d, mk("after_idx", d), mk("after_dat", mk("after_idx", d)))
            rep.ob(s.f.name + ":encodings", good, "the stripe footer's encodings are %s" % short(c), s.f)
    rep.ob("encodings", n >= 4, "only %d stripe footers" % n, w.fin.f)


def timezone(ctx, rep):
    """timestamps count from 2015-01-01 in UTC, so every stripe footer must say so (readers take their own zone otherwise)"""
    w = writer(ctx, rep)
    n = 0
    for s in w.flush + [w.fin]:
        for st, me, sx, ii, new in flush_cases(ctx, rep, w, s):
            sp3, rest, sf = stripe_part(ctx, sx or [])
            if sf is None:
                continue
            n += 1
            z = some_of(proto_field(ctx, "StripeFooter", sf, "writerTimezone"))
            v = literal(parts_of(seqof(z))) if z is not None else None
            rep.ob(s.f.name + ":writerTimezone", v in (b"UTC", b"Etc/UTC"), "the stripe footer names %s as the writer's time zone" % (v if z is not None else "none"), s.f)
    rep.ob("timezone:footers", n >= 4, "only %d stripe footers" % n, w.fin.f)


# ------------------------------------------------------------------ C08 (file part)
def file_stats(ctx, rep):
    w = writer(ctx, rep)
    ix, nf = info_roles(ctx)
    fs = ctx.p.t(ctx.adt_ty("StripeInfo"))["variants"][0]["fields"]
    st_ = [i for i, f in enumerate(fs) if ctx.p.t(f["ty"])["k"] == "adt" and any(ctx.p.t(a).get("path", "").endswith("::Statistics") for a in ctx.p.t(f["ty"]).get("args", []) if a is not None)]
    if len(st_) != 1:
        raise Anchor("StripeInfo: no single list of statistics")
    si = st_[0]
    n = 0
    for s in w.flush + [w.fin]:
        tag = s.f.name
        for st, me, sx, ii, new in flush_cases(ctx, rep, w, s):
            sp3, rest, sf = stripe_part(ctx, sx or [])
            d = w.data.get(me)
            closed = (mk("child_stat", mk("after_idx", d)), mk("child_stat", mk("after_dat", mk("after_idx", d))))
            if new is None:
                ft = footer_of(sx)
                md = [m for m, f in (message(p, "Metadata") for p in rest) if m is not None]
                if ft is None or len(md) != 1:
                    rep.ob(tag + ":sections", False, "no metadata or footer", s.f)
                    continue
                base = listed_infos(ctx, proto_field(ctx, "Footer", ft, "stripes")) or w.infos.get(me)
                ii = suffix(base, w.infos.get(me))
                if ii is None:
                    rep.ob(tag + ":directory", False, "stripes already listed are changed", s.f)
                    continue
                # metadata: the statistics of each listed stripe, one per column, in order
                ss = proto_field(ctx, "Metadata", md[0], "stripeStats")
                ps = parts_of(ss)
                good = len(ps) == 1 and ps[0].op == "mapcat" and ps[0].a[0] is slen(base)
                if good:
                    b = single(ps[0].a[1])
                    good = b is not None
                    if good:
                        st_l = fld(at(base, mk("ix", ps[0].a[2])), None, si, nf)
                        good = proto_list(proto_field(ctx, "StripeStatistics", b, "colStats"), st_l)
                rep.ob(tag + ":stripe-statistics", good, "the metadata's stripe statistics are %s, expected those of each stripe in turn" % short(ss), s.f)
                # footer: merge over all stripes
                fs = proto_field(ctx, "Footer", ft, "statistics")
                X = toproto_base(fs)
                rep.ob(tag + ":file-statistics:per-column", X is not None, "the footer's statistics are %s" % short(fs), s.f)
                if X is not None:
                    dd = mk("data", *[None]) if False else None
                    cur = current_data(w, s, me, sp3)
                    rep.ob(tag + ":file-statistics", merged_ok(X, base, si, nf, cur), "file statistics are %s: not every stripe's statistics of the column, once" % short(X), s.f)
            if sp3:
                n += 1
                if not (ii and len(ii) == 1 and ii[0].op == "el"):
                    rep.ob(tag + ":entry", False, "no directory entry for the stripe", s.f)
                    continue
                got = fld(ii[0].a[0], None, si, nf)
                good = any(seqof(c) is seqof(got) or got is c for c in closed)
                rep.ob(tag + ":after-last-group", good, "the stripe's statistics are %s: not those after its last row group was closed" % short(got), s.f)
    rep.ob("stripe-statistics", n >= 4, "only %d stripes" % n, w.fin.f)


def current_data(w, s, me, sp3):
    """column trees the file statistics may start from: they must hold no values of their own"""
    d = w.data.get(me)
    out = []
    if not sp3:
        out.append(d)      # reached only with no rows held (C02/C11)
    return out


def proto_list(t, src):
    ps = parts_of(t)
    if len(ps) != 1 or ps[0].op != "mapcat" or ps[0].a[0] is not slen(src):
        return False
    b = single(ps[0].a[1])
    return b is mk("toproto", at(src, mk("ix", ps[0].a[2])))


def toproto_base(t):
    ps = parts_of(t)
    if len(ps) != 1 or ps[0].op != "mapcat":
        return None
    b = single(ps[0].a[1])
    if b is None or b.op != "toproto" or b.a[0].op != "at" or b.a[0].a[1] is not mk("ix", ps[0].a[2]):
        return None
    X = b.a[0].a[0]
    return X if ps[0].a[0] is slen(X) else None


def fresh_tree(x):
    return x.op == "data" and x.a[2] is I(0)


def alternatives(b):
    """the values a gated or undetermined value can be"""
    if b.op == "ite":
        return alternatives(b.a[1]) + alternatives(b.a[2])
    if b.op == "nondet":
        return [y for x in b.a for y in alternatives(x)]
    return [b]


def merged_ok(X, base, si, nf, cur):
    """X = fold over every listed stripe of (acc[i] := acc[i] merged with that stripe's statistic i), from statistics without values"""
    if X.op == "seq" and len(X.a) == 1 and X.a[0].op == "sp":
        X = X.a[0].a[0]
    if X.op != "fold" or len(X.a[1]) != 1 or len(X.a[2]) != 1:
        return False
    n, bodies, inits, k, j = X.a
    if n is not slen(base):
        return False
    init = inits[0]
    if init.op == "seq" and len(init.a) == 1 and init.a[0].op == "sp":
        init = init.a[0].a[0]
    if init.op != "child_stat" or not (fresh_tree(init.a[0]) or init.a[0] in cur):
        return False
    b = bodies[0]
    acc = mk("acc", k, 0)
    S = fld(at(base, mk("ix", k)), None, si, nf)
    # pairing two lists stops with the shorter; both have one entry per column (C12)
    alts = alternatives(b)
    if len(alts) > 1 and all(x.op == "each" and x.a[1:] == alts[0].a[1:] and x.a[0] in (slen(S), slen(acc)) for x in alts):
        b = alts[0]
    if b.op != "each" or b.a[1] is not acc or b.a[0] not in (slen(S), slen(acc)):
        return False
    e = mk("ix", b.a[3])
    return same_bag(bag(b.a[2]), bag(cat(mk("seq", mk("sp", at(acc, e))), mk("seq", mk("sp", at(S, e))))))


# ------------------------------------------------------------------ C11 (file part)
def verified_first(ctx, rep):
    w = writer(ctx, rep)
    num = rows_leaf(ctx, w)
    n = 0
    for s in w.flush + [w.fin]:
        me = w.old(s)
        rows = num.get(me)
        if s in w.flush:
            for i in range(1, s.f.argc):
                rows = add64(rows, s.arg(i))
        want = mk("verify", w.data.get(me), rows)
        for o in s.oks():
            n += 1
            g = parts_of(o.st.mem.get(("G", "verify"), EMPTY))
            rep.ob(s.f.name + ":verified", any(p.op == "el" and p.a[0] is want for p in g), "succeeds after checking %s, not that the column tree holds %s rows" % (short(mk("seq", *g)), rows), s.f)
        for o in s.errs():
            # no byte may be written before the check either
            t = w.bytes.get(s.new(o)) if s.roots[0] is not None else None
            if t is not None and t is not w.bytes.get(me):
                g = parts_of(o.st.mem.get(("G", "verify"), EMPTY))
                rep.ob(s.f.name + ":verified-before-bytes", any(p.op == "el" and p.a[0] is want for p in g), "writes bytes after checking only %s" % short(mk("seq", *g)), s.f)
    rep.ob("verified:exits", n >= 6, "only %d exits" % n, w.fin.f)


# ------------------------------------------------------------------ C15 (file part)
def one_codec(ctx, rep):
    w = writer(ctx, rep)
    cfgs = [l for l in w.leaves if l.kind == "config"]
    n = 0
    for s in w.steps + [w.fin]:
        me = w.old(s)
        comp = w.under(s, config_field(ctx, cfgs[0].get(me), "compression"))
        for o in s.rets:
            for p in parts_of(w.under(s, o.st.mem.get(("G", "new"), EMPTY))):
                if p.op == "sp" and p.a[0] is EMPTY:
                    continue
                n += 1
                rep.ob(s.f.name + ":codec", p.op == "el" and p.a[0].op == "new" and len(p.a[0].a) == 2 and p.a[0].a[1] is comp, "frames a section with %s instead of the configured %s" % (short(p), comp), s.f)
            if s.roots[0] is not None:
                for l in cfgs:
                    rep.ob(s.f.name + ":config-kept:" + l.name, l.get(s.new(o)) is l.get(me), "changes the configuration", s.f)
    for o in w.new.oks():
        t = o.val.a[2]
        ci = [i for i in range(w.new.f.argc) if ctx.p.t(w.new.f.locals[i + 1]).get("path", "").split("::")[-1] == "Config"]
        if len(ci) != 1:
            raise Anchor("Writer::new takes no Config")
        for l in cfgs:
            rep.ob("new:config:" + l.name, l.get(t) is w.new.arg(ci[0]), "works with %s" % short(l.get(t)), w.new.f)
        d = w.data.get(t)
        rep.ob("new:tree-config", d.op == "data" and d.a[1] is w.new.arg(ci[0]), "the columns get configuration %s" % (short(d.a[1]) if d.op == "data" else short(d)), w.new.f)
    rep.ob("codec:sections", n >= 10, "only %d framed sections" % n, w.fin.f)


# ------------------------------------------------------------------ C22 (file part)
def cut_when_exceeded(ctx, rep):
    w = writer(ctx, rep)
    cfgs = [l for l in w.leaves if l.kind == "config"]
    num = rows_leaf(ctx, w)
    n = m = 0
    for s in w.steps:
        me = w.old(s)
        if s not in w.flush:
            continue
        size = w.under(s, config_field(ctx, cfgs[0].get(me), "stripe_size"))
        est = mk("ret", "estimated_size", w.data.get(me))
        within = notb(neg(mathsub(size, est, 64)))     # est <= size
        rows = num.get(me)
        for i in range(1, s.f.argc):
            rows = add64(rows, s.arg(i))
        for o in s.oks():
            for st, new in cases(s, o.st, s.new(o)):
                new = w.under(s, new)
                b0 = w.under(s, w.bytes.get(me))
                st2 = restate(s, st, lambda t: w.under(s, t))
                if st2 is None:
                    continue
                sx = suffix(w.bytes.get(new), b0)
                r = s.eng.decide(st2, within)
                if sx == []:
                    n += 1
                    good = r is True or s.eng.decide(st2, eqz(rows)) is True
                    rep.ob(s.f.name + ":kept-only-within", good, "keeps the stripe although more than the stripe size may be buffered (%s)" % pcs(o), s.f)
                else:
                    m += 1
                    rep.ob(s.f.name + ":written-only-beyond", r is False, "writes a stripe although the stripe size is not exceeded (%s)" % pcs(o), s.f)
    rep.ob("cut:exits", n >= 1 and m >= 1, "%d exits keep and %d exits write the stripe" % (n, m), w.fin.f)


def restate(s, st, f):
    """the partition's facts under a rewriting, as a fresh state"""
    st2 = fresh_state()
    for c, v in st.pc:
        if not s.eng.assume(st2, f(c), v):
            return None
    return st2


# ------------------------------------------------------------------ C23 (file part)
def fresh_stripe(ctx, rep):
    w = writer(ctx, rep)
    sch = [l for l in w.leaves if l.kind == "schema"]
    cfgs = [l for l in w.leaves if l.kind == "config"]
    if not sch:
        raise Anchor("Writer keeps no schema to start the next stripe from")
    n = 0
    for o in w.new.oks():
        t = o.val.a[2]
        si = [i for i in range(w.new.f.argc) if "Schema" in ctx.p.t(w.new.f.locals[i + 1])["s"]]
        want = w.new.old(si[0]) if w.new.roots[si[0]] is not None else w.new.arg(si[0])
        for l in sch:
            rep.ob("new:schema:" + l.name, l.get(t) is want, "keeps schema %s" % short(l.get(t)), w.new.f)
        d = w.data.get(t)
        rep.ob("new:tree", d.op == "data" and d.a[0] is want and d.a[2] is I(0), "a new file starts with columns %s" % short(d), w.new.f)
    for s in w.steps:
        me = w.old(s)
        for o in (s.oks() if returns_result(ctx, s) else s.rets):
            for st, new in cases(s, o.st, s.new(o)):
                for l in sch + cfgs:
                    rep.ob(s.f.name + ":kept:" + l.name, l.get(new) is l.get(me), "%s changes" % l.name, s.f)
                if w.bytes.get(new) is w.bytes.get(me):
                    rep.ob(s.f.name + ":tree-kept", w.data.get(new) is w.data.get(me), "column data changes without a stripe being written: %s" % short(w.data.get(new)), s.f)
                    continue
                n += 1
                d = w.under(s, w.data.get(new))
                want = w.under(s, mk("data", sch[0].get(me), cfgs[0].get(me), I(0)))
                rep.ob(s.f.name + ":fresh-tree", d is want, "after a stripe the columns are %s, expected fresh ones of the same schema and configuration" % short(d), s.f)
    rep.ob("fresh:exits", n >= 1, "no exit writes a stripe", w.fin.f)


# ------------------------------------------------------------------ C17
def no_finish_after_failure(ctx, rep):
    """from the state in which any failed step leaves the writer, no later step or finish can succeed (unless nothing was changed)"""
    w = writer(ctx, rep)
    n = 0
    for s in w.steps:
        if not returns_result(ctx, s):
            continue
        me = w.old(s)
        for o in s.errs():
            for st, new in cases(s, o.st, s.new(o)):
                n += 1
                same = all(l.get(new) is l.get(me) for l in w.leaves)
                if same:
                    # nothing happened: either a retry is harmless or the writer was unusable already
                    continue
                for nx in w.flush + [w.fin]:
                    for q in nx.oks():
                        m = {w.old(nx): new}
                        for i in range(1, nx.f.argc):
                            m[nx.arg(i)] = mk("sym", "later_" + str(i))
                        dead = False
                        for c, v in q.st.pc:
                            r = s.eng.decide(st, subst(c, m))
                            if r is not None and r is not v:
                                dead = True
                                break
                        rep.ob("after-failed-%s:%s" % (s.f.name, nx.f.name), dead, "after %s failed (%s) a later %s can succeed: the writer is left as %s" % (s.f.name, pcs(o), nx.f.name, short(new)), s.f)
    rep.ob("failures", n >= 4, "only %d failing exits" % n, w.fin.f)
    # finish consumes the writer; a failed new returns none
    rep.ob("finish-consumes", w.fin.roots[0] is None, "finish does not consume the writer", w.fin.f)


# ------------------------------------------------------------------ C13
TYPEKIND = {"Boolean": "BOOLEAN", "Short": "SHORT", "Int": "INT", "Long": "LONG", "Date": "DATE", "Float": "FLOAT", "Double": "DOUBLE", "Timestamp": "TIMESTAMP",
            "Decimal": "DECIMAL", "String": "STRING", "VarChar": "VARCHAR", "Char": "CHAR", "Binary": "BINARY", "List": "LIST", "Map": "MAP", "Struct": "STRUCT", "Union": "UNION"}
IMPLEMENTS = {"Boolean": ["Boolean"], "Long": ["Short", "Int", "Long", "Date"], "Float": ["Float"], "Double": ["Double"], "Timestamp": ["Timestamp"], "Decimal": ["Decimal"],
              "String": ["String", "VarChar", "Char"], "Binary": ["Binary"], "List": ["List"], "Map": ["Map"], "Struct": ["Struct"], "Union": ["Union"]}


def copy_of(t, src):
    """t is element by element the list src"""
    if t is src or seqof(t) is seqof(src):
        return True
    ps = parts_of(t)
    return len(ps) == 1 and ps[0].op == "mapcat" and ps[0].a[0] is slen(src) and single(ps[0].a[1]) is at(src, mk("ix", ps[0].a[2]))


def schema_info(ctx):
    ty = ctx.p.t(ctx.adt_ty("Schema"))
    return [v["name"] for v in ty["variants"]], ty["variants"]


def footer_types(ctx, rep):
    tf = types_fn(ctx)
    s = ctx.summary(tf, writer_policy(ctx))
    rep.use(s)
    di, vi = kindof(ctx, tf)
    names, svs = schema_info(ctx)
    d = s.old(di)
    cols = variants(ctx)
    kinds = [v["name"] for v in ctx.p.t(proto_ty(ctx, "Type_Kind"))["variants"]]
    if set(TYPEKIND) != set(names):
        raise Anchor("schema variants %s differ from the table" % names)
    seen = set()
    for o in s.outs:
        # which (column kind, schema kind) pairs can be here
        pairs = []
        for col in cols:
            if s.eng.decide(o.st, eqint(mk("discr", d), I(col.idx), 64)) is False:
                continue
            me = fld(d, col.idx, 0, 1)
            sl = col.leaves("schema")
            for sn in IMPLEMENTS[col.name]:
                st2 = restate(s, o.st, lambda x: x)
                if not s.eng.assume(st2, eqint(mk("discr", d), I(col.idx), 64), True):
                    continue
                if sl and len(IMPLEMENTS[col.name]) > 1:
                    if not s.eng.assume(st2, eqint(mk("discr", sl[0].get(me)), I(names.index(sn)), 64), True):
                        continue
                pairs.append((col, me, sn))
        if o.kind == "panic":
            for col, me, sn in pairs:
                rep.ob("types:%s:panic" % sn, False, "describing a %s column can panic (%s)" % (sn, pcs(o)), s.f)
            continue
        out = s.new(o, vi) if vi is not None else o.val
        base = s.old(vi) if vi is not None else EMPTY
        for col, me, sn in pairs:
            seen.add(sn)
            tag = "types:" + sn
            sx = suffix(out, base)
            kids, subs = [], []
            for l in child_schema_order(ctx, col):
                t = l.get(me)
                if l.kind == "children":
                    kids.append(mk("mapcat", slen(t), mk("seq", mk("sp", mk("types", at(t, mk("ix", 1))))), 1))
                    subs.append(("each", t))
                else:
                    c = boxed(t) if l.kind == "boxchild" else t
                    kids.append(mk("sp", mk("types", c)))
                    subs.append(("one", c))
            got_kids = [norm_each(p) for p in (sx or [])[1:]]
            good = sx is not None and len(sx) >= 1 and sx[0].op == "el" and got_kids == [norm_each(k) for k in kids]
            if not rep.ob(tag + ":own-then-children", good, "appends %s" % short(mk("seq", *(sx or []))), s.f):
                continue
            t = sx[0].a[0]
            F = lambda n: proto_field(ctx, "Type", t, n)
            k = some_of(F("kind"))
            kn = kinds[k.a[1]] if k is not None and k.op == "agg" and isinstance(k.a[1], int) else None
            rep.ob(tag + ":kind", kn == TYPEKIND[sn], "a %s column is described as %s" % (sn, kn), s.f)
            sub = parts_of(F("subtypes"))
            want = []
            for m, c in subs:
                if m == "one":
                    want.append(mk("el", mk("colid", c)))
                else:
                    want.append(mk("mapcat", slen(c), el(mk("colid", at(c, mk("ix", 1)))), 1))
            rep.ob(tag + ":subtypes", [norm_each(p) for p in sub] == [norm_each(p) for p in want], "subtypes are %s" % short(F("subtypes")), s.f)
            fnm = F("fieldNames")
            if sn == "Struct":
                nl = name_leaf(ctx, col)
                rep.ob(tag + ":fieldNames", copy_of(fnm, nl.get(me)), "field names are %s" % short(fnm), s.f)
            else:
                rep.ob(tag + ":no-fieldNames", fnm is EMPTY, "field names are %s" % short(fnm), s.f)
            ml = F("maximumLength")
            if sn in ("Char", "VarChar"):
                want = fld(col.leaves("schema")[0].get(me), names.index(sn), 0, 1)
                rep.ob(tag + ":maximumLength", some_of(ml) is want, "maximum length is %s, the schema says %s" % (short(ml), short(want)), s.f)
            else:
                rep.ob(tag + ":no-maximumLength", is_none(ml), "maximum length is %s" % short(ml), s.f)
            for nm, i in (("precision", 0), ("scale", 1)):
                v = F(nm)
                if sn == "Decimal":
                    want = decimal_leaf(ctx, col, i)
                    rep.ob(tag + ":" + nm, any(some_of(v) is w(me) for w in want), "%s is %s" % (nm, short(v)), s.f)
                else:
                    rep.ob(tag + ":no-" + nm, is_none(v), "%s is %s" % (nm, short(v)), s.f)
    for sn in names:
        rep.ob("types:%s:covered" % sn, sn in seen, "no path describes a %s column" % sn, s.f)
    # the footer lists them, from the root of the writer's own column tree
    schemas = lambda w, me: [l.get(me) for l in w.leaves if l.kind == "schema"]
    for w, s, st, t, sx in finishes(ctx, rep):
        ft = footer_of(sx)
        if not rep.ob("footer:types:footer", ft is not None, "no footer", s.f):
            continue
        ps = parts_of(proto_field(ctx, "Footer", ft, "types"))
        me, good = w.old(s), False
        if len(ps) == 1 and ps[0].op == "sp" and ps[0].a[0].op == "types":
            x = w.under(s, ps[0].a[0].a[0])
            while x.op in ("after_idx", "after_dat"):
                x = x.a[0]
            good = x is w.under(s, w.data.get(me)) or x.op == "data" and x.a[2] is I(0) and any(x.a[0] is w.under(s, y) for y in schemas(w, me))
        rep.ob("footer:types", good, "the footer's types are %s, not those of the writer's columns" % short(mk("seq", *ps)), s.f)


def norm_each(p):
    """a map part with a canonical body"""
    if p.op == "mapcat":
        b = p.a[1]
        b = b if b.op == "seq" else mk("seq", mk("sp", b))
        return ("each", p.a[0], subst(b, {mk("ix", p.a[2]): mk("ix", 999)}))
    return p


def child_schema_order(ctx, col):
    from r_column import child_order
    ls = col.child_leaves()
    if len(ls) < 2:
        return ls
    s = ctx.summary(col.fn("new"), "column")
    a = new_args(ctx, col, s)
    for o in s.rets:
        r = child_order(ctx, col, s, o.val, s.old(a["schema"]))
        if len(r) == len(ls):
            return r
    raise Anchor("%s: children cannot be matched with the schema" % col.adt)


def name_leaf(ctx, col):
    c = [l for l in col.leaves("vec") if ctx.p.t(ctx.p.t(l.ty)["args"][0]).get("path", "").endswith("String")]
    if len(c) != 1:
        raise Anchor("%s: expected one list of field names" % col.adt)
    return c[0]


def decimal_leaf(ctx, col, i):
    """ways the column knows component i of its Decimal schema: a field set from it by new, or its own schema"""
    names, svs = schema_info(ctx)
    out = []
    s = ctx.summary(col.fn("new"), "column")
    a = new_args(ctx, col, s)
    want = fld(s.old(a["schema"]), names.index("Decimal"), i, 2)
    for l in col.leaves("num"):
        if s.rets and all(l.get(o.val) is want for o in s.rets):
            out.append(l.get)
    for l in col.leaves("schema"):
        out.append(lambda me, l=l: fld(l.get(me), names.index("Decimal"), i, 2))
    return out


def schema_kept(ctx, rep):
    """what a column remembers of its schema is the schema it was created for, and no operation changes it"""
    names, svs = schema_info(ctx)
    from r_column import mut_methods, use_effects
    for col in variants(ctx):
        ident = [l for l in col.leaves("schema")]
        if col.name == "Struct":
            ident.append(name_leaf(ctx, col))
        nums = []
        for s, o, t in news(ctx, col, rep):
            a = new_args(ctx, col, s)
            for l in col.leaves("schema"):
                rep.ob("%s::new:schema" % col.name, "schema" in a and l.get(t) is s.old(a["schema"]), "remembers schema %s" % short(l.get(t)), s.f)
            if col.name == "Struct":
                sch = s.old(a["schema"])
                vi = names.index("Struct")
                fields = fld(sch, vi, 0, 1)
                ft = ctx.p.t(svs[vi]["fields"][0]["ty"])
                g = ctx.p.t(ft["args"][0])["variants"][0]["fields"]
                j = [n for n, q in enumerate(g) if ctx.p.t(q["ty"]).get("path", "").endswith("String")]
                nm = name_leaf(ctx, col).get(t)
                ps = parts_of(nm)
                good = len(ps) == 1 and ps[0].op == "mapcat" and ps[0].a[0] is slen(fields) and single(ps[0].a[1]) is fld(at(fields, mk("ix", ps[0].a[2])), None, j[0], len(g))
                rep.ob("Struct::new:field-names", good, "field names are %s" % short(nm), s.f)
            if col.name == "Decimal":
                sch = s.old(a["schema"])
                for i, nm in ((0, "precision"), (1, "scale")):
                    want = fld(sch, names.index("Decimal"), i, 2)
                    ls = [l for l in col.leaves("num") if l.get(t) is want]
                    rep.ob("Decimal::new:" + nm, bool(ls) or bool(col.leaves("schema")), "the schema's %s is not remembered" % nm, s.f)
                    nums += ls
        for e in use_effects(rep, ctx, col):
            for l in ident + nums:
                rep.ob("%s:keeps:%s" % (e.tag, l.name), e.new[l.name] is e.old[l.name], "%s changes to %s" % (l.name, short(e.new[l.name])), e.f)
        for m in ("write_index_streams", "write_data_streams"):
            s = col.sum(m, "BaseData")
            rep.use(s)
            for o in s.rets:
                for l in ident + nums:
                    rep.ob("%s::%s:keeps:%s" % (col.name, m, l.name), l.get(s.new(o)) is l.get(s.old()), "%s changes" % l.name, s.f)


# ------------------------------------------------------------------ the Data enum
def data_policy(ctx):
    """calls of column methods are recorded, nothing of the columns is entered"""
    if hasattr(ctx, "_dp"):
        return ctx._dp
    adts = {c.adt: c for c in ctx.columns}

    def policy(eng, callee):
        if callee["fn"] is None:
            return None
        f = eng.p.fns[callee["fn"]]
        a = getattr(f, "impl_adt", None) if f is not None and f.local else None
        if a not in adts:
            return None
        name = f.name

        def m(eng, st, c, av, at_, dty, site):
            vals = []
            for v, t in zip(av, at_):
                y = eng.ty(t)
                if y["k"] == "ref":
                    r, p = layers.target(eng, v, t)
                    vals.append(eng.read(st, r, p))
                else:
                    vals.append(eng.value(st, v))
            ev = mk("call", adts[a].name, name, *vals)
            layers.log(st, "calls", ev)
            for i, (v, t) in enumerate(zip(av, at_)):
                y = eng.ty(t)
                if y["k"] == "ref" and y["mut"]:
                    r, p = layers.target(eng, v, t)
                    eng.write(st, r, p, mk("after", i, ev))
            return layers.ret(st, mk("callret", ev))
        return m
    ctx._dp = policy
    return policy


DISPATCHED = ("write_null", "column_id", "write_index_streams", "write_data_streams", "column_encodings", "statistics", "verify_row_count", "estimated_size")


def data_dispatch(ctx, rep):
    """each operation on the generic handle is exactly that operation on the column it holds"""
    adt = ctx.p.t(ctx.data_ty)["path"]
    fns = []
    for tr in ("GenericData", "BaseData"):
        fns += ctx.p.methods(adt, tr)
    rep.ob("dispatch:methods", set(DISPATCHED) <= set(f.name for f in fns), "the generic handle implements %s" % sorted(f.name for f in fns))
    for f in fns:
        s = ctx.summary(f, data_policy(ctx))
        rep.use(s)
        me = s.old(0)
        hit = set()
        for o in s.outs:
            cols = [c for c in ctx.columns if s.eng.decide(o.st, eqint(mk("discr", me), I(c.idx), 64)) is not False]
            tag = "dispatch:%s" % f.name
            if o.kind == "panic":
                rep.ob(tag + ":panic", not cols, "can panic for %s" % [c.name for c in cols], f)
                continue
            for c in cols:
                hit.add(c.name)
                args = [fld(me, c.idx, 0, 1)]
                args = [boxed(args[0])] if is_boxed(ctx, c) else args
                for i in range(1, f.argc):
                    args.append(s.old(i) if s.roots[i] is not None else s.arg(i))
                ev = mk("call", c.name, f.name, *args)
                g = o.st.mem.get(("G", "calls"), EMPTY)
                rep.ob(tag + ":" + c.name, g is el(ev), "calls %s" % short(g), f)
                rep.ob(tag + ":result:" + c.name, o.val is mk("callret", ev) or ctx.p.t(f.locals[0])["s"] == "()", "returns %s" % short(o.val) if o.val else "", f)
                for i in range(f.argc):
                    t = ctx.p.t(f.locals[i + 1])
                    if t["k"] != "ref":
                        continue
                    if not t["mut"]:
                        want = s.old(i)
                    else:
                        want = mk("after", i, ev)
                    got = s.new(o, i)
                    if i == 0 and t["mut"]:
                        got = fld(got, c.idx, 0, 1)
                        got = boxed(got) if is_boxed(ctx, c) else got
                    rep.ob(tag + ":effect:" + c.name, got is want, "leaves argument %d as %s" % (i, short(got)), f)
        rep.ob("dispatch:%s:covered" % f.name, hit == {c.name for c in ctx.columns}, "not every column kind is reached: %s" % sorted(hit), f)


def is_boxed(ctx, col):
    v = ctx.p.t(ctx.data_ty)["variants"][col.idx]
    return ctx.p.t(v["fields"][0]["ty"]).get("path", "").endswith("boxed::Box")


def data_new(ctx, rep):
    """each schema variant is implemented by its column kind, created for that schema, configuration and counter"""
    adt = ctx.p.t(ctx.data_ty)["path"]
    f = ctx.p.method(adt, "new")
    if f is None:
        raise Anchor("Data::new not found")
    s = ctx.summary(f, data_policy(ctx))
    rep.use(s)
    a = None

    class C:
        pass
    c = C()
    c.adt = adt
    a = new_args(ctx, c, s)
    if "schema" not in a:
        raise Anchor("Data::new takes no schema")
    sch = s.old(a["schema"])
    names, svs = schema_info(ctx)
    byname = {c.name: c for c in ctx.columns}
    impl = {sn: cn for cn, l in IMPLEMENTS.items() for sn in l}
    seen = set()
    for o in s.outs:
        poss = [n for i, n in enumerate(names) if s.eng.decide(o.st, eqint(mk("discr", sch), I(i), 64)) is not False]
        if o.kind == "panic":
            for n in poss:
                rep.ob("tree:%s:panic" % n, False, "creating a %s column can panic before its own constructor runs" % n, f)
            continue
        for n in poss:
            seen.add(n)
            col = byname[impl[n]]
            g = parts_of(o.st.mem.get(("G", "calls"), EMPTY))
            if not rep.ob("tree:%s:created-once" % n, len(g) == 1 and g[0].op == "el", "constructors called: %s" % short(mk("seq", *g)), f):
                continue
            ev = g[0].a[0]
            fn = col.fn("new")
            s2 = ctx.summary(fn, "column")
            b = new_args(ctx, col, s2)
            want = [None] * fn.argc
            for k, i in b.items():
                want[i] = s.old(a[k]) if k in a else None
            good = ev.a[0] == col.name and ev.a[1] == "new" and list(ev.a[2:]) == want
            rep.ob("tree:%s:constructor" % n, good, "a %s schema is implemented by %s" % (n, short(ev)), f)
            v = o.val
            pay = fld(v, col.idx, 0, 1) if v.op == "agg" and v.a[1] == col.idx else None
            pay = boxed(pay) if pay is not None and is_boxed(ctx, col) else pay
            rep.ob("tree:%s:variant" % n, pay is mk("callret", ev), "returned as %s" % short(v), f)
            rep.ob("tree:%s:counter" % n, s.new(o, a["cid"]) is mk("after", b["cid"], ev), "the column counter becomes %s" % short(s.new(o, a["cid"])), f)
    for n in names:
        rep.ob("tree:%s:covered" % n, n in seen, "no column is created for %s" % n, f)


def accessors(ctx, rep):
    """typed accessors and child accessors return a reference to exactly that column"""
    adt = ctx.p.t(ctx.data_ty)["path"]
    n = 0
    for f in ctx.p.methods(adt):
        if not f.argc or not f.reach:
            continue
        t, r = ctx.p.t(f.locals[1]), ctx.p.t(f.locals[0])
        if t["k"] != "ref" or r["k"] != "ref":
            continue
        cols = [c for c in ctx.columns if c.ty == r["e"]]
        if len(cols) != 1:
            continue
        c = cols[0]
        n += 1
        tag = "accessor:" + f.name
        rep.ob(tag + ":name", not f.name.startswith("unwrap_") or f.name == "unwrap_" + c.name.lower(), "%s gives access to a %s column" % (f.name, c.name), f)
        s = ctx.summary(f, data_policy(ctx))
        rep.use(s)
        me = s.old(0)
        is_c = eqint(mk("discr", me), I(c.idx), 64)
        rets = 0
        for o in s.outs:
            k = s.eng.decide(o.st, is_c)
            if o.kind == "panic":
                rep.ob(tag + ":panics-on-others-only", k is False, "can panic for a %s column" % c.name, f)
                continue
            rets += 1
            rep.ob(tag + ":only-that-kind", k is True, "returns for columns of another kind", f)
            want = (("v", c.idx, 0),) + ((("bx",),) if is_boxed(ctx, c) else ())
            rep.ob(tag + ":that-column", ref_is(o.val, s.roots[0], want), "returns %s" % short(o.val), f)
            rep.ob(tag + ":unchanged", s.new(o, 0) is me, "changes the column tree", f)
        rep.ob(tag + ":exits", rets > 0, "never returns", f)
    rep.ob("accessors:typed", n >= 12, "only %d typed accessors" % n)
    # children of nested columns
    for c in variants(ctx):
        leaves = c.child_leaves()
        if not leaves:
            continue
        order = child_schema_order(ctx, c)
        got = 0
        for f in ctx.p.methods(c.adt):
            if not f.reach or not f.argc or ctx.p.t(f.locals[1])["k"] != "ref" or not ctx.p.t(f.locals[1])["mut"]:
                continue
            r = ctx.p.t(f.locals[0])
            if not mentions_data(ctx, f.locals[0]):
                continue
            got += 1
            s = c.sum(f.name)
            rep.use(s)
            tag = "child:%s::%s" % (c.name, f.name)
            me = s.old(0)
            for o in s.outs:
                if o.kind == "panic":
                    # only an index out of range may be refused
                    l = leaves[0]
                    good = l.kind == "children" and f.argc == 2 and s.eng.decide(o.st, neg(mathsub(s.arg(1), slen(l.get(me)), 64))) is False
                    rep.ob(tag + ":panic", good, "can panic (%s)" % pcs(o), f)
                    continue
                rep.ob(tag + ":unchanged", s.new(o, 0) is me, "changes the column", f)
                v = o.val
                if len(leaves) == 1 and leaves[0].kind == "children":
                    path = leaf_path(leaves[0])
                    if f.argc == 2 and r["k"] == "ref":
                        good = ref_is(v, s.roots[0], path + (("at", s.arg(1)),))
                    else:
                        good = whole_slice(v, s.roots[0], path, slen(leaves[0].get(me)))
                    rep.ob(tag, good, "returns %s" % short(v), f)
                elif r["k"] == "tuple":
                    vs = [fld(v, None, i, len(r["es"])) for i in range(len(r["es"]))]
                    rep.ob(tag, len(vs) == len(order) and all(ref_is(x, s.roots[0], leaf_path(l)) for x, l in zip(vs, order)), "returns %s" % short(v), f)
                else:
                    if len(order) == 1:
                        want = order[0]
                    else:
                        pos = {"keys": 0, "key": 0, "values": 1, "value": 1}.get(f.name)
                        if pos is None:
                            rep.ob(tag + ":known", any(ref_is(v, s.roots[0], leaf_path(l)) for l in order), "returns %s" % short(v), f)
                            continue
                        want = order[pos]
                    rep.ob(tag, ref_is(v, s.roots[0], leaf_path(want)), "returns %s" % short(v), f)
        rep.ob("child:%s:accessible" % c.name, got >= 1 or any(field_public(ctx, c, l) for l in leaves), "no accessor gives access to the children")
    w = writer(ctx, rep)
    n = 0
    for f in w.methods:
        if f.argc and f.locals[0] and ctx.p.t(f.locals[0])["k"] == "ref" and ctx.p.t(f.locals[0])["e"] == ctx.data_ty:
            n += 1
            s = w.sum(f.name)
            for o in s.outs:
                rep.ob("writer:" + f.name, o.kind == "ret" and ref_is(o.val, s.roots[0], leaf_path(w.data)), "returns %s" % short(o.val) if o.val else "panics", f)
    rep.ob("writer:root", n >= 1, "the writer hands out no column tree")


def leaf_path(l):
    out = tuple(("f", i) for v, i, n in l.path)
    return out + ((("bx",),) if l.kind == "boxchild" else ())


def norm_path(p):
    out = []
    for x in p:
        if x[0] == "f" and out and False:
            continue
        out.append(x)
    return tuple(out)


def ref_is(v, root, path):
    return v is not None and v.op == "ref" and tuple(v.a[0]) == tuple(root) and tuple(map(tuple, v.a[1])) == tuple(path)


def whole_slice(v, root, path, n):
    if v is None or v.op != "ref" or tuple(v.a[0]) != tuple(root):
        return False
    p = tuple(map(tuple, v.a[1]))
    return p == tuple(path) or p == tuple(path) + (("rng", I(0), n),)


def mentions_data(ctx, ty):
    t = ctx.p.t(ty)
    if ty == ctx.data_ty:
        return True
    if t["k"] in ("ref", "slice", "array"):
        return mentions_data(ctx, t["e"])
    if t["k"] == "tuple":
        return any(mentions_data(ctx, e) for e in t["es"])
    return False


def field_public(ctx, col, l):
    return False
