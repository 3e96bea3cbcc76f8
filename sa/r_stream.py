"""Compressed streams: every write prolongs blocks-then-pending by exactly the bytes given, finish frames the blocks (C14);
positions name the block and the offset in it (C07)."""
from terms import *
import terms
from orc import *
from engine import Out, State, Giveup, NeedSplit
from layers import adt_of, varint
from models import ret, ok, err, target, tv, upd
from r_rle import Content, Bad
import r_writer as rw

MAXB = 8388607


def seqpath(p, ty):
    """path of fields to the one byte vector inside a type (a Vec<u8> or wrappers of it)"""
    y = p.t(ty)
    if y["k"] == "adt" and y["path"].split("::")[-1] == "Vec" and y.get("args") and p.t(y["args"][0])["s"] == "u8":
        return ()
    if y["k"] == "adt" and y.get("local") and y["kind"] == "struct" and y["variants"]:
        found = [(i, seqpath(p, f["ty"])) for i, f in enumerate(y["variants"][0]["fields"])]
        found = [(i, q) for i, q in found if q is not None]
        if len(found) == 1:
            return (("f", found[0][0]),) + found[0][1]
    return None


# ------------------------------------------------------------------ what a codec library call leaves
def m_compress(eng, st, c, av, at_, dty, site):
    """<dyn Compressor>::compress(input, output): output := output . comp(input)   (decided for each codec by rule adapters)"""
    d = eng.value(st, tv(eng, st, av[1], at_[1]))
    q = seqpath(eng.p, eng.pointee(at_[2]))
    if q is None:
        raise Giveup("compressor output is not a byte vector")
    r, p = target(eng, av[2], at_[2])
    p = tuple(p) + q
    eng.write(st, r, p, cat(eng.read(st, r, p), mk("seq", mk("sp", mk("comp", d)))))
    return ret(st, UNIT)


def stream_layer(eng, callee):
    a = adt_of(eng, callee)
    m = callee["decl"].split("::")[-1]
    if (callee.get("trait") or "").endswith("Compressor") and m == "compress" and callee.get("fn") is None:
        return m_compress
    return None


def discr_is(eng, t, ty, k):
    return eqz(sub(eng.discr_of(t, ty), I(k), 64), 64)


class Stream:
    def __init__(self, ctx, rep):
        self.ctx, self.p, self.rep = ctx, ctx.p, rep
        self.ty = ctx.adt_ty("CompressionStream")
        self.adt = self.p.t(self.ty)["path"]
        self.f_new = self.method("new")
        fs = self.p.t(self.ty)["variants"][0]["fields"]
        self.n = len(fs)
        self.comp = self.bs = self.infos = None
        seqs = []
        for i, f in enumerate(fs):
            y = self.p.t(f["ty"])
            last = y.get("path", "").split("::")[-1]
            q = seqpath(self.p, f["ty"])
            if q is not None:
                seqs.append((i,) + q)
            elif last == "Option":
                self.comp = i
                self.comp_ty = f["ty"]
            elif y["k"] == "int" and self.bs is None:
                self.bs = i
            elif last == "Vec":
                self.infos = i
        if None in (self.comp, self.bs, self.infos) or len(seqs) != 2:
            raise Anchor("CompressionStream: cannot tell its codec, block size, blocks and two byte buffers apart")
        self.seqs = seqs
        self.eng = ctx.engine(stream_layer, fork_asserts=True)
        self.root = ("P", "self")
        self.me = self.eng.annotate(mk("sym", "self", self.p.t(self.ty)["s"]), self.ty)
        self.eng.rty[self.root] = self.ty
        self.eng.cut = self.cut
        self.cuts = 0
        self.header = None
        self.find_pending()

    def method(self, name, trait=None):
        fs = [f for f in self.p.methods(self.adt, trait) if f.name == name]
        if len(fs) != 1:
            raise Anchor("%s::%s not found" % (self.adt, name))
        return fs[0]

    def fld(self, o, i):
        return fld(o, None, i, self.n)

    def seq(self, o, path):
        t = self.fld(o, path[0])
        ty = self.p.t(self.ty)["variants"][0]["fields"][path[0]]["ty"]
        for _, i in path[1:]:
            vs = self.p.t(ty)["variants"][0]["fields"]
            t = fld(t, None, i, len(vs))
            ty = vs[i]["ty"]
        return t

    def pend(self, o):
        return self.seq(o, self.pending)

    def outp(self, o):
        return self.seq(o, self.output)

    def blocks(self, o):
        return self.fld(o, self.infos)

    def start(self, compressed):
        st = State()
        st.mem[self.root] = self.me
        st.mem[("G", "base")] = self.me
        good = self.assume_inv(st, self.me, compressed)
        st.pc = ()
        return st if good else None

    def assume_inv(self, st, o, compressed):
        e = self.eng
        B = self.fld(o, self.bs)
        good = e.assume(st, discr_is(e, self.fld(o, self.comp), self.comp_ty, 1), compressed)
        if compressed:
            good = good and e.assume(st, terms.neg(terms.mathsub(B, I(1), 64)), False)
            good = good and e.assume(st, terms.neg(terms.mathsub(I(MAXB), B, 64)), False)
            if getattr(self, "pending", None):
                good = good and e.assume(st, terms.neg(terms.mathsub(B, slen(self.pend(o)), 64)), False)
        return good

    def call(self, st, f, args=()):
        av = [mk("ref", self.root, ())]
        for i in range(1, f.argc):
            if i - 1 < len(args):
                av.append(args[i - 1])
                continue
            ty = f.locals[i + 1]
            y = self.p.t(ty)
            if y["k"] == "ref":
                r = ("P", "arg%d" % i)
                self.eng.rty[r] = y["e"]
                st.mem[r] = self.eng.annotate(mk("sym", "arg%d" % i, self.p.t(y["e"])["s"]), y["e"])
                av.append(mk("ref", r, ()))
            else:
                av.append(self.eng.annotate(mk("sym", "arg%d" % i, self.p.t(ty)["s"]), ty))
        try:
            outs = self.eng.call_fn(f, av, st)
        except (Giveup, NeedSplit) as x:
            raise Anchor("%s: cannot analyse: %s" % (f.path, x))
        self.rep.parts += len(outs)
        return outs

    def find_pending(self):
        """the buffer an uncompressed byte is appended to, by write_u8"""
        self.w8 = self.method("write_u8")
        got = set()
        self.eng.cut = None
        for o in self.call(self.start(False), self.w8):
            if o.kind != "ret":
                continue
            new = o.st.mem[self.root]
            for q in self.seqs:
                if self.seq(new, q) is not self.seq(self.me, q):
                    got.add(q)
        self.eng.cut = self.cut
        if len(got) != 1:
            raise Anchor("CompressionStream::write_u8 appends to %d buffers" % len(got))
        self.pending = got.pop()
        self.output = [q for q in self.seqs if q != self.pending][0]

    # -------------------------------------------------- finish: how a block is framed
    def find_header(self, rep):
        """finish with a codec and nothing pending: blocks -> bytes.  Learns header(info), length(info)."""
        f = self.method("finish")
        ok_seen = False
        st = self.start(True)
        self.eng.assume(st, eqz(slen(self.pend(self.me))), True)
        st.pc = ()
        self.eng.cut = None
        outs = self.call(st, f)
        self.eng.cut = self.cut
        for o in outs:
            if o.kind == "panic":
                continue
            if is_err(o.val):
                continue
            w0 = mk("sym", "arg1", self.p.t(self.eng.rty[("P", "arg1")])["s"])
            for s, t in rw.open_term(self.eng, o.st, o.st.mem[("P", "arg1")]):
                ps = parts_of(t)
                if not (ps and ps[0] is mk("sp", w0)):
                    rep.ob("finish:appends", False, "finish does not append to the destination: %s" % short(t, 200), f)
                    continue
                ps = ps[1:]
                n = self.blocks(self.me)
                if not ps and self.eng.decide(s, eqz(slen(n))) is True:
                    continue
                if len(ps) != 1 or ps[0].op != "mapcat" or ps[0].a[0] is not slen(n):
                    rep.ob("finish:every-block", False, "finish does not write one piece per block: %s" % short(mk("seq", *ps), 400), f)
                    continue
                ok_seen = True
                rep.ob("finish:every-block", True)
                self.learn(rep, f, s, ps[0].a[1], ps[0].a[2])
        rep.ob("finish:found", ok_seen, "no successful finish that writes the blocks", f)
        return self.header is not None

    def learn(self, rep, f, s, body, k):
        from bits import Bits, Z
        body = zip_ite(body)
        me_infos = self.blocks(self.me)
        ix = mk("ix", k)
        info = at(me_infos, ix)
        out = self.outp(self.me)
        ps = parts_of(body)
        if len(ps) != 4 or any(x.op != "el" for x in ps[:3]) or ps[3].op != "sp" or ps[3].a[0].op != "slice" or ps[3].a[0].a[0] is not out:
            rep.ob("finish:block-form", False, "a block is not written as three bytes and a part of the stored bytes: %s" % short(body, 500), f)
            return
        lo, hi = ps[3].a[0].a[1], ps[3].a[0].a[2]
        g = sub64(hi, lo)
        good = contains(g, lambda x: x is info) or g.op == "fld"
        # consecutive: lo(0) = 0 and lo(i+1) = hi(i), i.e. lo is the sum of the lengths before
        seq_ok = False
        for b in (lo,):
            if b.op == "sum" and b.a[0] is ix:
                seq_ok = subst(b.a[1], {mk("ix", b.a[2]): ix}) is g
        rep.ob("finish:consecutive", seq_ok and good, "block contents are taken from %s to %s: not consecutive parts of the stored bytes" % (short(lo, 200), short(hi, 200)), f)
        B = Bits()
        want = None
        bits = []
        for x in ps[:3]:
            bits += list(B(x.a[0], 8))
        gb = B(g, 64)
        # either for every block, or (a header put together beforehand) for each block where it is recorded
        self.hbytes = [x.a[0] for x in ps[:3]]
        self.generic = all(bits[j] == gb[j - 1] for j in range(1, 24))
        if not self.generic and not all(any(isinstance(y[0], T) and contains(y[0], lambda z: z is info) for y in bits[j]) for j in range(1, 24)):
            rep.ob("finish:header-length", False, "the header's upper 23 bits are not the length of the bytes that follow: %s" % short(mk("seq", *ps[:3]), 300), f)
        self.header = (info, bits[0], g, ps[0].a[0])
        for x in bits[0]:
            if not (isinstance(x[0], T) and contains(x[0], lambda y: y is info)):
                if x != ("1",):
                    rep.ob("finish:header-flag", False, "the header's lowest bit is not a property of the block: %s" % short(ps[0].a[0], 300), f)
        # afterwards nothing is left

    def info_len(self, v):
        return subst(self.header[2], {self.header[0]: v})

    def info_head(self, v):
        """does a block recorded as v get its length in the header's upper 23 bits?"""
        from bits import Bits
        B = Bits()
        hb = [b for x in self.hbytes for b in B(subst(x, {self.header[0]: v}), 8)]
        gb = B(self.info_len(v), 64)
        return all(hb[j] == gb[j - 1] for j in range(1, 24))

    def info_orig(self, st, v):
        """is the block marked as stored uncompressed? True/False/None"""
        from bits import Bits, Z, O
        t = subst(self.header[3], {self.header[0]: v})
        known = {}
        b = Bits(known)(t, 1)[0]
        if b == O:
            return True
        if b == Z:
            return False
        if len(b) == 1:
            (x,) = b
            d = self.eng.decide(st, x[0]) if x[0].op not in ("int",) else None
            return d
        return None

    # -------------------------------------------------- what happened between two states
    def since(self, new, old):
        """parts appended to a sequence"""
        if new is old:
            return []
        ps, qs = parts_of(new), parts_of(old)
        if ps and ps[0].op == "sp" and ps[0].a[0] is old:
            return list(ps[1:])
        if qs is not None and list(ps[:len(qs)]) == list(qs):
            return list(ps[len(qs):])
        return None

    def delta(self, st, old, new, compressed):
        """(contents of the blocks completed in between, as content items); raises Bad"""
        e = self.eng
        c = Content(e, st, 8)
        for i in (self.comp, self.bs):
            if self.fld(new, i) is not self.fld(old, i):
                raise Bad("the codec or the block size changes")
        infos = self.since(self.blocks(new), self.blocks(old))
        parts = self.since(self.outp(new), self.outp(old))
        if infos is None or parts is None:
            raise Bad("blocks already completed change: %s / %s" % (short(self.blocks(new), 150), short(self.outp(new), 150)))
        if not compressed:
            if infos or parts:
                raise Bad("blocks appear without a codec")
            return c, []
        done = []
        Bsz = self.fld(old, self.bs)
        parts = list(parts)
        for q in infos:
            if q.op != "el":
                raise Bad("blocks in an unknown form: %s" % short(q, 200))
            v = q.a[0]
            L = self.info_len(v)
            orig = self.info_orig(st, v)
            if not self.generic and not self.info_head(v):
                raise Bad("the header's upper 23 bits are not the length of the bytes that follow: %s" % short(v, 200))
            if orig is None:
                raise Bad("cannot tell whether the block is marked uncompressed: %s" % short(v, 200))
            if not orig:
                if not parts or parts[0].op != "sp" or parts[0].a[0].op != "comp":
                    raise Bad("a block marked compressed holds %s" % short(mk("seq", *parts[:2]), 200))
                x = parts.pop(0).a[0]
                if not c.leq(slen(x), L):
                    raise Bad("a compressed block's recorded length %s is not that of the compressed bytes" % short(L, 150))
                raw = c.of(x.a[0])
                n = slen(x.a[0])
                if not c.le(slen(x), n):
                    raise Bad("a block is stored compressed although that may be longer than its contents")
            else:
                raw = []
                got = I(0)
                while not c.leq(got, L):
                    if not parts:
                        raise Bad("a block of recorded length %s holds %s bytes" % (short(L, 100), short(got, 100)))
                    x = parts.pop(0)
                    if x.op == "sp" and x.a[0].op == "comp":
                        raise Bad("a block marked uncompressed holds compressed bytes")
                    its = c.of(mk("seq", x))
                    raw += its
                    got = add64(got, c.total(its))
                    if c.le(got, L) is not True:
                        raise Bad("a block of recorded length %s holds at least %s bytes" % (short(L, 100), short(got, 100)))
                n = got
            if not c.le(I(1), n):
                raise Bad("a block may be empty: %s" % short(n, 150))
            if not c.le(n, Bsz):
                raise Bad("a block may hold %s bytes, more than the block size" % short(n, 150))
            done += raw
        if parts:
            raise Bad("stored bytes that belong to no block: %s" % short(mk("seq", *parts), 200))
        return c, done

    def inv(self, st, o, compressed, c):
        if compressed and not c.le(slen(self.pend(o)), self.fld(o, self.bs)):
            raise Bad("the bytes pending (%s) may exceed the block size" % short(slen(self.pend(o)), 100))

    def holds(self, st, old, rem_old, new, rem_new, compressed):
        """None, or why blocks.pending.rest is not what it was"""
        try:
            for s, t in rw.open_term(self.eng, st, new):
                if not self.eng.consistent(s):
                    continue
                c, done = self.delta(s, old, t, compressed)
                after = done + c.of(self.pend(t)) + c.of(rem_new)
                before = c.of(self.pend(old)) + c.of(rem_old)
                d = c.eq(after, before)
                if d:
                    return d
                self.inv(s, t, compressed, c)
        except Bad as x:
            return str(x)
        return None

    # -------------------------------------------------- loops: induction on one round
    def cut(self, eng, fr, header, body, st0, tr0, locs, likes):
        if ("P", "self") not in st0.mem or self.header is None or self.cur is None:
            return None
        compressed, arg = self.cur
        base, brem = st0.mem[("G", "base")], st0.mem.get(("G", "rem"), arg)
        phis = dict(locs)
        if not any(r == self.root for r, p in phis):
            return None
        # a loop of the buffer's own that only fills it has a closed form
        if self.adt not in fr.f.path and all(r != self.root or (p and p[0] == self.pending[0]) for r, p in phis):
            return None
        st = st0.fork()
        st.pc = ()
        st.trace = ()
        for (root, path), phi in phis.items():
            st.mem[root] = eng.put(st.mem[root], path, phi, likes.get(root))
        head = st.mem[self.root]
        B0 = self.fld(head, self.bs)
        if any(r == self.root and p and p[0] in (self.comp, self.bs) for r, p in phis):
            return None
        # candidates for what remains to be written
        cands = []
        for (root, path), phi in phis.items():
            init = eng.get(st0.mem[root], path, like=likes.get(root))
            if root == self.root:
                continue

            def getter(kind, root=root, path=path):
                def f(s):
                    v = eng.get(s.mem[root], path, like=likes.get(root))
                    if kind == "ref":
                        return eng.value(s, eng.deref(s, v)) if v.op in ("ref", "phi", "ite") else None
                    return slice_(brem, v, slen(brem))
                return f
            if init.op == "ref":
                cands.append(("%s%s" % (root[-1], list(path)), getter("ref")))
            elif isint(init) and init.a[0] == 0:
                cands.append(("%s%s from" % (root[-1], list(path)), getter("int")))
        why = []
        for name, rem in cands:
            s1 = st.fork()
            s1.mem[("G", "base")] = head
            try:
                rh = rem(s1)
                r0 = rem(st0)
                if rh is None or r0 is None:
                    continue
                s1.mem[("G", "rem")] = rh
                d = self.holds(st0, base, brem, st0.mem[self.root], r0, compressed)
                if d:
                    why.append("%s: before the loop: %s" % (name, d))
                    continue
                if not self.assume_inv(s1, head, compressed):
                    continue
                if rh.op == "slice" and not isint(rh.a[1]) and slen(brem) is rh.a[2]:
                    # an index into the argument stays within it (proved at the back edge)
                    eng.assume(s1, terms.neg(terms.mathsub(rh.a[2], rh.a[1], 64)), False)
                s1.pc = ()
                outs = eng.run(fr, header, s1, (header, body))
            except (Giveup, NeedSplit) as x:
                why.append("%s: %s" % (name, x))
                continue
            bad = None
            for o in outs:
                if o.kind != "back":
                    continue
                self.rep.parts += 1
                r1 = rem(o.st)
                bad = self.holds(o.st, head, rh, o.st.mem[self.root], r1, compressed) if r1 is not None else "the rest is lost"
                if not bad and rh.op == "slice" and r1.op == "slice" and not Content(eng, o.st, 8).le(r1.a[1], r1.a[2]):
                    bad = "the index may leave the argument"
                if not bad and compressed and self.stuck(o.st, head, rh, o.st.mem[self.root], r1):
                    bad = "a round that takes no byte leaves everything as it was, so the loop never ends"
                if bad:
                    why.append("%s: %s" % (name, bad))
                    break
            if bad:
                continue
            self.cuts += 1
            self.rep.ob("%s:round" % fr.f.path.split("::")[-1], True)
            res = []
            for o in outs:
                if o.kind == "back":
                    continue
                o.st.pc = st0.pc + o.st.pc
                o.st.trace = tr0 + o.st.trace
                res.append(o)
            return res
        self.rep.ob("%s:round" % fr.f.path.split("::")[-1], False, "a round of the loop does not keep blocks, pending bytes and the rest equal to what was there before: %s" % "; ".join(why)[:1200], fr.f)
        return None

    def stuck(self, st, old, rem_old, new, rem_new):
        """a round can leave what is to be written and what is pending as they are: it would repeat for ever"""
        s = st.fork()
        if not self.eng.assume(s, eqz(terms.sub(slen(rem_new), slen(rem_old), 64)), True):
            return False
        return self.eng.decide(s, eqz(terms.sub(slen(self.pend(new)), slen(self.pend(old)), 64))) is True

    cur = None

    def transition(self, f, arg, what, args=()):
        """f appends `arg` to the stream's content on every path"""
        rep = self.rep
        for compressed in (True, False):
            st = self.start(compressed)
            a = arg(self, f)
            self.cur = (compressed, a)
            outs = self.call(st, f, args)
            self.cur = None
            n = 0
            tag = "%s:%s" % (what, "codec" if compressed else "plain")
            for o in outs:
                if o.kind == "panic":
                    rep.ob(tag + ":no-panic", False, "%s panics: %s" % (what, o.info), f)
                    continue
                n += 1
                base, brem = o.st.mem[("G", "base")], o.st.mem.get(("G", "rem"), a)
                d = self.holds(o.st, base, brem, o.st.mem[self.root], EMPTY, compressed)
                rep.ob(tag + ":content", d is None, "%s: the stream is not prolonged by exactly the bytes given: %s [%s]" % (what, d, "; ".join("%s=%s" % (short(c, 70), v) for c, v in o.st.pc[-6:])), f)
                if what == "write":
                    rep.ob(tag + ":accepts-all", is_ok(o.val) and o.val.a[2] is slen(arg(self, f)), "Write::write reports %s" % short(o.val, 150), f)
            rep.ob(tag + ":returns", n > 0, "%s never returns" % what, f)


def arg_byte(S, f):
    return mk("seq", mk("el", S.eng.annotate(mk("sym", "arg1", S.p.t(f.locals[2])["s"]), f.locals[2])))


def arg_bytes(S, f):
    e = S.p.t(f.locals[2])["e"]
    return S.eng.annotate(mk("sym", "arg1", S.p.t(e)["s"]), e)


def framing(ctx, rep):
    S = Stream(ctx, rep)
    eng = S.eng
    # a new stream is empty and has the codec of its configuration
    if not S.find_header(rep):
        return
    S.transition(S.w8, arg_byte, "write_u8")
    S.transition(S.method("write_bytes"), arg_bytes, "write_bytes")
    for f in ctx.p.methods(S.adt, "Write"):
        if f.name == "write":
            S.transition(f, arg_bytes, "write")
        elif f.name == "flush":
            S.transition(f, lambda S, f: EMPTY, "flush")
    finish(S, rep)
    rep.fns |= set(eng.p.fns[i].path for i in eng.fns_seen if eng.p.fns[i].local)


def finish(S, rep):
    f = S.method("finish")
    eng = S.eng
    me = S.me
    for compressed in (True, False):
        st = S.start(compressed)
        outs = S.call(st, f)
        n = 0
        tag = "finish:%s" % ("codec" if compressed else "plain")
        for o in outs:
            if o.kind == "panic":
                continue        # reading past the stored bytes: excluded by the lengths adding up to them
            if is_err(o.val):
                continue
            n += 1
            new = o.st.mem[S.root]
            w0 = mk("sym", "arg1", S.p.t(eng.rty[("P", "arg1")])["s"])
            good = S.fld(new, S.comp) is S.fld(me, S.comp) and S.fld(new, S.bs) is S.fld(me, S.bs)
            rep.ob(tag + ":codec-kept", good, "finish changes the codec or the block size", f)
            for what, t in (("pending bytes", S.pend(new)), ("stored bytes", S.outp(new)), ("blocks", S.blocks(new))):
                old = {"pending bytes": S.pend(me), "stored bytes": S.outp(me), "blocks": S.blocks(me)}[what]
                l = slen(t)
                empty = (isint(l) and l.a[0] == 0) or eng.decide(o.st, eqz(l)) is True
                rep.ob(tag + ":left-empty", empty or (not compressed and what != "pending bytes" and t is old), "after finish the stream still holds %s: %s" % (what, short(t, 150)), f)
            for s, t in rw.open_term(eng, o.st, o.st.mem[("P", "arg1")]):
                ps = S.since(t, w0)
                if ps is None:
                    rep.ob(tag + ":appends", False, "finish does not append to the destination: %s" % short(t, 200), f)
                    continue
                if not compressed:
                    c = Content(eng, s, 8)
                    try:
                        d = c.eq(c.of(mk("seq", *ps)), c.of(S.pend(me)))
                    except Bad as x:
                        d = str(x)
                    rep.ob(tag + ":unframed", d is None, "without a codec finish writes something else than the bytes: %s" % d, f)
                    continue
                # with a codec: the pending bytes become the last block, then every block is written
                if not ps and eng.decide(s, eqz(slen(S.blocks(me)))) is True and eng.decide(s, eqz(slen(S.pend(me)))) is True:
                    rep.ob(tag + ":blocks", True)
                    continue
                if len(ps) != 1 or ps[0].op != "mapcat":
                    rep.ob(tag + ":blocks", False, "finish does not write one piece per block: %s" % short(mk("seq", *ps), 400), f)
                    continue
                body, k = ps[0].a[1], ps[0].a[2]
                ix = mk("ix", k)
                # the lists finish writes from
                cand = [x.a[0] for x in terms_of(body) if x.op == "at" and x.a[1] is ix]
                outs_ = [x.a[0] for x in terms_of(body) if x.op == "slice"]
                if len(set(cand)) != 1 or len(set(outs_)) != 1:
                    rep.ob(tag + ":blocks", False, "finish writes from %d block lists" % len(set(cand)), f)
                    continue
                infos, stored = cand[0], outs_[0]
                rep.ob(tag + ":every-block", eng_same(ps[0].a[0], slen(infos), eng, s), "finish writes %s of %s blocks" % (short(ps[0].a[0]), short(slen(infos))), f)
                mid = build(S, me, infos, stored)
                try:
                    c, done = S.delta(s, me, mid, True)
                    d = c.eq(done, c.of(S.pend(me)))
                except Bad as x:
                    d = str(x)
                rep.ob(tag + ":pending-flushed", d is None, "the blocks finish writes do not hold exactly the bytes written before: %s" % d, f)
                frame_same(S, rep, f, s, body, k, infos, stored, tag)
        rep.ob(tag + ":returns", n > 0, "finish never succeeds", f)


def zip_ite(t):
    """a choice between two pieces of the same shape is the piece of the choices"""
    if t.op != "ite":
        return t
    a, b = zip_ite(t.a[1]), zip_ite(t.a[2])
    if a.op != "seq" or b.op != "seq" or len(a.a) != len(b.a):
        return t
    out = []
    for x, y in zip(a.a, b.a):
        if x is y:
            out.append(x)
        elif x.op == "el" and y.op == "el":
            out.append(mk("el", ite(t.a[0], x.a[0], y.a[0])))
        else:
            return t
    return mk("seq", *out)


def eng_same(a, b, eng, st):
    if a is b:
        return True
    d = eng.bounds(st, terms.mathsub(a, b, 64))
    return bool(d and d[0] == d[1] == 0)


def frame_same(S, rep, f, s, body, k, infos, stored, tag):
    """the framing of one block is the one learned, over these lists"""
    ix = mk("ix", k)
    body = zip_ite(body)
    ps = parts_of(body)
    if len(ps) != 4 or ps[3].op != "sp" or ps[3].a[0].op != "slice":
        rep.ob(tag + ":frame", False, "a block is not written as three bytes and its stored bytes: %s" % short(body, 300), f)
        return
    from bits import Bits
    info = at(infos, ix)
    lo, hi = ps[3].a[0].a[1], ps[3].a[0].a[2]
    g = sub64(hi, lo)
    want = S.info_len(info)
    rep.ob(tag + ":frame-length", g is want, "a block of length %s is written with %s bytes" % (short(want, 100), short(g, 100)), f)
    cons = lo.op == "sum" and lo.a[0] is ix and subst(lo.a[1], {mk("ix", lo.a[2]): ix}) is g
    rep.ob(tag + ":frame-consecutive", cons, "block contents are taken from %s: not behind the previous block's" % short(lo, 200), f)
    B = Bits()
    bits = []
    for x in ps[:3]:
        if x.op != "el":
            rep.ob(tag + ":frame", False, "header in an unknown form", f)
            return
        bits += list(B(x.a[0], 8))
    want = [b for x in S.hbytes for b in B(subst(x, {S.header[0]: info}), 8)]
    rep.ob(tag + ":frame-header", bits == want, "the header is not length*2 + flag in three bytes, low byte first: %s" % short(mk("seq", *ps[:3]), 300), f)


def build(S, me, infos, stored):
    """`me` with other blocks and stored bytes (and nothing pending)"""
    st = State()
    st.mem[S.root] = me
    e = S.eng
    e.write(st, S.root, (("f", S.infos),), infos)
    e.write(st, S.root, (("f", S.output[0]),) + tuple(S.output[1:]), stored)
    return st.mem[S.root]


def terms_of(t, seen=None):
    seen = set() if seen is None else seen
    out = []

    def go(x):
        if x in seen:
            return
        seen.add(x)
        out.append(x)
        for y in x.a:
            if isinstance(y, T):
                go(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        go(z)
                    elif isinstance(z, tuple):
                        for q in z:
                            if isinstance(q, T):
                                go(q)
    go(t)
    return out


# ------------------------------------------------------------------ codec adapters
def lib_models(seen):
    def bound(tag):
        def f(eng, st, c, av, at_, dty, site):
            t = mk("maxlen", tag, av[0])
            t.rng = (0, 1 << 62)
            return ret(st, t)
        return f

    def into_slice(tag, iin, iout, extra=None):
        def f(eng, st, c, av, at_, dty, site):
            d = eng.value(st, tv(eng, st, av[iin], at_[iin]))
            x = mk("lib", tag, d)
            r, p = target(eng, av[iout], at_[iout])
            o = eng.read(st, r, p)
            mx = mk("maxlen", tag, slen(d))
            mx.rng = (0, 1 << 62)
            seen.append((tag, site, av[extra] if extra is not None else None))
            out = []
            for s, v in eng.split(st, terms.neg(terms.mathsub(slen(o), mx, 64))):
                if v:
                    out.append(("ret", s, err(mk("too_small", tag))))
                    continue
                eng.assume(s, terms.neg(terms.mathsub(mx, slen(x), 64)), False)
                eng.write(s, r, p, cat(mk("seq", mk("sp", x)), slice_(o, slen(x), slen(o))))
                out.append(("ret", s, ok(slen(x))))
            return out
        return f

    def as_vec(tag, iin, extra=None):
        def f(eng, st, c, av, at_, dty, site):
            d = eng.value(st, tv(eng, st, av[iin], at_[iin]))
            seen.append((tag, site, av[extra] if extra is not None else None))
            return ret(st, ok(mk("seq", mk("sp", mk("lib", tag, d)))))
        return f
    return {"snap::max_compress_len": bound("snappy"), "zstd_safe::compress_bound": bound("zstd"), "zstd::zstd_safe::compress_bound": bound("zstd"),
            "snap::Encoder::compress": into_slice("snappy", 1, 2), "snap::Encoder::compress_vec": as_vec("snappy", 1),
            "zstd::bulk::compress_to_buffer": into_slice("zstd", 0, 1, 2), "zstd::bulk::compress": as_vec("zstd", 0, 1)}


def adapters(ctx, rep):
    """each codec's compress appends exactly what its library makes of the whole input, behind what is already stored"""
    impls = [f for f in ctx.p.fns if f and f.local and f.name == "compress" and (getattr(f, "impl_trait", None) or "").endswith("Compressor")]
    rep.ob("codecs", len(impls) >= 1, "no codec implementation found")
    for f in impls:
        seen = []
        lm = lib_models(seen)

        def layer(eng, callee):
            if callee.get("fn") is None or not eng.p.fns[callee["fn"]].local:
                for k in (callee["path"], callee["decl"]):
                    if k in lm:
                        return lm[k]
            return None
        S = ctx.summary(f, layer, fork_asserts=True)
        rep.use(S)
        name = f.impl_adt.split("::")[-1]
        want = {"SnappyCompressor": "snappy", "ZstdCompressor": "zstd"}.get(name)
        eng = S.eng
        oty = eng.pointee(f.locals[3])
        q = seqpath(ctx.p, oty)
        if q is None:
            raise Anchor("%s: output is not a byte vector" % f.path)
        old = eng.read_path(S.arg(2), q, oty) if hasattr(eng, "read_path") else path_get(ctx.p, S.arg(2), q, oty)
        n = 0
        for o in S.outs:
            if o.kind == "panic":
                rep.ob(name + ":no-panic", not eng.consistent(o.st), "%s can fail: %s [%s]" % (f.path, o.info, "; ".join("%s=%s" % (short(c, 70), v) for c, v in o.st.pc[-5:])), f)
                continue
            if not eng.consistent(o.st):
                continue
            n += 1
            new = path_get(ctx.p, S.new(o, 2), q, oty)
            good = False
            t = new
            for s, t in rw.open_term(eng, o.st, new):
                c = Content(eng, s, 8)
                ps = parts_of(t)
                try:
                    x = [y for y in ps if y.op == "sp" and y.a[0].op == "lib"]
                    i = ps.index(x[0]) if len(x) == 1 else -1
                    good = i >= 0 and x[0].a[0].a[0] == (want or x[0].a[0].a[0]) and x[0].a[0].a[1] is S.arg(1)
                    good = good and c.eq(c.of(mk("seq", *ps[:i])), c.of(old)) is None and c.leq(c.total(c.of(mk("seq", *ps[i + 1:]))), I(0))
                except (Bad, ValueError):
                    good = False
                rep.ob(name + ":appends", good, "compress leaves %s, expected the output as it was followed by the compressed input" % short(t, 400), f)
        rep.ob(name + ":returns", n > 0, "compress never returns", f)


def path_get(p, t, path, ty):
    for _, i in path:
        vs = p.t(ty)["variants"][0]["fields"]
        t = fld(t, None, i, len(vs))
        ty = vs[i]["ty"]
    return t


# ------------------------------------------------------------------ a new stream, and where it is
def codec_calls(ctx, rep):
    """what each codec's compress hands to its library besides the bytes: {adt: (self term, level terms)}"""
    out = {}
    for f in ctx.p.fns:
        if not (f and f.local and f.name == "compress" and (getattr(f, "impl_trait", None) or "").endswith("Compressor")):
            continue
        seen = []
        lm = lib_models(seen)

        def layer(eng, callee):
            if callee.get("fn") is None or not eng.p.fns[callee["fn"]].local:
                for k in (callee["path"], callee["decl"]):
                    if k in lm:
                        return lm[k]
            return None
        S = ctx.summary(f, layer, fork_asserts=True)
        rep.use(S)
        out[f.impl_adt] = (S.arg(0), set((tag, x) for tag, _, x in seen))
    return out


def stream_new(ctx, rep):
    """a new stream holds nothing and has the codec, block size and level of the settings it is made from"""
    import r_config as rc
    S = Stream(ctx, rep)
    f = S.f_new
    N = ctx.summary(f, None)
    rep.use(N)
    proj, ety = rw.compression_enum(ctx)
    vs = ctx.p.t(ety)["variants"]
    ci = [i for i in range(f.argc) if ctx.p.t(ctx.p.t(f.locals[i + 1]).get("e", f.locals[i + 1])).get("path", "").split("::")[-1] == "Compression"]
    if len(ci) != 1:
        raise Anchor("CompressionStream::new does not take one Compression")
    c0 = N.arg(ci[0])
    e = proj(c0)
    which = {}
    for i, v in enumerate(vs):
        last = ctx.p.t(v["fields"][0]["ty"]).get("path", "").split("::")[-1]
        if last not in rc.CODECS:
            raise Anchor("codec %s is not in the table" % last)
        which[i] = last
    calls = codec_calls(ctx, rep)
    seen = set()
    for o in N.rets:
        t = o.val
        poss = [i for i in range(len(vs)) if N.eng.decide(o.st, eqint(N.eng.discr_of(e, ety), I(i), 64)) is not False]
        rep.ob("new:one-codec", len(poss) == 1, "a new stream is the same for several codecs", f)
        if len(poss) != 1:
            continue
        i = poss[0]
        seen.add(i)
        last = which[i]
        kind, lib = rc.CODECS[last]
        for what, x in (("pending bytes", S.pend(t)), ("stored bytes", S.outp(t)), ("blocks", S.blocks(t))):
            l = slen(x)
            rep.ob("new:%s:empty" % last, isint(l) and l.a[0] == 0, "a new stream holds %s: %s" % (what, short(x, 150)), f)
        cv = S.fld(t, S.comp)
        has = cv.op == "agg" and cv.a[1] == 1
        hasnot = cv.op == "agg" and cv.a[1] == 0
        rep.ob("new:%s:codec" % last, has if lib else hasnot, "a stream of %s has codec %s" % (last, short(cv, 150)), f)
        if lib is None:
            continue
        want = rc.size_leaf(ctx, e, i, last, vs)
        got = S.fld(t, S.bs)
        rep.ob("new:%s:block-size" % last, got is want, "the block size of a stream is %s, not the configured one" % short(got, 150), f)
        cs = [x for x in terms_of(cv) if x.op == "agg" and x.a[0] in calls]
        rep.ob("new:%s:implementation" % last, len(cs) == 1, "cannot tell which codec implementation %s gets: %s" % (last, short(cv, 200)), f)
        if len(cs) != 1:
            continue
        me, used = calls[cs[0].a[0]]
        rep.ob("new:%s:library" % last, set(tag for tag, _ in used) == {lib}, "%s compresses with %s" % (last, sorted(tag for tag, _ in used)), f)
        level = rc.leaf_set_by(ctx, vs[i]["fields"][0]["ty"], "with_compression_level")
        if level is not None:
            wl = rc.get(fld(e, i, 0, 1), level)
            for tag, x in used:
                y = subst(x, {me: cs[0]}) if x is not None else None
                rep.ob("new:%s:level" % last, y is wl, "compresses at level %s, not the one set" % short(y, 100), f)
    rep.ob("new:total", seen == set(range(len(vs))) and not N.panics, "a stream cannot be made for every codec", f)


def stream_positions(ctx, rep):
    """position() then record(): [bytes of the blocks before, headers included,] bytes pending"""
    S = Stream(ctx, rep)
    if not S.find_header(rep):
        return
    fp = S.method("position")
    pty = fp.locals[0]
    padt = ctx.p.t(pty).get("path")
    fr = [f for f in ctx.p.methods(padt) if f.name == "record"]
    if len(fr) != 1:
        raise Anchor("%s::record not found" % padt)
    eng = S.eng
    eng.cut = None
    for compressed in (True, False):
        st = S.start(compressed)
        tag = "position:%s" % ("codec" if compressed else "plain")
        n = 0
        for o in S.call(st, fp):
            if o.kind == "panic":
                rep.ob(tag + ":no-panic", False, "position panics: %s" % (o.info,), fp)
                continue
            rep.ob(tag + ":pure", o.st.mem[S.root] is S.me, "position changes the stream", fp)
            r, w = ("P", "pos"), ("P", "recorded")
            eng.rty[r] = pty
            eng.rty[w] = ctx.p.t(fr[0].locals[2])["e"]
            o.st.mem[r] = o.val
            w0 = eng.annotate(mk("sym", "recorded", ctx.p.t(eng.rty[w])["s"]), eng.rty[w])
            o.st.mem[w] = w0
            byval = ctx.p.t(fr[0].locals[1])["k"] != "ref"
            try:
                outs = eng.call_fn(fr[0], [o.val if byval else mk("ref", r, ()), mk("ref", w, ())], o.st)
            except (Giveup, NeedSplit) as x:
                raise Anchor("%s: cannot analyse: %s" % (fr[0].path, x))
            for q in outs:
                if q.kind == "panic":
                    rep.ob(tag + ":no-panic", False, "record panics: %s" % (q.info,), fr[0])
                    continue
                n += 1
                want = [add64(slen(S.outp(S.me)), mul(I(3), slen(S.blocks(S.me)), 64))] if compressed else []
                want.append(slen(S.pend(S.me)))
                for s, t in rw.open_term(eng, q.st, q.st.mem[w]):
                    if not eng.consistent(s):
                        continue
                    ps = S.since(t, w0)
                    good = ps is not None and len(ps) == len(want) and all(p.op == "el" for p in ps)
                    good = good and all(eng_same(p.a[0], x, eng, s) for p, x in zip(ps, want))
                    rep.ob(tag + ":recorded", good, "records %s, expected %s" % (short(mk("seq", *(ps or [])), 250), short(mk("seq", *[mk("el", x) for x in want]), 200)), fp)
        rep.ob(tag + ":returns", n > 0, "no position recorded", fp)


# ------------------------------------------------------------------ C22: what a stream reports as buffered
def buffered(ctx, rep):
    """estimated_size: stored and pending bytes, once; an encoder adds its stream's once"""
    S = Stream(ctx, rep)
    f = S.method("estimated_size")
    N = ctx.summary(f, None)
    rep.use(N)
    o0, p0, b0 = slen(S.outp(N.old(0))), slen(S.pend(N.old(0))), slen(S.blocks(N.old(0)))
    rep.ob("CompressionStream:returns", len(N.rets) > 0 and not N.panics, "estimated_size can fail", f)
    for o in N.rets:
        d = terms.mathsub(o.val, add64(o0, p0), 64)
        c = d.a[0] if d.op == "int" else None
        extra = d is I(0) or c == 0 or any(d is mul(I(k), b0, 64) for k in (1, 2, 3))
        rep.ob("CompressionStream:stored+pending", extra, "the buffered size is %s, not what is stored (%s) and pending (%s)" % (short(o.val, 150), o0, p0), f)

    def layer(eng, callee):
        if adt_of(eng, callee) == "CompressionStream" and callee["decl"].split("::")[-1] == "estimated_size":
            def m(eng, st, c, av, at_, dty, site):
                t = mk("ret", "estimated_size", tv(eng, st, av[0], at_[0]))
                t.rng = (0, 1 << 62)
                return ret(st, t)
            return m
        return None
    n = 0
    for f in ctx.p.fns:
        if not (f and f.local and f.name == "estimated_size" and f.id in ctx.p._rootset() and "::encoder::" in (f.impl_adt or "")):
            continue
        name = f.impl_adt.split("::")[-1]
        s = ctx.summary(f, layer)
        rep.use(s)
        n += 1
        rep.ob(name + ":returns", len(s.rets) > 0 and not s.panics, "estimated_size can fail", f)
        for o in s.rets:
            v = o.val
            items = v.a[2] if v.op == "lin" else ((v, 1),)
            sz = [(x, k) for x, k in items if x.op == "ret" and x.a[0] == "estimated_size"]
            rest = [(x, k) for x, k in items if x.op != "ret"]
            good = len(sz) == 1 and sz[0][1] == 1 and all(k > 0 and not contains(x, lambda y: y.op == "ret") for x, k in rest)
            rep.ob(name + ":stream-once", good, "reports %s: not its stream's buffered size once" % short(v, 150), f)
    rep.ob("encoders", n >= 4, "only %d encoders report a size" % n)
