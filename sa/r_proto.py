"""The generated protobuf code writes, sizes, reads and stores every field as the published schema says (C26).

The calls of the protobuf runtime are events; what a message writes is the sequence of events on the output, what it
computes is a sum of size terms, and both are compared, per combination of present fields, with the schema table."""
from collections import Counter
from terms import *
import terms
from orc import *
from engine import State, Giveup
from models import ret, some, ok, err, tv, target, fallible, MODELS
from orc_proto_table import MESSAGES, ENUMS

WT = {"varint": 0, "zigzag": 0, "bool": 0, "double": 1, "fixed64": 1, "bytes": 2}
ENC = {"uint64": "varint", "uint32": "varint", "sint64": "zigzag", "sint32": "zigzag", "bool": "bool", "double": "double",
       "fixed64": "fixed64", "string": "bytes", "bytes": "bytes"}
WRITES = {"uint64": "varint", "uint32": "varint", "int64": "varint", "int32": "varint", "enum": "varint", "sint64": "zigzag", "sint32": "zigzag",
          "bool": "bool", "double": "double", "fixed64": "fixed64", "string": "bytes", "bytes": "bytes"}
SOME, NIL = some, mk("agg", "std::option::Option", 0)


def tagsize(n):
    n <<= 3
    k = 1
    while n > 127:
        n >>= 7
        k += 1
    return k


# ------------------------------------------------------------------ runtime calls
def ev(eng, st, callee, av, at_, fail):
    m = callee["decl"].split("::")[-1]
    w = 1 if m in ("write_to_with_cached_sizes",) else 0
    r, p = target(eng, av[w], at_[w])
    args = [eng.value(st, tv(eng, st, v, t)) for i, (v, t) in enumerate(zip(av, at_)) if i != w]
    name = "body" if w else m[6:]
    e = mk("wf", name, *args)
    old = eng.read(st, r, p)
    if not fail:
        eng.write(st, r, p, cat(old, el(e)))
        return ret(st, ok(UNIT))
    return fallible(eng, st, "pbw_" + name, (e,), lambda s: eng.write(s, r, p, cat(old, el(e))), None)


def opt_case(eng, st, v):
    if v.op == "agg" and isinstance(v.a[1], int):
        return [(st, v.a[1], v)]
    d = mk("discr", v)
    d.variants = (0, 1)
    d.rng = (0, 1)
    return [(s, 0 if b else 1, v) for s, b in eng.split(st, eqint(d, I(0), 64))]


def singular(eng, st, c, av, at_, dty, site):
    m = c["decl"].split("::")[-1]
    if m in ("some", "none", "from", "from_option"):
        return None
    out = []
    if m in ("into_option", "unwrap_or_default", "unwrap", "unwrap_or_else", "unwrap_or") and eng.ty(at_[0])["k"] != "ref":
        raise Giveup("SingularField::" + m)
    r, p = target(eng, av[0], at_[0])
    old = eng.read(st, r, p)
    pn = eng.nfields(eng.ty(at_[0])["e"], 1) or 0
    if m == "clear":
        eng.write(st, r, p, NIL)
        return ret(st, UNIT)
    if m == "set_default":
        eng.write(st, r, p, SOME(mk("defaultof", old)))
        return ret(st, mk("ref", r, p + (("v", 1, 0),)))
    for s, k, x in opt_case(eng, st, old):
        if m in ("as_ref", "as_mut"):
            out.append(("ret", s, NIL if k == 0 else SOME(mk("ref", r, p + (("v", 1, 0),)))))
        elif m == "is_some":
            out.append(("ret", s, TRUE if k else FALSE))
        elif m == "is_none":
            out.append(("ret", s, FALSE if k else TRUE))
        elif m == "take":
            eng.write(s, r, p, NIL)
            out.append(("ret", s, NIL if k == 0 else SOME(fld(x, 1, 0, pn))))
        else:
            raise Giveup("SingularField::" + m)
    return out


def wire_eq(eng, st, c, av, at_, dty, site):
    """comparing wire types is comparing their numbers"""
    ts, vs = [], []
    for v, t in zip(av, at_):
        while eng.ty(t)["k"] == "ref":
            v, t = tv(eng, st, v, t), eng.ty(t)["e"]
        ts.append(t)
        vs.append(v)
    if any(eng.ty(t).get("path", "").split("::")[-1] != "WireType" for t in ts):
        return None
    ds = [discr_of(v) for v in vs]
    if all(isint(d) for d in ds):
        b = ds[0] is ds[1]
        r = TRUE if b else FALSE
    else:
        a, b = ds if isint(ds[1]) else ds[::-1]
        if not isint(b):
            raise Giveup("two unknown wire types compared: %s %s" % (a, b))
        r = eqint(a, b, 64)
    return ret(st, notb(r) if c["decl"].endswith("::ne") else r)


def discr_of(v):
    if v.op == "agg" and isinstance(v.a[1], int):
        return I(v.a[1])
    d = mk("discr", v)
    d.variants = d.variants or tuple(range(6))
    d.rng = d.rng or (0, 5)
    return d


def policy(fail):
    def pol(eng, callee):
        d = callee["decl"]
        m = d.split("::")[-1]
        ty = d.split("::")[-2].split("<")[0] if "::" in d else ""
        if ("CodedOutputStream" in d and m.startswith("write_")) or (m == "write_to_with_cached_sizes" and "Message" in d):
            return lambda eng, st, c, av, at_, dty, site: ev(eng, st, c, av, at_, fail)
        if "SingularPtrField" in d or "SingularField" in d:
            return singular if m not in ("some", "none", "default") else None
        if "CachedSize" in d and m == "set":
            def f(eng, st, c, av, at_, dty, site):
                r, p = target(eng, av[0], at_[0])
                eng.write(st, r, p, mk("cachedval", av[1]))
                return ret(st, UNIT)
            return f
        if "CachedSize" in d and m == "get":
            def f(eng, st, c, av, at_, dty, site):
                v = eng.value(st, tv(eng, st, av[0], at_[0]))
                return ret(st, v.a[0] if v.op == "cachedval" else mk("cachedget", v))
            return f
        if m == "is_initialized" and "Message" in d:
            return lambda eng, st, c, av, at_, dty, site: ret(st, TRUE)      # by induction on the nesting
        if m in ("eq", "ne") and "PartialEq" in d:
            return wire_eq
        if "UnknownFields" in d and m == "clear":
            def f(eng, st, c, av, at_, dty, site):
                r, p = target(eng, av[0], at_[0])
                eng.write(st, r, p, mk("default", "protobuf::UnknownFields"))
                return ret(st, UNIT)
            return f
        if "CodedInputStream" in d:
            def f(eng, st, c, av, at_, dty, site):
                if m == "eof":
                    return [("ret", s, (ok(TRUE if b else FALSE))) for s, b in eng.split(st, mk("ok", "pbeof", UNIT))] + []
                if m == "read_tag_unpack":
                    n = eng.annotate(mk("sym", "field_number", "u32"), u32(eng))
                    w = mk("sym", "wire_type", "WireType")
                    wt = wire(eng)
                    if wt is not None:
                        w = eng.annotate(w, wt)
                    return fallible(eng, st, "pbr_tag", (UNIT,), lambda s: None, None, agg("()", None, [n, w]))
                if m.startswith("read_"):
                    return fallible(eng, st, "pbr_" + m, (UNIT,), lambda s: None, None, mk("rd", m[5:]))
                raise Giveup("CodedInputStream::" + m)
            return f
        if d.startswith("protobuf::rt::") and m.startswith("read_"):
            def f(eng, st, c, av, at_, dty, site):
                # (number?, wire type, input, &mut field, ...)
                refs = [(i, t) for i, t in enumerate(at_) if eng.ty(t)["k"] == "ref" and not inputty(eng, t)]
                vals = tuple(eng.value(st, v) for i, (v, t) in enumerate(zip(av, at_)) if eng.ty(t)["k"] != "ref")

                def good(s):
                    for j, (i, t) in enumerate(refs):
                        r, p = target(eng, av[i], t)
                        eng.write(s, r, p, mk("merged", m, j, eng.read(s, r, p), *vals))
                return fallible(eng, st, "pbr_" + m, (UNIT,), good, None)
            return f
        if d.endswith("Message::get_cached_size") or d.startswith("protobuf::rt::") or d.endswith("Message::compute_size") or (m == "value" and "ProtobufEnum" in d):
            nm = m
            return lambda eng, st, c, av, at_, dty, site: ret(st, mk("pbf", nm, *[eng.value(st, tv(eng, st, v, t)) for v, t in zip(av, at_)]))
        return None
    return pol


def u32(eng):
    for i, t in enumerate(eng.p.types):
        if t["k"] == "int" and t["s"] == "u32":
            return i


def wire(eng):
    for i, t in enumerate(eng.p.types):
        if t["k"] == "adt" and t["path"].split("::")[-1] == "WireType":
            return i


def inputty(eng, t):
    y = eng.ty(eng.ty(t)["e"])
    return "CodedInputStream" in y.get("path", "")


# ------------------------------------------------------------------ normal forms
def num(t):
    return t.a[0] if isint(t) else None


def wt_of(t):
    return t.a[1] if t.op == "agg" and t.a[0].split("::")[-1] == "WireType" else None


def wire_events(seq):
    """flatten the events on the output into tag / value / body / repetition items"""
    out = []
    for p in parts_of(seq):
        if p.op == "el" and p.a[0].op == "wf":
            e = p.a[0]
            m, a = e.a[0], e.a[1:]
            if m == "tag":
                out.append(("tag", num(a[0]), wt_of(a[1])))
            elif m == "raw_varint32" or m == "raw_varint64":
                out.append(("varint", a[0]))
            elif m == "body":
                out.append(("body", a[0]))
            elif m == "unknown_fields":
                out.append(("unknown", a[0]))
            elif m.endswith("_no_tag") and m[:-7] in WRITES:
                out.append((WRITES[m[:-7]], a[0]))
            elif m in WRITES:
                k = WRITES[m]
                out.append(("tag", num(a[0]), WT[k]))
                out.append((k, a[1]))
            else:
                raise Giveup("CodedOutputStream::write_" + m)
        elif p.op == "mapcat":
            out.append(("map", p.a[0], tuple(wire_events(p.a[1])), p.a[2]))
        elif p.op == "sp" and p.a[0].op == "sym":
            out.append(("old", p.a[0]))
        else:
            raise Giveup("output is %s" % short(mk("seq", p), 200))
    return out


def groups(evs):
    """split at every tag; the repetitions of tagged values are groups of their own"""
    out = []
    for e in evs:
        if e[0] in ("tag", "old", "unknown") or (e[0] == "map" and e[2] and e[2][0][0] == "tag"):
            out.append([e])
        elif out:
            out[-1].append(e)
        else:
            out.append([e])
    return [tuple(g) for g in out]


def value_events(ty, v):
    if ty.startswith("msg:"):
        return [("varint", mk("pbf", "get_cached_size", v)), ("body", v)]
    if ty.startswith("enum:"):
        return [("varint", mk("pbf", "value", v))]
    return [(ENC[ty], v)]


def wiretype(ty):
    return 2 if ty.startswith("msg:") else 0 if ty.startswith("enum:") else WT[ENC[ty]]


class Field:
    def __init__(self, name, number, label, ty):
        self.name, self.number, self.label, self.ty = name, number, label, ty
        self.i = None
        self.pn = 0

    def pay(self, v):
        return fld(v, 1, 0, self.pn)

    def expected(self, v, ixof):
        """what is written when the field is present"""
        if self.label == "optional":
            return [("tag", self.number, wiretype(self.ty))] + value_events(self.ty, self.pay(v))
        n = slen(v)
        if self.label == "packed":
            k = ixof(n)
            item = at(v, mk("ix", k))
            return [("tag", self.number, 2), ("varint", mk("pbf", "vec_packed_varint_data_size", v)), ("map", n, tuple(value_events(self.ty, item)), k)]
        k = ixof(n)
        item = at(v, mk("ix", k))
        return [("map", n, tuple([("tag", self.number, wiretype(self.ty))] + value_events(self.ty, item)), k)]

    def size(self, v):
        """size terms when present"""
        c = Counter()
        if self.label == "optional":
            c[("one",)] += tagsize(self.number)
            c.update(value_size(self.ty, self.pay(v)))
        elif self.label == "packed":
            c[("one",)] += tagsize(self.number)
            c[("packed", v)] += 1
        else:
            n = slen(v)
            inner = Counter({("one",): tagsize(self.number)})
            inner.update(value_size(self.ty, mk("elem", v)))
            for k, x in inner.items():
                c[("count", n) if k == ("one",) else ("sum", n, k)] += x
        return c


def value_size(ty, v):
    if ty.startswith("msg:"):
        s = mk("pbf", "compute_size", v)
        return Counter({("varint", s): 1, ("val", s): 1})
    if ty.startswith("enum:"):
        return Counter({("varint", mk("pbf", "value", v)): 1})
    k = ENC[ty]
    if k in ("varint", "zigzag"):
        return Counter({(k, v): 1})
    if k == "bytes":
        return Counter({("bytes", v): 1})
    return Counter({("one",): {"bool": 1, "double": 8, "fixed64": 8}[k]})


def elems(t, n, k):
    """at(v, ix(k)) -> elem(v)"""
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        if x.op == "at" and x.a[1] is mk("ix", k):
            r = mk("elem", x.a[0])
        else:
            r = T_rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def T_rebuild(x, go):
    deep = lambda y: go(y) if isinstance(y, T) else tuple(deep(z) for z in y) if isinstance(y, tuple) else y
    a = tuple(deep(y) for y in x.a)
    return x if a == x.a else mk(x.op, *a)


def size_terms(t, coef=1):
    c = Counter()
    if isint(t):
        c[("one",)] += coef * t.a[0]
        return c
    if t.op == "lin":
        c[("one",)] += coef * t.a[1]
        for x, k in t.a[2]:
            c.update(size_terms(x, coef * k))
        return c
    if t.op in ("trunc", "cast") and isinstance(t.a[1], T):
        return size_terms(t.a[1], coef)
    if t.op == "len":
        c[("count", t)] += coef
        return c
    if t.op == "sum":
        n, body, k = t.a[0], t.a[1], t.a[2]
        for x, q in size_terms(elems(body, n, k)).items():
            c[("count", n) if x == ("one",) else ("sum", n, x)] += coef * q
        return c
    if t.op == "ite":
        raise Giveup("size depends on a condition")
    if t.op == "pbf":
        m, a = t.a[0], t.a[1:]
        one = lambda: c.update({("one",): coef * tagsize(num(a[0]))})
        if m == "value_size":
            one()
            w = wt_of(a[2])
            c.update({("varint", a[1]): coef} if w == 0 else {("one",): coef * {1: 8, 5: 4}[w]})
        elif m == "value_varint_zigzag_size":
            one()
            c[("zigzag", a[1])] += coef
        elif m == "value_size_no_tag":
            w = wt_of(a[1])
            c.update({("varint", a[0]): coef} if w == 0 else {("one",): coef * {1: 8, 5: 4}[w]})
        elif m == "value_varint_zigzag_size_no_tag":
            c[("zigzag", a[0])] += coef
        elif m == "enum_size":
            one()
            c[("varint", mk("pbf", "value", a[1]))] += coef
        elif m in ("string_size", "bytes_size"):
            one()
            c[("bytes", a[1])] += coef
        elif m == "vec_packed_varint_size":
            one()
            c[("packed", a[1])] += coef
        elif m in ("compute_raw_varint32_size", "compute_raw_varint64_size"):
            c[("varint", a[0])] += coef
        elif m == "tag_size":
            one()
        elif m == "unknown_fields_size":
            c[("unknown", a[0])] += coef
        elif m == "compute_size":
            c[("val", t)] += coef
        else:
            c[("other", t)] += coef
        return c
    c[("other", t)] += coef
    return c


# ------------------------------------------------------------------ messages
class Msg:
    def __init__(self, ctx, rep, name):
        self.ctx, self.rep, self.name = ctx, rep, name
        c = [i for i in ctx.p.raw["adts"] if ctx.p.types[i].get("path", "").endswith("orc_proto::" + name)]
        if len(c) != 1:
            raise Anchor("message %s not found" % name)
        self.ty = c[0]
        t = ctx.p.t(self.ty)
        self.adt = t["path"]
        self.sf = t["variants"][0]["fields"]
        self.n = len(self.sf)
        self.own = {f.name: f for f in ctx.p.methods(self.adt)}
        self.msg = {f.name: f for f in ctx.p.methods(self.adt, "Message")}
        self.fields = [Field(*x) for x in MESSAGES[name]]
        for f in self.fields:
            self.locate(f)
        self.unknown = [i for i, x in enumerate(self.sf) if "UnknownFields" in ctx.p.tstr(x["ty"])]
        self.cached = [i for i, x in enumerate(self.sf) if "CachedSize" in ctx.p.tstr(x["ty"])]
        if len(self.unknown) != 1 or len(self.cached) != 1:
            raise Anchor("%s: unknown fields / cached size not found" % name)
        ids = [f.i for f in self.fields]
        rep.ob(name + ":fields", len(set(ids)) == len(ids), "two fields of %s are stored in one place" % name)

    def sum(self, f, fail=False):
        s = self.ctx.summary(f, POL if not fail else POLF)
        self.rep.use(s)
        return s

    def get(self, v, i):
        return fld(v, None, i, self.n)

    def locate(self, f):
        g = self.own.get("set_" + f.name)
        if g is None:
            raise Anchor("%s::set_%s not found" % (self.name, f.name))
        s = self.sum(g)
        hit = set()
        for o in s.rets:
            for i in range(self.n):
                if self.get(s.new(o), i) is not self.get(s.old(), i):
                    hit.add(i)
        tag = "%s:set_%s" % (self.name, f.name)
        named = [i for i, x in enumerate(self.sf) if x["name"] == f.name]
        f.i = (list(hit) if len(hit) == 1 else named or [None])[0]
        if f.i is not None and f.label == "optional":
            f.pn = s.eng.nfields(self.sf[f.i]["ty"], 1) or 0
        if f.i is None:
            raise Anchor("%s: where is field %s stored?" % (self.name, f.name))
        good = len(hit) == 1 and len(s.rets) == len(s.outs)
        for o in s.rets:
            v = self.get(s.new(o), f.i)
            want = SOME(s.arg(1)) if f.label == "optional" else s.arg(1)
            good = good and v is want
        self.rep.ob(tag, good, "does not set exactly this field to the argument: fields %s, value %s" % (sorted(self.sf[i]["name"] for i in hit), short(self.get(s.new(s.rets[0]), f.i), 100) if s.rets else "none"), g)

    def present(self, eng, st, old, f):
        """True/False/None: is the field there in this partition?"""
        v = self.get(old, f.i)
        if f.label == "optional":
            for d in (mk("discr", v),):
                x = eng.decide(st, eqint(d, I(0), 64))
                if x is not None:
                    return not x
                x = eng.decide(st, eqint(d, I(1), 64))
                if x is not None:
                    return x
            return None
        if f.label == "packed":
            x = eng.decide(st, eqint(slen(v), I(0), 64))
            return None if x is None else not x
        return True

    def write(self):
        f = self.msg["write_to_with_cached_sizes"]
        s = self.sum(f)
        old = s.old(0)
        rep = self.rep
        tag = self.name + ":write"
        for o in s.outs:
            if o.kind != "ret" or is_err(o.val):
                rep.ob(tag, False, "%s without an output error" % ("panics" if o.kind == "panic" else "fails"), f)
                continue
            try:
                gs = groups(wire_events(s.new(o, 1)))
            except Giveup as x:
                rep.ob(tag, False, "writes something the schema does not have: %s" % x, f)
                continue
            if not gs or gs[0][0][0] != "old" or len(gs[0]) != 1:
                rep.ob(tag, False, "does not append to the output", f)
                continue
            rest = list(gs[1:])
            ks = [e[3] for g in rest for e in g if e[0] == "map"]
            okay = True
            for fl in self.fields:
                p = self.present(s.eng, o.st, old, fl)
                v = self.get(old, fl.i)
                if p is None:
                    rep.ob("%s:%s" % (tag, fl.name), False, "is written without asking whether field %s is set" % fl.name, f)
                    okay = False
                    continue
                if not p:
                    continue
                hit = None
                for k in dict.fromkeys(ks + [0]):
                    want = tuple(fl.expected(v, lambda n, k=k: k))
                    if want in rest:
                        hit = want
                        break
                if hit is None and fl.label == "repeated" and eng_empty(s.eng, o.st, v):
                    continue
                rep.ob("%s:%s" % (tag, fl.name), hit is not None, "field %s = %d (%s %s) is not written as the schema says; written: %s" % (fl.name, fl.number, fl.label, fl.ty, show(rest)), f)
                if hit is not None:
                    rest.remove(hit)
                else:
                    okay = False
            unk = (("unknown", self.get(old, self.unknown[0])),)
            if okay:
                rep.ob(tag + ":unknown", rest.count(unk) == 1, "the unknown fields, which the size counts, are written %d times" % rest.count(unk), f)
                rest = [g for g in rest if g != unk]
                rep.ob(tag + ":nothing-else", not rest, "also writes %s" % show(rest), f)
        # a failed write is reported; every field present at once visits every call
        self.write_errors(f)

    def write_errors(self, f):
        e = self.ctx.engine(POLF)
        s0 = self.sum(f)
        st = State()
        root = s0.roots[0]
        st.mem[root] = s0.old(0)
        for fl in self.fields:
            v = self.get(s0.old(0), fl.i)
            if fl.label == "optional":
                d = mk("discr", v)
                d.variants, d.rng = (0, 1), (0, 1)
                e.assume(st, eqint(d, I(0), 64), False)
                e.assume(st, eqint(d, I(1), 64), True)
            else:
                e.assume(st, eqint(slen(v), I(0), 64), False)
        try:
            outs, roots = e.analyse(f, None, st)
        except (Giveup, NeedSplit) as x:
            raise Anchor("%s: cannot analyse: %s" % (f.path, x))
        n = 0
        for o in outs:
            bad = [c for c, v in o.st.facts.items() if c.op == "ok" and v is False]
            if bad:
                n += 1
                self.rep.ob(self.name + ":write:errors", o.kind == "ret" and is_err(o.val), "an output error (%s) is not reported: %s" % (bad[0].a[0], short(o.val, 80)), f)
        self.rep.ob(self.name + ":write:errors", n >= 1, "no failing write seen", f)

    def size(self):
        f = self.msg["compute_size"]
        s = self.sum(f)
        old = s.old(0)
        rep = self.rep
        tag = self.name + ":size"
        for o in s.outs:
            if o.kind != "ret":
                rep.ob(tag, False, "can panic", f)
                continue
            want = Counter({("unknown", self.get(old, self.unknown[0])): 1})
            for fl in self.fields:
                p = self.present(s.eng, o.st, old, fl)
                v = self.get(old, fl.i)
                if p is None and fl.label == "packed":
                    p = True            # the runtime's size of an empty packed field is 0
                if p is None:
                    rep.ob("%s:%s" % (tag, fl.name), False, "is counted without asking whether field %s is set" % fl.name, f)
                    continue
                if p:
                    want.update(fl.size(v))
            try:
                got = size_terms(o.val)
            except (Giveup, KeyError) as x:
                rep.ob(tag, False, "the size is %s" % short(o.val, 300), f)
                continue
            got = {k: x for k, x in got.items() if x}
            want = {k: x for k, x in want.items() if x}
            diff = {k: (got.get(k, 0), want.get(k, 0)) for k in set(got) | set(want) if got.get(k, 0) != want.get(k, 0)}
            rep.ob(tag, not diff, "the computed size differs from what is written: %s" % "; ".join("%s: counted %d times, written %d" % (" ".join(short(y, 60) if isinstance(y, T) else str(y) for y in flat(k)), a, b) for k, (a, b) in sorted(diff.items(), key=str)[:4]), f)
            c = self.get(s.new(o, 0), self.cached[0])
            rep.ob(self.name + ":size:cached", c is mk("cachedval", o.val), "the size kept for the second pass is %s" % short(c, 150), f)
        g = self.msg["get_cached_size"]
        s = self.sum(g)
        for o in s.outs:
            rep.ob(self.name + ":cached", o.kind == "ret" and o.val is mk("cachedget", self.get(s.old(0), self.cached[0])), "does not return the cached size but %s" % short(o.val, 80), g)

    READ = {"string": ("read_singular_string_into",), "bytes": ("read_singular_bytes_into",)}

    def reads(self, fl):
        if fl.ty.startswith("msg:"):
            return ("read_singular_message_into", "read_singular_message_into_") if fl.label == "optional" else ("read_repeated_message_into",)
        if fl.ty.startswith("enum:"):
            return ("read_proto2_enum_with_unknown_fields_into",)
        if fl.label == "optional":
            return ("read_singular_%s_into" % fl.ty,)
        return ("read_repeated_%s_into" % fl.ty,)

    def merge(self):
        f = self.msg["merge_from"]
        rep = self.rep
        tag = self.name + ":merge"
        e = self.ctx.engine(POL)
        backs = []
        nl = [0]

        def do_loop(fr, header, body, st0):
            if fr.f is not f:
                raise Giveup("a loop inside the reading of one field")
            nl[0] += 1
            res = []
            for o in e.run(fr, header, st0, (header, body)):
                (backs if o.kind == "back" else res).append(o)
            return res
        e.do_loop = do_loop
        try:
            outs, roots = e.analyse(f)
        except (Giveup, NeedSplit) as x:
            raise Anchor("%s: cannot analyse: %s" % (f.path, x))
        rep.fns.add(f.path)
        rep.parts += len(outs) + len(backs)
        rep.ob(tag + ":loop", nl[0] == 1, "the fields are not read in one loop", f)
        old = e.argterms[0]
        num_ = mk("sym", "field_number", "u32")
        wt = mk("sym", "wire_type", "WireType")
        seen = set()
        eof = mk("ok", "pbeof", UNIT)
        for o in backs + outs:
            st = o.st
            bad = [c for c, v in st.facts.items() if c.op == "ok" and c.a[0] != "pbeof" and v is False]
            done = st.facts.get(eof)
            new = st.mem[roots[0]]
            if bad:
                rep.ob(tag + ":errors", o.kind == "ret" and is_err(o.val), "an input error (%s) is not reported" % bad[0].a[0], f)
                continue
            if done is not False:
                rep.ob(tag + ":end", done is True and o.kind == "ret" and is_ok(o.val) and new is old, "at the end of the input: %s" % short(o.val, 80), f)
                continue
            which = [fl for fl in self.fields if e.decide(st, eqint(num_, I(fl.number), 32)) is True]
            changed = [i for i in range(self.n) if self.get(new, i) is not self.get(old, i)]
            if not which:
                un = self.get(new, self.unknown[0])
                rejected = o.kind == "ret" and is_err(o.val)
                if rejected and not changed and any("wire_type" in str(c) for c in st.facts):
                    rep.ob(tag + ":unknown", False, "an unknown field is rejected", f)
                    continue
                others = [fl for fl in self.fields if e.decide(st, eqint(num_, I(fl.number), 32)) is not False]
                rep.ob(tag + ":unknown", o.kind == "back" and changed == [self.unknown[0]] and un.op == "merged" and un.a[0].startswith("read_unknown") and un.a[3:] == (num_, wt) and not others,
                       "a field number outside the schema is not kept as unknown field: %s%s" % (short(un, 100), "; field %s is treated as unknown" % others[0].name if others else ""), f)
                seen.add(None)
                continue
            fl = which[0]
            t2 = "%s:%s" % (tag, fl.name)
            v = self.get(new, fl.i)
            if o.kind == "ret":
                # only a wrong wire type may be rejected
                w = e.decide(st, eqint(discr_of(wt), I(wiretype(fl.ty)), 64))
                rep.ob(t2, is_err(o.val) and w is not True and not changed, "field %s with its own wire type is rejected" % fl.name, f)
                continue
            if o.kind != "back":
                rep.ob(t2, False, "panics", f)
                continue
            only = changed == [fl.i] or (fl.ty.startswith("enum:") and set(changed) <= {fl.i, self.unknown[0]} and fl.i in changed)
            good = False
            if v.op == "merged":
                good = v.a[0] in self.reads(fl) and v.a[1] == 0 and v.a[2] is self.get(old, fl.i) and wt in v.a[3:]
                if fl.ty.startswith("enum:"):
                    good = good and I(fl.number) in v.a[3:]
            elif fl.label == "optional" and v.op == "agg" and v.a[1] == 1:
                w = e.decide(st, eqint(discr_of(wt), I(wiretype(fl.ty)), 64))
                good = v.a[2] is mk("rd", fl.ty) and w is True
            rep.ob(t2, only and good, "field number %d (%s %s %s) is read into %s as %s" % (fl.number, fl.label, fl.ty, fl.name, [self.sf[i]["name"] for i in changed], short(v, 120)), f)
            seen.add(fl.name)
        for fl in self.fields:
            rep.ob("%s:%s" % (tag, fl.name), fl.name in seen, "field %s = %d is not read" % (fl.name, fl.number), f)
        rep.ob(tag + ":unknown", None in seen, "unknown fields are not kept", f)

    def accessors(self):
        rep = self.rep
        for fl in self.fields:
            t = "%s:%%s_%s" % (self.name, fl.name)
            for pre in ("get", "has", "clear", "take", "mut"):
                g = self.own.get(pre + "_" + fl.name)
                if g is None:
                    continue
                s = self.sum(g)
                old = s.old(0)
                v = self.get(old, fl.i)
                for o in s.outs:
                    tag = t % pre
                    if o.kind != "ret":
                        rep.ob(tag, False, "can panic", g)
                        continue
                    new = s.new(o)
                    changed = [i for i in range(self.n) if self.get(new, i) is not self.get(old, i)]
                    nv = self.get(new, fl.i)
                    p = self.present(s.eng, o.st, old, fl) if fl.label == "optional" else True
                    empty = NIL if fl.label == "optional" else EMPTY
                    pay = fl.pay(v) if fl.label == "optional" else v
                    if pre in ("get", "has"):
                        good = not changed
                    else:
                        good = set(changed) <= {fl.i}
                    if pre == "has":
                        x = o.val
                        good = good and (x is TRUE if p else x is FALSE if p is False else hasterm(s.eng, v, x))
                    elif pre == "clear":
                        good = good and (nv is empty or (p is False and nv is v))
                    elif pre == "get":
                        val = s.eng.value(o.st, o.val)
                        if p:
                            good = good and (val is pay)
                        elif p is False:
                            good = good and self.default_ok(fl, val)
                        else:
                            good = False
                    elif pre == "take":
                        good = good and (nv is empty or (p is False and nv is v)) and (o.val is pay if p else p is not None)
                    elif pre == "mut":
                        want = mk("ref", s.roots[0], (("f", fl.i), ("v", 1, 0)) if fl.label == "optional" else (("f", fl.i),))
                        good = good and o.val is want and ((nv is v) if p else p is False and nv.op == "agg" and nv.a[1] == 1)
                    rep.ob(tag, good, "gives %s and changes %s" % (short(o.val, 100), [self.sf[i]["name"] for i in changed]), g)
        g = self.own.get("new")
        if g is not None:
            s = self.sum(g)
            for o in s.outs:
                for fl in self.fields:
                    v = self.get(o.val, fl.i) if o.kind == "ret" else None
                    rep.ob("%s:new" % self.name, v is (NIL if fl.label == "optional" else EMPTY), "a new message has %s = %s" % (fl.name, short(v, 80) if v is not None else "panic"), g)
        for g in self.ctx.p.methods(self.adt, "Clear"):
            if g.name != "clear":
                continue
            s = self.sum(g)
            for o in s.outs:
                for fl in self.fields:
                    v = self.get(s.new(o), fl.i)
                    rep.ob("%s:clear" % self.name, o.kind == "ret" and v is (NIL if fl.label == "optional" else EMPTY), "a cleared message keeps %s" % fl.name, g)

    def complete(self):
        """the schema has no required field: every message can be written"""
        f = self.msg["is_initialized"]
        s = self.sum(f)
        for o in s.outs:
            self.rep.ob(self.name + ":complete", o.kind == "ret" and o.val is TRUE, "a message without required fields counts as incomplete, so that it cannot be written", f)

    def default_ok(self, fl, val):
        if fl.ty.startswith("msg:"):
            return True                       # the shared default instance
        if fl.ty.startswith("enum:"):
            return val.op == "agg" and val.a[1] == 0
        if fl.ty in ("string", "bytes"):
            return slen(val) is I(0)
        if fl.ty == "bool":
            return val is FALSE
        if fl.ty == "double":
            return val.op == "float" and val.a[0] == 0
        return val is I(0)


def flat(k):
    for y in k:
        if isinstance(y, tuple):
            yield from flat(y)
        else:
            yield y


def show(gs):
    return "; ".join(" ".join(str(short(y, 70) if isinstance(y, T) else y) for e in g for y in flat(e)) for g in gs[:6])


def eng_empty(eng, st, v):
    return eng.decide(st, eqint(slen(v), I(0), 64)) is True


def hasterm(eng, v, x):
    d = mk("discr", v)
    d.variants, d.rng = (0, 1), (0, 1)
    return x in (eqint(d, I(1), 64), notb(eqint(d, I(0), 64)))


POL, POLF = policy(False), policy(True)


def enums(ctx, rep):
    for name, vals in ENUMS.items():
        c = [i for i in ctx.p.raw["adts"] if ctx.p.types[i].get("path", "").endswith("orc_proto::" + name)]
        if len(c) != 1:
            raise Anchor("enum %s not found" % name)
        t = ctx.p.t(c[0])
        num = {v["name"]: int(v["d"]) for v in t["variants"]}
        for n, k in vals:
            rep.ob("%s:%s" % (name, n), num.get(n) == k, "%s::%s has the number %s, the schema says %d" % (name, n, num.get(n), k))
        for f in ctx.p.methods(t["path"], "ProtobufEnum"):
            if f.name == "value":
                s = ctx.summary(f, None)
                rep.use(s)
                for o in s.outs:
                    v = s.eng.value(o.st, o.val) if o.kind == "ret" else None
                    good = v is not None and (v is mk("discr", s.old(0)) or is_discr(v, s.old(0)))
                    rep.ob(name + ":value", good, "the number written is %s" % (short(v, 100) if v is not None else "a panic"), f)
            elif f.name == "from_i32":
                s = ctx.summary(f, None)
                rep.use(s)
                got = {}
                for o in s.outs:
                    k = [x for x in [q for _, q in vals] if s.eng.decide(o.st, eqint(s.arg(0), I(x), 32)) is True]
                    if o.kind != "ret":
                        rep.ob(name + ":from_i32", False, "can panic", f)
                        continue
                    if o.val.op != "agg":
                        rep.ob(name + ":from_i32", False, "gives %s" % short(o.val, 100), f)
                        continue
                    if o.val.a[1] == 0:
                        rep.ob(name + ":from_i32", not k, "the number %s is not known" % k, f)
                        continue
                    w = o.val.a[2]
                    nm = t["variants"][w.a[1]]["name"] if w.op == "agg" and isinstance(w.a[1], int) else None
                    rep.ob(name + ":from_i32", bool(k) and dict(vals).get(nm) == k[0], "the number %s is read as %s" % (k, nm), f)
                    got[k[0] if k else None] = nm
                rep.ob(name + ":from_i32", set(got) >= set(q for _, q in vals), "not every number is read", f)


def is_discr(v, x):
    while v.op in ("trunc", "sext", "zext", "cast") and any(isinstance(y, T) for y in v.a):
        v = [y for y in v.a if isinstance(y, T)][0]
    return v.op == "discr" and v.a[0] is x


def protobuf(ctx, rep):
    enums(ctx, rep)
    for name in MESSAGES:
        m = Msg(ctx, rep, name)
        m.write()
        m.size()
        m.merge()
        m.accessors()
        m.complete()
