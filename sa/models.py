"""Transfer functions for library calls (std collections, iterators, io::Write, byteorder, protobuf streams).

Each model maps (state, argument terms) to result partitions; sequences (Vec, slice, String, array, and byte sinks)
are all elements of one sequence monoid, so `push`, `extend`, `write_all`, `collect` and hand-written loops agree."""
import re
from terms import *
import terms

OPT, RES, CF, RANGE = "std::option::Option", "std::result::Result", "std::ops::ControlFlow", "std::ops::Range"


def some(x):
    return agg(OPT, 1, [x])


NONE = mk("agg", OPT, 0)


def ok(x):
    return agg(RES, 0, [x])


def err(x):
    return agg(RES, 1, [x])


OKU = ok(UNIT)
MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def strip_generics(p):
    out, depth = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            depth += 1
        elif c == ">" and p[i - 1] != "-":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    s = re.sub(r"::(::)+", "::", s)
    return s


def key_of(eng, callee, at_):
    if callee.get("trait"):
        return callee["trait"].split("::")[-1].split("<")[0] + "::" + callee["method"]
    d = callee["decl"]
    m = re.search(r"<impl ([^>]*)>::(\w+)$", d)
    if m:
        return m.group(1).strip() + "::" + m.group(2)
    s = strip_generics(d)
    return "::".join([x for x in s.split("::") if x][-2:])


PANICS = ("core::panicking::", "std::rt::begin_panic", "std::rt::panic_fmt", "std::result::unwrap_failed", "core::option::expect_failed",
          "std::option::expect_failed", "core::option::unwrap_failed", "std::option::unwrap_failed", "std::process::abort", "core::slice::index::slice_")


def is_panic(callee):
    return any(callee["decl"].startswith(p) or callee["path"].startswith(p) for p in PANICS)


def ret(st, v):
    return [("ret", st, v)]


def tv(eng, st, v, ty):
    """value of an argument that may be a reference"""
    if v.op == "ref":
        return eng.read(st, v.a[0], v.a[1])
    if ty is not None and eng.ty(ty)["k"] in ("ref", "ptr"):
        return eng.deref(st, v, eng.ty(ty)["e"])
    return v


def target(eng, v, ty):
    pt = None
    if ty is not None and eng.ty(ty)["k"] in ("ref", "ptr"):
        pt = eng.ty(ty)["e"]
    return eng.target(v, pt)


def adtname(eng, ty):
    """last path segment of the ADT behind ty (through references)"""
    if ty is None:
        return ""
    t = eng.ty(ty)
    while t["k"] in ("ref", "ptr"):
        t = eng.ty(t["e"])
    if t["k"] == "adt":
        return t["path"].split("::")[-1]
    return t["k"]


def upd(eng, st, v, ty, f):
    r, p = target(eng, v, ty)
    old = eng.read(st, r, p)
    eng.write(st, r, p, f(old))
    return old


# ------------------------------------------------------------------ fallible sinks
def fallible(eng, st, name, ins, good, bad=None, okval=UNIT):
    """fork on success/failure of an io operation"""
    c = mk("ok", name, *ins)
    out = []
    for s, v in eng.split(st, c):
        if v:
            good(s)
            out.append(("ret", s, ok(okval) if not callable(okval) else ok(okval(s))))
        else:
            if bad:
                bad(s)
            out.append(("ret", s, err(mk("ioerr", c))))
    return out


def infallible(eng, wty):
    """in-memory sinks: Vec<u8>, and CompressionStream (that its Write impl accepts everything is C14's obligation)"""
    while wty is not None and eng.ty(wty)["k"] in ("ref", "ptr"):
        wty = eng.ty(wty)["e"]
    y = eng.ty(wty) if wty is not None else None
    return bool(y) and y["k"] == "adt" and y["path"].split("::")[-1] in ("Vec", "CompressionStream")


def append(eng, st, w, wty, data, name="write_all"):
    r, p = target(eng, w, wty)
    old = eng.read(st, r, p)
    if infallible(eng, wty):
        eng.write(st, r, p, cat(old, data))
        return ret(st, ok(UNIT))
    return fallible(eng, st, name, (old, data),
                    lambda s: eng.write(s, r, p, cat(old, data)),
                    lambda s: eng.write(s, r, p, cat(old, mk("seq", mk("sp", mk("partial", data))))))


@model("Write::write_all", "Write::write_vectored_all")
def _(eng, st, c, av, at_, dty, site):
    data = eng.value(st, tv(eng, st, av[1], at_[1]))
    return append(eng, st, av[0], at_[0], data)


@model("Write::write")
def _(eng, st, c, av, at_, dty, site):
    if c["fn"] is not None:
        return None
    data = eng.value(st, tv(eng, st, av[1], at_[1]))
    r, p = target(eng, av[0], at_[0])
    old = eng.read(st, r, p)
    n = mk("wn", old, data)
    n.rng = (0, 1 << 62)
    return fallible(eng, st, "write", (old, data),
                    lambda s: eng.write(s, r, p, cat(old, slice_(data, I(0), n))), None, n)


@model("Write::flush")
def _(eng, st, c, av, at_, dty, site):
    if c["fn"] is not None:
        return None
    r, p = target(eng, av[0], at_[0])
    old = eng.read(st, r, p)
    return fallible(eng, st, "flush", (old,), lambda s: None)


def _le(n, k):
    return cat(*[el(trunc(8, binop("shr", 64, False, n, I(8 * j)))) for j in range(k)])


def _endian(eng, c):
    for t in c["targs"]:
        s = eng.ty(t)["s"]
        if s.endswith("LittleEndian"):
            return "le"
        if s.endswith("BigEndian"):
            return "be"
    return "?e"


def _wnum(kind, size):
    def f(eng, st, c, av, at_, dty, site):
        e = _endian(eng, c)
        if av[1].op == "fbits" and e in ("le", "be"):
            data = mk("seq", mk("sp", fbytes(e, size, av[1].a[1])))
        elif kind == "int" and e == "le":
            data = _le(av[1], size)
        elif kind == "u8":
            data = el(av[1])
        else:
            data = mk("seq", mk("sp", fbytes(e, size, av[1])))
        # write_* on a crate-local sink goes through its own Write impl
        return append(eng, st, av[0], at_[0], data)
    return f


def fbytes(e, size, x):
    t = mk("fbytes", e, size, x)
    return t


terms._len_hook[0] = lambda s: I(s.a[1]) if s.op == "fbytes" else (slen(s.a[0]) if s.op == "sorted" else None)
for n_, k_ in (("u16", 2), ("u24", 3), ("u32", 4), ("u64", 8), ("i16", 2), ("i32", 4), ("i64", 8)):
    MODELS["WriteBytesExt::write_" + n_] = _wnum("int", k_)
MODELS["WriteBytesExt::write_u8"] = _wnum("u8", 1)
MODELS["WriteBytesExt::write_f32"] = _wnum("float", 4)
MODELS["WriteBytesExt::write_f64"] = _wnum("float", 8)


@model("f64::to_le_bytes", "f32::to_le_bytes", "f64::to_be_bytes", "f32::to_be_bytes", "f64::to_ne_bytes", "f32::to_ne_bytes")
def _(eng, st, c, av, at_, dty, site):
    m = c["decl"].split("::")[-1]
    # native order equals little endian on the analysed target
    return ret(st, mk("seq", mk("sp", fbytes("be" if m == "to_be_bytes" else "le", 4 if "f32" in c["decl"] else 8, av[0]))))


@model("u32::to_le_bytes", "u16::to_le_bytes", "u64::to_le_bytes", "u8::to_le_bytes", "usize::to_le_bytes", "i64::to_le_bytes", "i32::to_le_bytes")
def _(eng, st, c, av, at_, dty, site):
    w = eng.intinfo(at_[0])[0]
    if av[0].op == "fbits":
        return ret(st, mk("seq", mk("sp", fbytes("le", av[0].a[0], av[0].a[1]))))
    return ret(st, _le(av[0], w // 8))


@model("f64::to_bits", "f32::to_bits")
def _(eng, st, c, av, at_, dty, site):
    """the bits of a float as an integer, of which only the bytes and the way back are known"""
    return ret(st, mk("fbits", 4 if "f32" in c["decl"] else 8, av[0]))


@model("f64::from_bits", "f32::from_bits")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, av[0].a[1]) if av[0].op == "fbits" else None


@model("[T; N]::map")
def _(eng, st, c, av, at_, dty, site):
    n = literal_len(av[0])
    if n is None or n > 16:
        return None
    root = ("T", "amap%s" % (site,))
    st.mem[root] = av[1]
    live, out = [(st, EMPTY)], []
    for i in range(n):
        nxt = []
        for s, acc in live:
            for k, s2, y in eng.call_closure(s, mk("ref", root, ()), [at(av[0], I(i))], at_[1], None, site):
                if k == "ret":
                    nxt.append((s2, cat(acc, el(y))))
                else:
                    out.append((k, s2, y))
        live = nxt
    for s, acc in live:
        del s.mem[root]
        out.append(("ret", s, acc))
    return out


# ------------------------------------------------------------------ protobuf
@model("CodedOutputStream::new")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, agg("Coded", None, [av[0], EMPTY]))


def pb(v):
    return mk("pb", v)


@model("Message::write_to")
def _(eng, st, c, av, at_, dty, site):
    if c["fn"] is not None:
        return None
    r, p = target(eng, av[1], at_[1])
    m = eng.value(st, tv(eng, st, av[0], at_[0]))
    old = eng.read(st, r, p)
    pend = fld(old, None, 1, 2)
    return fallible(eng, st, "pb_write", (m, pend),
                    lambda s: eng.write(s, r, p + (("f", 1),), cat(pend, mk("seq", mk("sp", pb(m))))))


MODELS["Message::write_to_with_cached_sizes"] = MODELS["Message::write_to"]


@model("CodedOutputStream::flush")
def _(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    old = eng.read(st, r, p)
    pend = fld(old, None, 1, 2)
    w = fld(old, None, 0, 2)
    wr, wp = eng.target(w)
    wold = eng.read(st, wr, wp)

    def good(s):
        eng.write(s, wr, wp, cat(wold, pend))
        eng.write(s, r, p + (("f", 1),), EMPTY)
    return fallible(eng, st, "pb_flush", (wold, pend), good,
                    lambda s: eng.write(s, wr, wp, cat(wold, mk("seq", mk("sp", mk("partial", pend))))))


@model("Message::write_to_writer")
def _(eng, st, c, av, at_, dty, site):
    m = eng.value(st, tv(eng, st, av[0], at_[0]))
    return append(eng, st, av[1], at_[1], mk("seq", mk("sp", pb(m))))


@model("Message::write_to_vec")
def _(eng, st, c, av, at_, dty, site):
    m = eng.value(st, tv(eng, st, av[0], at_[0]))
    r, p = target(eng, av[1], at_[1])
    old = eng.read(st, r, p)
    return fallible(eng, st, "pb_bytes", (m,), lambda s: eng.write(s, r, p, cat(old, mk("seq", mk("sp", pb(m))))))


@model("Message::write_to_bytes")
def _(eng, st, c, av, at_, dty, site):
    m = eng.value(st, tv(eng, st, av[0], at_[0]))
    return fallible(eng, st, "pb_bytes", (m,), lambda s: None, None, mk("seq", mk("sp", pb(m))))


@model("RepeatedField::from_vec", "RepeatedField::into_vec", "RepeatedField::from_slice", "RepeatedField::from_iter_")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, tv(eng, st, av[0], at_[0]))


@model("RepeatedField::new", "Vec::new", "String::new", "Vec::with_capacity", "String::with_capacity")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, EMPTY)


@model("SingularPtrField::some", "SingularField::some")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, some(av[0]))


@model("SingularPtrField::none", "SingularField::none")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, NONE)


def defaults(eng, st, ty):
    """[(kind, state, value)] of the default value of a message field's type"""
    if is_seq_ty(eng, ty):
        return ret(st, EMPTY)
    y = eng.ty(ty)
    fs = [f for f in eng.p.fns if f and f.local and f.name == "new" and f.argc == 0 and f.locals[0] == ty]
    if y["k"] == "adt" and len(fs) == 1:
        return eng.inline(fs[0], [], st)
    if y["k"] != "adt" or y.get("kind") != "struct" or not y["variants"]:
        return None
    vals = []
    for x in y["variants"][0]["fields"]:       # a generated message: every field absent
        n = adtname(eng, x["ty"])
        vals.append(EMPTY if is_seq_ty(eng, x["ty"]) else NONE if n in ("Option", "SingularPtrField", "SingularField") else mk("default", eng.ty(x["ty"]).get("path", n)))
    return ret(st, agg(y["path"], None, vals))


@model("SingularPtrField::set_default", "SingularField::set_default")
def _(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    out = []
    for k, s, v in defaults(eng, st, eng.ty(dty)["e"]) or []:
        if k == "ret":
            eng.write(s, r, p, some(v))
            v = mk("ref", r, p + (("v", 1, 0),))
        out.append((k, s, v))
    return out or None


@model(*[t + m for t in ("SingularPtrField::", "SingularField::") for m in ("is_some", "is_none", "as_ref", "as_mut", "take", "clear", "get_ref")])
def _(eng, st, c, av, at_, dty, site):
    m = c["decl"].split("::")[-1]
    r, p = target(eng, av[0], at_[0])
    if m == "clear":
        eng.write(st, r, p, NONE)
        return ret(st, UNIT)
    ty = at_[0]
    while eng.ty(ty)["k"] == "ref":
        ty = eng.ty(ty)["e"]
    out = []
    for s, k, x in cases(eng, st, eng.read(st, r, p), ty):
        inner = mk("ref", r, p + (("v", 1, 0),))
        if m in ("is_some", "is_none"):
            v = TRUE if (k == 1) == (m == "is_some") else FALSE
        elif m == "take":
            v = some(fld(x, 1, 0, 1)) if k == 1 else NONE
            eng.write(s, r, p, NONE)
        elif m == "get_ref":
            if k == 0:
                out.append(("panic", s, (c["path"],) + site))
                continue
            v = inner
        else:
            v = some(inner) if k == 1 else NONE
        out.append(("ret", s, v))
    return out


@model("RepeatedField::push_default")
def _(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    out = []
    for k, s, v in defaults(eng, st, eng.ty(dty)["e"]) or []:
        if k == "ret":
            old = eng.read(s, r, p)
            eng.write(s, r, p, cat(old, el(v)))
            v = mk("ref", r, p + (("at", slen(old)),))
        out.append((k, s, v))
    return out or None


@model("Default::default")
def _(eng, st, c, av, at_, dty, site):
    if c["fn"] is not None:
        return None
    y = eng.ty(dty)
    if y["k"] == "int":
        return ret(st, I(0))
    if y["k"] == "bool":
        return ret(st, FALSE)
    if y["k"] == "float":
        return ret(st, mk("float", 0, y["s"]))
    if y["k"] == "adt":
        n = y["path"].split("::")[-1]
        if n in ("Vec", "String", "RepeatedField"):
            return ret(st, EMPTY)
        if n in ("Option", "SingularPtrField", "SingularField"):
            return ret(st, NONE)
        return ret(st, mk("default", y["path"]))
    if y["k"] == "tuple" and not y["es"]:
        return ret(st, UNIT)
    return ret(st, mk("default", y["s"]))


# ------------------------------------------------------------------ sequences
def is_seq_ty(eng, ty):
    n = adtname(eng, ty)
    return n in ("Vec", "String", "slice", "array", "str", "RepeatedField")


@model("Vec::push", "String::push", "RepeatedField::push")
def _(eng, st, c, av, at_, dty, site):
    upd(eng, st, av[0], at_[0], lambda o: cat(o, el(av[1])))
    return ret(st, UNIT)


@model("Vec::pop", "RepeatedField::pop")
def _(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    old = eng.read(st, r, p)
    n = slen(old)
    out = []
    for s, v in eng.split(st, eqint(n, I(0), 64)):
        if v:
            out.append(("ret", s, NONE))
        else:
            o = eng.read(s, r, p)
            k = sub64(slen(o), I(1))
            x = at(o, k)
            eng.write(s, r, p, slice_(o, I(0), k))
            out.append(("ret", s, some(x)))
    return out


@model("Vec::clear", "String::clear", "RepeatedField::clear")
def _(eng, st, c, av, at_, dty, site):
    upd(eng, st, av[0], at_[0], lambda o: EMPTY)
    return ret(st, UNIT)


@model("Vec::reserve", "Vec::shrink_to_fit", "String::reserve", "Vec::reserve_exact")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, UNIT)


@model("Vec::resize")
def _(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    n = av[1]
    out = []
    old = eng.read(st, r, p)
    if isint(n) and n.a[0] == 0:
        eng.write(st, r, p, EMPTY)
        return ret(st, UNIT)
    for s, v in eng.split(st, lt(slen(old), n, 64, False)):
        o = eng.read(s, r, p)
        eng.write(s, r, p, cat(o, mk("seq", mk("rp", av[2], sub64(n, slen(o))))) if v else slice_(o, I(0), n))
        out.append(("ret", s, UNIT))
    return out


@model("Vec::truncate", "String::truncate", "RepeatedField::truncate")
def _(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    n = av[1]
    old = eng.read(st, r, p)
    if isint(n) and n.a[0] == 0:
        eng.write(st, r, p, EMPTY)
        return ret(st, UNIT)
    out = []
    for s, v in eng.split(st, lt(n, slen(old), 64, False)):
        if v:
            eng.write(s, r, p, slice_(eng.read(s, r, p), I(0), n))
        out.append(("ret", s, UNIT))
    return out


@model("Vec::extend_from_slice", "String::push_str", "Vec::append")
def _(eng, st, c, av, at_, dty, site):
    d = tv(eng, st, av[1], at_[1])
    upd(eng, st, av[0], at_[0], lambda o: cat(o, d))
    if c["decl"].endswith("append"):
        upd(eng, st, av[1], at_[1], lambda o: EMPTY)
    return ret(st, UNIT)


@model("Extend::extend")
def _(eng, st, c, av, at_, dty, site):
    if c["fn"] is not None:
        return None
    r, p = target(eng, av[0], at_[0])
    if is_seq_ty(eng, at_[1]):
        d = tv(eng, st, av[1], at_[1])
        upd(eng, st, av[0], at_[0], lambda o: cat(o, d))
        return ret(st, UNIT)
    out = []
    it = into_iter(eng, st, av[1], at_[1])
    if it is None:
        return None
    for k, s, acc in eng.builtin_loop(st, it, lambda s, a, x: [("ret", s, cat(a, el(deref_elem(eng, s, x))))], EMPTY, None, site):
        if k == "ret":
            upd(eng, s, av[0], at_[0], lambda o: cat(o, acc))
            out.append(("ret", s, UNIT))
        else:
            out.append((k, s, acc))
    return out


def deref_elem(eng, st, x):
    return eng.read(st, x.a[0], x.a[1]) if x.op == "ref" else x


@model("Vec::len", "[T]::len", "str::len", "String::len", "RepeatedField::len", "ExactSizeIterator::len")
def _(eng, st, c, av, at_, dty, site):
    v = tv(eng, st, av[0], at_[0])
    if v.op == "agg" and str(v.a[0]).startswith("it."):
        return None
    return ret(st, slen(v))


@model("Vec::is_empty", "[T]::is_empty", "str::is_empty", "String::is_empty", "RepeatedField::is_empty")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, eqint(slen(tv(eng, st, av[0], at_[0])), I(0), 64))


@model("Vec::capacity")
def _(eng, st, c, av, at_, dty, site):
    r = mk("ret", "Vec::capacity", tv(eng, st, av[0], at_[0]))
    r.rng = (0, 1 << 62)
    return ret(st, r)


@model("Vec::as_slice", "Vec::as_mut_slice", "String::as_str", "str::as_bytes", "String::as_bytes", "slice::from_ref", "Box::as_ref", "Box::as_mut",
       "[T]::as_ref", "String::as_mut_str", "array::as_slice", "[T; N]::as_slice", "Vec::leak", "hint::black_box")
def _(eng, st, c, av, at_, dty, site):
    if c["decl"].endswith("from_ref"):
        v = tv(eng, st, av[0], at_[0])
        eng.uid += 1
        st.mem[("T", eng.uid)] = el(v)
        return ret(st, mk("ref", ("T", eng.uid), ()))
    return ret(st, av[0])


@model("String::into_bytes", "Vec::into_boxed_slice", "[T]::to_vec", "str::to_owned", "[T]::into_vec", "String::from_utf8_unchecked", "ToString::to_string", "ToOwned::to_owned")
def _(eng, st, c, av, at_, dty, site):
    if at_[0] is None and c.get("trait") and c.get("targs"):
        at_ = [c["targs"][0]] + list(at_[1:])
    if c["decl"].endswith("to_string") and not is_seq_ty(eng, at_[0]):
        t = at_[0]
        while eng.ty(t)["k"] == "ref":
            t = eng.ty(t)["e"]
        if eng.ty(t)["k"] == "int":
            return ret(st, mk("seq", mk("sp", mk("disp", eng.value(st, tv(eng, st, av[0], at_[0])), None))))
        return ret(st, mk("ret", "to_string", eng.value(st, tv(eng, st, av[0], at_[0]))))
    return ret(st, tv(eng, st, av[0], at_[0]))


@model("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut")
def _(eng, st, c, av, at_, dty, site):
    if c["fn"] is not None:
        return None
    if is_seq_ty(eng, at_[0]):
        return ret(st, av[0])
    if adtname(eng, at_[0]) == "Box":
        r, p = target(eng, av[0], at_[0])
        return ret(st, mk("ref", r, p + (("bx",),)))
    return None


@model("Index::index", "IndexMut::index_mut", "[T]::get_unchecked", "[T]::get_unchecked_mut")
def _(eng, st, c, av, at_, dty, site):
    if not is_seq_ty(eng, at_[0]):
        return None
    r, p = target(eng, av[0], at_[0])
    return ret(st, mk("ref", r, p + (index_elem(eng, st, r, p, av[1], at_[1]),)))


def index_elem(eng, st, r, p, ix, ity):
    y = eng.ty(ity)
    if y["k"] == "int":
        return ("at", ix)
    n = y["path"].split("::")[-1]
    ln = slen(eng.read(st, r, p))
    if n == "Range":
        return ("rng", fld(ix, None, 0, 2), fld(ix, None, 1, 2))
    if n == "RangeTo":
        return ("rng", I(0), fld(ix, None, 0, 1))
    if n == "RangeFrom":
        return ("rng", fld(ix, None, 0, 1), ln)
    if n == "RangeFull":
        return ("rng", I(0), ln)
    if n == "RangeInclusive":
        return ("rng", fld(ix, None, 0, 2), fld(ix, None, 1, 2))
    if n == "RangeToInclusive":
        return ("rng", I(0), add64(fld(ix, None, 0, 1), I(1)))
    raise TypeError(n)


@model("RangeInclusive::new")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, agg(RANGE, None, [av[0], add64(av[1], I(1))]))


@model("[T]::get", "[T]::get_mut", "Vec::get", "Vec::get_mut")
def _(eng, st, c, av, at_, dty, site):
    if eng.ty(at_[1])["k"] != "int":
        return None
    r, p = target(eng, av[0], at_[0])
    n = slen(eng.read(st, r, p))
    return [("ret", s, some(mk("ref", r, p + (("at", av[1]),))) if v else NONE) for s, v in eng.split(st, lt(av[1], n, 64, False))]


@model("[T]::last", "[T]::last_mut", "[T]::first", "[T]::first_mut")
def _(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    n = slen(eng.read(st, r, p))
    out = []
    for s, v in eng.split(st, eqint(n, I(0), 64)):
        if v:
            out.append(("ret", s, NONE))
        else:
            n2 = slen(eng.read(s, r, p))
            i = sub64(n2, I(1)) if "last" in c["decl"] else I(0)
            out.append(("ret", s, some(mk("ref", r, p + (("at", i),)))))
    return out


@model("[T]::split_at", "[T]::split_at_mut")
def _(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    n = slen(eng.read(st, r, p))
    return ret(st, agg("()", None, [mk("ref", r, p + (("rng", I(0), av[1]),)), mk("ref", r, p + (("rng", av[1], n),))]))


@model("[T]::copy_from_slice", "[T]::clone_from_slice")
def _(eng, st, c, av, at_, dty, site):
    d = tv(eng, st, av[1], at_[1])
    r, p = target(eng, av[0], at_[0])
    eng.write(st, r, p, d)
    return ret(st, UNIT)


@model("[T]::fill")
def _(eng, st, c, av, at_, dty, site):
    upd(eng, st, av[0], at_[0], lambda o: mk("seq", mk("rp", av[1], slen(o))))
    return ret(st, UNIT)


@model("[T]::concat", "Concat::concat", "[T]::join")
def _(eng, st, c, av, at_, dty, site):
    return None


@model("vec::from_elem")
def _(eng, st, c, av, at_, dty, site):
    if isint(av[1]) and av[1].a[0] == 0:
        return ret(st, EMPTY)
    return ret(st, mk("seq", mk("rp", av[0], av[1])))


@model("Vec::split_off")
def _(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    o = eng.read(st, r, p)
    eng.write(st, r, p, slice_(o, I(0), av[1]))
    return ret(st, slice_(o, av[1], slen(o)))


@model("mem::replace", "mem::take", "mem::swap")
def _(eng, st, c, av, at_, dty, site):
    if "replace" in c["decl"]:
        old = upd(eng, st, av[0], at_[0], lambda o: av[1])
        return ret(st, old)
    if "swap" in c["decl"]:
        a, b = tv(eng, st, av[0], at_[0]), tv(eng, st, av[1], at_[1])
        upd(eng, st, av[0], at_[0], lambda o: b)
        upd(eng, st, av[1], at_[1], lambda o: a)
        return ret(st, UNIT)
    if is_seq_ty(eng, at_[0]):
        return ret(st, upd(eng, st, av[0], at_[0], lambda o: EMPTY))
    if eng.intinfo(dty):
        return ret(st, upd(eng, st, av[0], at_[0], lambda o: I(0)))
    if adtname(eng, at_[0]) == "Option":
        return ret(st, upd(eng, st, av[0], at_[0], lambda o: NONE))
    return None


@model("Option::take")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, upd(eng, st, av[0], at_[0], lambda o: NONE))


@model("Option::replace")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, upd(eng, st, av[0], at_[0], lambda o: some(av[1])))


@model("Box::new")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, agg("box", "bx", [av[0]]))


@model("Box::new_uninit", "Box::new_uninit_in")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, agg("box", "bx", [mk("uninit")]))


@model("boxed::box_assume_init_into_vec_unsafe", "Box::assume_init", "slice::into_vec", "[T]::into_vec")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, fld(av[0], "bx", 0, 1) if "assume_init_into_vec" in c["decl"] or "into_vec" in c["decl"] else av[0])


@model("Clone::clone", "Option::cloned", "Option::copied", "Clone::clone_from_")
def _(eng, st, c, av, at_, dty, site):
    v = tv(eng, st, av[0], at_[0])
    if c["decl"].split("::")[-1] in ("cloned", "copied"):
        if v.op == "agg" and v.a[1] == 0:
            return ret(st, v)
        if v.op == "agg" and v.a[1] == 1:
            x = v.a[2]
            return ret(st, some(eng.read(st, x.a[0], x.a[1]) if x.op == "ref" else eng.deref(st, x)))
        return None
    return ret(st, v)


# ------------------------------------------------------------------ Option / Result plumbing
def cases(eng, st, v, ty, n=2):
    """partition by variant -> [(state, variant index, value)]"""
    if v.op == "agg" and isinstance(v.a[1], int):
        return [(st, v.a[1], v)]
    if v.op == "ite":
        out = []
        for s, b in eng.split(st, v.a[0]):
            out += cases(eng, s, v.a[1] if b else v.a[2], ty, n)
        return out
    d = eng.discr_of(v, ty)
    out = []
    for s, b in eng.split(st, eqint(d, I(0), 64)):
        out.append((s, 0 if b else 1, v))
    return out


@model("Try::branch")
def _(eng, st, c, av, at_, dty, site):
    v = av[0]
    y = eng.ty(at_[0])
    isopt = y["path"].endswith("Option")
    out = []
    for s, k, x in cases(eng, st, v, at_[0]):
        if isopt:
            out.append(("ret", s, agg(CF, 1, [NONE]) if k == 0 else agg(CF, 0, [fld(x, 1, 0, 1)])))
        else:
            pay = eng.annotate(fld(x, k, 0, 1), y["args"][k])
            out.append(("ret", s, agg(CF, 0, [pay]) if k == 0 else agg(CF, 1, [err(pay)])))
    return out


@model("FromResidual::from_residual")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, av[0])


@model("Try::from_output")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, some(av[0]) if eng.ty(dty)["path"].endswith("Option") else ok(av[0]))


@model("Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut", "Result::as_ref", "Result::as_mut")
def _(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    v = eng.read(st, r, p)
    ty = eng.ty(at_[0])["e"]
    isres = eng.ty(ty)["path"].endswith("Result")
    out = []
    for s, k, x in cases(eng, st, v, ty):
        if isres:
            out.append(("ret", s, agg(RES, k, [mk("ref", r, p + (("v", k, 0),))])))
        elif k == 0:
            out.append(("ret", s, NONE))
        else:
            q = p + (("v", 1, 0),)
            if "deref" in c["decl"] and adtname(eng, eng.ty(ty)["args"][0]) == "Box":
                q = q + (("bx",),)
            out.append(("ret", s, some(mk("ref", r, q))))
    return out


@model("From::from", "Into::into", "convert::identity")
def _(eng, st, c, av, at_, dty, site):
    if c["fn"] is not None and eng.p.fns[c["fn"]] is not None and eng.p.fns[c["fn"]].local:
        return None
    if c["decl"].endswith("into") and at_[0] is not None and at_[0] != dty:
        fs = [f for f in eng.p.fns if f and f.local and f.name == "from" and f.argc == 1 and str(getattr(f, "impl_trait", "")).split("::")[-1] == "From" and f.locals[1] == at_[0] and f.locals[0] == dty]
        if len(fs) == 1:
            return eng.inline(fs[0], [av[0]], st)
    a, b = eng.intinfo(at_[0]) if at_[0] is not None else None, eng.intinfo(dty)
    if a and b:
        if eng.ty(at_[0])["k"] == "bool":
            return ret(st, eng._b2i(av[0]))
        return ret(st, cast(av[0], a[0], a[1], b[0], b[1]))
    if is_seq_ty(eng, dty):
        return ret(st, tv(eng, st, av[0], at_[0]))
    if adtname(eng, dty) == "Option" and adtname(eng, at_[0]) != "Option":
        return ret(st, some(av[0]))
    if adtname(eng, dty) == "SingularPtrField" and adtname(eng, at_[0]) == "Option":
        return ret(st, av[0])
    if adtname(eng, dty) == "Box" and adtname(eng, at_[0]) != "Box":
        return ret(st, agg("box", "bx", [av[0]]))
    return ret(st, av[0])


# ------------------------------------------------------------------ integers
INTS = {n + str(b): (b, n == "i") for n in "ui" for b in (8, 16, 32, 64, 128)}
INTS.update({"usize": (64, False), "isize": (64, True)})


def _fits(eng, st, op, a, b, w, s):
    """the condition under which an integer operation does not overflow"""
    if not s and op == "sub":
        return notb(lt(a, b, w, s))
    return mk("nofl", op, w, s, a, b)


def _intops():
    ops = {"add": terms.add, "sub": terms.sub, "mul": mul}

    def wrapping(op, w, s):
        return lambda eng, st, c, av, at_, dty, site: ret(st, ops[op](av[0], av[1], w, s))

    def checked(op, w, s):
        def f(eng, st, c, av, at_, dty, site):
            v = ops[op](av[0], av[1], w, s)
            return [("ret", s2, some(v) if b else NONE) for s2, b in eng.split(st, _fits(eng, st, op, av[0], av[1], w, s))]
        return f

    def overflowing(op, w, s):
        def f(eng, st, c, av, at_, dty, site):
            v = ops[op](av[0], av[1], w, s)
            return [("ret", s2, agg("()", None, [v, FALSE if b else TRUE])) for s2, b in eng.split(st, _fits(eng, st, op, av[0], av[1], w, s))]
        return f

    def satadd(w, s):
        def f(eng, st, c, av, at_, dty, site):
            if s:
                return ret(st, mk("satadd", w, av[0], av[1]))
            return [("ret", s2, terms.add(av[0], av[1], w, s) if b else I(typerange(w, s)[1])) for s2, b in eng.split(st, _fits(eng, st, "add", av[0], av[1], w, s))]
        return f

    def satsub(w, s):
        def f(eng, st, c, av, at_, dty, site):
            if s:
                return ret(st, mk("satsub", w, av[0], av[1]))
            return ret(st, ite(lt(av[0], av[1], w, s), I(0), terms.sub(av[0], av[1], w, s)))
        return f

    def absdiff(w, s):
        def f(eng, st, c, av, at_, dty, site):
            if s:
                return None
            return [("ret", s2, terms.sub(av[1], av[0], w, s) if b else terms.sub(av[0], av[1], w, s)) for s2, b in eng.split(st, lt(av[0], av[1], w, s))]
        return f

    def magnitude(w, s):
        return lambda eng, st, c, av, at_, dty, site: [("ret", s2, terms.scale(av[0], -1, w, s) if b else av[0]) for s2, b in eng.split(st, lt(av[0], I(0), w, s))]

    def power(w, s):
        def f(eng, st, c, av, at_, dty, site):
            if isint(av[0]) and isint(av[1]):
                return ret(st, I(wrap(av[0].a[0] ** av[1].a[0], w, s)))
            return ret(st, mk("pow", av[0], av[1]))
        return f

    def ext(w, s):
        lo, hi = typerange(w, s)
        return lambda eng, st, c, av, at_, dty, site: ret(st, I(hi if c["decl"].endswith("max_value") else lo))

    for t, (w, s) in INTS.items():
        for o in ops:
            MODELS["%s::wrapping_%s" % (t, o)] = wrapping(o, w, s)
            MODELS["%s::checked_%s" % (t, o)] = checked(o, w, s)
            MODELS["%s::overflowing_%s" % (t, o)] = overflowing(o, w, s)
        MODELS[t + "::wrapping_neg"] = lambda eng, st, c, av, at_, dty, site, w=w, s=s: ret(st, terms.scale(av[0], -1, w, s))
        MODELS[t + "::max_value"] = MODELS[t + "::min_value"] = ext(w, s)
        MODELS[t + "::saturating_sub"] = satsub(w, s)
        MODELS[t + "::saturating_add"] = satadd(w, s)
        MODELS[t + "::abs_diff"] = absdiff(w, s)
        MODELS[t + "::pow"] = power(w, s)
        for o in ("shl", "shr"):
            MODELS["%s::wrapping_%s" % (t, o)] = lambda eng, st, c, av, at_, dty, site, o=o, w=w, s=s: ret(st, binop(o, w, s, av[0], av[1]))
        if s:
            MODELS[t + "::is_negative"] = lambda eng, st, c, av, at_, dty, site, w=w: ret(st, lt(av[0], I(0), w, True))
            MODELS[t + "::is_positive"] = lambda eng, st, c, av, at_, dty, site, w=w: ret(st, lt(I(0), av[0], w, True))
        else:
            for o, b in (("rem", "rem"), ("div", "div")):
                MODELS["%s::%s_euclid" % (t, o)] = lambda eng, st, c, av, at_, dty, site, b=b, w=w: ret(st, binop(b, w, False, av[0], av[1])) if isint(av[1]) and av[1].a[0] > 0 else None
        if s:
            MODELS[t + "::abs"] = MODELS[t + "::wrapping_abs"] = MODELS[t + "::unsigned_abs"] = magnitude(w, s)


_intops()


@model("TryFrom::try_from", "TryInto::try_into")
def _(eng, st, c, av, at_, dty, site):
    a = eng.intinfo(at_[0]) if at_[0] is not None else None
    if adtname(eng, dty) != "Result" or not a:
        return None
    b = eng.intinfo(eng.ty(dty)["args"][0])
    if not b:
        return None
    out = [(st, True)]
    (alo, ahi), (blo, bhi) = typerange(*a), typerange(*b)
    if ahi > bhi:
        out = [(s2, not v) for s, ok in out for s2, v in eng.split(s, lt(I(bhi), av[0], *a))]
    if alo < blo:
        out = [(s2, ok and not v) for s, ok in out for s2, v in (eng.split(s, lt(av[0], I(blo), *a)) if ok else [(s, True)])]
    return [("ret", s, agg(RES, 0, [cast(av[0], a[0], a[1], b[0], b[1])]) if ok else agg(RES, 1, [mk("agg", "TryFromIntError", None)])) for s, ok in out]


@model("Ord::cmp", "PartialOrd::partial_cmp")
def _(eng, st, c, av, at_, dty, site):
    if c["fn"] is not None and eng.p.fns[c["fn"]] is not None and eng.p.fns[c["fn"]].local:
        return None
    ty, a, b, n = at_[0], av[0], av[1], 0
    while ty is not None and eng.ty(ty)["k"] == "ref" and n < 4:
        ty = eng.ty(ty)["e"]
        a, b = deref1(eng, st, a, ty), deref1(eng, st, b, ty)
        n += 1
    ii = eng.intinfo(ty) if ty is not None else None
    if not ii:
        return None
    v = eng.ordering(a, b, *ii)
    return v and ret(st, some(v) if "partial" in c["decl"] else v)


@model("Ord::min", "cmp::min")
def _(eng, st, c, av, at_, dty, site):
    ii = eng.intinfo(at_[0])
    if not ii:
        r = eng.optorder(av[1], av[0], at_[0], "Lt")
        return r and [("ret", s, av[1] if v else av[0]) for s, v in eng.split(st, r)]
    return [("ret", s, av[0] if v else av[1]) for s, v in eng.split(st, notb(lt(av[1], av[0], *ii)))]


@model("Ord::max", "cmp::max")
def _(eng, st, c, av, at_, dty, site):
    ii = eng.intinfo(at_[0])
    if not ii:
        r = eng.optorder(av[1], av[0], at_[0], "Lt")
        return r and [("ret", s, av[0] if v else av[1]) for s, v in eng.split(st, r)]
    return [("ret", s, av[1] if v else av[0]) for s, v in eng.split(st, notb(lt(av[1], av[0], *ii)))]


def _cmp(op):
    def f(eng, st, c, av, at_, dty, site):
        if c["fn"] is not None and eng.p.fns[c["fn"]] is not None and eng.p.fns[c["fn"]].local:
            return None
        ty = at_[0]
        a, b = av[0], av[1]
        tb = at_[1]
        n = 0
        while ty is not None and eng.ty(ty)["k"] == "ref" and n < 4:
            ty = eng.ty(ty)["e"]
            a, b = deref1(eng, st, a, ty), deref1(eng, st, b, ty)
            n += 1
        if ty is None:
            return None
        if op in ("Eq", "Ne") and a is not b:
            ii = elem_int(eng, ty)
            if ii:
                r = seq_equal(eng, st, a, b, ii)
                if r is not None:
                    return [("ret", s, TRUE if v == (op == "Eq") else FALSE) for s, v in r]
        return ret(st, eng.binop_t(st, op, a, b, ty))
    return f


def deref1(eng, st, v, ty):
    return eng.deref(st, v, ty)


def literal_len(s):
    """number of elements of a sequence written out element by element"""
    if s.op == "bytes":
        return len(s.a[0]) // 2
    if s.op == "seq" and all(p.op == "el" or (p.op == "rp" and isint(p.a[1]) and p.a[1].a[0] <= 16) for p in s.a):
        n = slen(s)
        return n.a[0] if isint(n) else None
    return None


def elem_int(eng, ty):
    """(width, signed) of the integer elements of a sequence type"""
    y = eng.ty(ty)
    while y["k"] == "ref":
        y = eng.ty(y["e"])
    if y["k"] in ("slice", "array"):
        return eng.intinfo(y["e"])
    if y["k"] == "adt" and y["path"].split("::")[-1] == "Vec":
        return eng.intinfo(y["args"][0])
    return None


def seq_equal(eng, st, a, b, ii):
    """partitions of st by a == b when one of them is written out: [(state, bool)] or None"""
    n = literal_len(b)
    if n is None:
        a, b = b, a
        n = literal_len(b)
    if n is None or n > 16:
        return None
    out = []
    todo = []
    for s, v in eng.split(st, eqint(slen(a), I(n), 64)):
        if v:
            todo.append(s)
        else:
            out.append((s, False))
    for i in range(n):
        nxt = []
        for s in todo:
            for s2, v in eng.split(s, eqint(eng.value(s, at(a, I(i))), at(b, I(i)), ii[0])):
                if v:
                    nxt.append(s2)
                else:
                    out.append((s2, False))
        todo = nxt
    return out + [(s, True) for s in todo]


@model("[T]::ends_with", "[T]::starts_with")
def _(eng, st, c, av, at_, dty, site):
    ii = elem_int(eng, at_[0])
    a, b = tv(eng, st, av[0], at_[0]), tv(eng, st, av[1], at_[1])
    n = literal_len(b)
    if ii is None or n is None:
        return None
    out = []
    for s, short_ in eng.split(st, lt(slen(a), I(n), 64, False)):
        if short_:
            out.append(("ret", s, FALSE))
            continue
        ln = slen(a)
        part = slice_(a, sub64(ln, I(n)), ln) if "ends" in c["decl"] else slice_(a, I(0), I(n))
        r = seq_equal(eng, s, part, b, ii)
        if r is None:
            return None
        out += [("ret", s2, TRUE if v else FALSE) for s2, v in r]
    return out


for _m, _o in (("PartialEq::eq", "Eq"), ("PartialEq::ne", "Ne"), ("PartialOrd::lt", "Lt"), ("PartialOrd::le", "Le"), ("PartialOrd::gt", "Gt"), ("PartialOrd::ge", "Ge")):
    MODELS[_m] = _cmp(_o)


# ------------------------------------------------------------------ iterators
def into_iter(eng, st, v, ty):
    y = eng.ty(ty)
    if v.op == "agg" and (str(v.a[0]).startswith("it.") or v.a[0] == RANGE):
        return v
    if y["k"] == "ref":
        if is_seq_ty(eng, y["e"]):
            r, p = eng.target(v, y["e"])
            return agg("it.ref", None, [mk("ref", r, p), I(0), slen(eng.read(st, r, p))])
        inner = eng.read(st, *eng.target(v, y["e"]))
        if inner.op == "agg" and (str(inner.a[0]).startswith("it.") or inner.a[0] == RANGE):
            return agg("it.by", None, [v])
        if adtname(eng, ty) == "Option":
            r, p = eng.target(v, y["e"])
            return agg("it.optref", None, [mk("ref", r, p), I(0)])
        return None
    if y["k"] == "adt":
        n = y["path"].split("::")[-1]
        if n in ("Vec", "RepeatedField"):
            return agg("it.val", None, [v, I(0), slen(v)])
        if n == "Range":
            return agg(RANGE, None, [fld(v, None, 0, 2), fld(v, None, 1, 2)])
        if n == "Option":
            return agg("it.opt", None, [v])
        if n == "RangeFrom":
            return agg("it.from", None, [fld(v, None, 0, 1)])
    if y["k"] == "array":
        return agg("it.val", None, [v, I(0), slen(v)])
    return None


@model("IntoIterator::into_iter")
def _(eng, st, c, av, at_, dty, site):
    it = into_iter(eng, st, av[0], at_[0])
    if it is None:
        if c["fn"] is None and av[0].op != "agg":
            return ret(st, av[0])
        return None
    return ret(st, it)


@model("[T]::iter", "[T]::iter_mut", "Vec::iter", "str::bytes", "RepeatedField::iter", "RepeatedField::iter_mut")
def _(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    s = eng.read(st, r, p)
    if c["decl"].endswith("bytes"):
        return ret(st, agg("it.val", None, [s, I(0), slen(s)]))
    return ret(st, agg("it.ref", None, [mk("ref", r, p), I(0), slen(s)]))


@model("Option::iter")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, agg("it.optref", None, [av[0], I(0)]))


@model("[T]::windows")
def _(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    s = eng.read(st, r, p)
    n = literal_len(s)
    if n is None or n > 8 or not isint(av[1]) or av[1].a[0] < 1:
        return None
    k = av[1].a[0]
    ws = cat(*[el(mk("ref", r, p + (("rng", I(i), I(i + k)),))) for i in range(n - k + 1)]) if n >= k else EMPTY
    return ret(st, agg("it.val", None, [ws, I(0), slen(ws)]))


@model("[T]::chunks", "[T]::chunks_mut")
def _(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    s = eng.read(st, r, p)
    return ret(st, agg("it.chunks", None, [mk("ref", r, p), I(0), slen(s), av[1]]))


@model("Vec::drain")
def _(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    e = index_elem(eng, st, r, p, av[1], at_[1])
    s = eng.read(st, r, p)
    x = slice_(s, e[1], e[2])
    eng.write(st, r, p, cat(slice_(s, I(0), e[1]), slice_(s, e[2], slen(s))))
    return ret(st, agg("it.val", None, [x, I(0), slen(x)]))


def adaptor(tag):
    def f(eng, st, c, av, at_, dty, site):
        it = into_iter(eng, st, av[0], at_[0])
        if it is None:
            return None
        return ret(st, agg(tag, None, [it] + list(av[1:])))
    return f


for _m, _t in (("map", "it.map"), ("filter", "it.filter"), ("cloned", "it.cl"), ("copied", "it.cl"), ("inspect", "it.insp"), ("filter_map", "it.fmap")):
    MODELS["Iterator::" + _m] = adaptor(_t)
MODELS["Iterator::rev"] = adaptor("it.rev")


@model("Iterator::take")
def _(eng, st, c, av, at_, dty, site):
    it = into_iter(eng, st, av[0], at_[0])
    if it is None:
        return None
    if it.a[0] in ("it.ref", "it.val"):
        pos, end = it.a[3], it.a[4]
        n = add64(pos, av[1])
        return [("ret", s, agg(it.a[0], None, [it.a[2], pos, end if v else n])) for s, v in eng.split(st, lt(end, n, 64, False))]
    return ret(st, agg("it.take", None, [it] + list(av[1:])))


@model("[T]::swap")
def _(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    a, b = eng.read(st, r, p + (("at", av[1]),)), eng.read(st, r, p + (("at", av[2]),))
    eng.write(st, r, p + (("at", av[1]),), b)
    eng.write(st, r, p + (("at", av[2]),), a)
    return ret(st, UNIT)


@model("Vec::insert")
def _(eng, st, c, av, at_, dty, site):
    upd(eng, st, av[0], at_[0], lambda o: cat(slice_(o, I(0), av[1]), el(av[2]), slice_(o, av[1], slen(o))))
    return ret(st, UNIT)


@model("Vec::remove")
def _(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    o = eng.read(st, r, p)
    eng.write(st, r, p, cat(slice_(o, I(0), av[1]), slice_(o, add64(av[1], I(1)), slen(o))))
    return ret(st, at(o, av[1]))


@model("Vec::extend_from_within")
def _(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    o = eng.read(st, r, p)
    e = index_elem(eng, st, r, p, av[1], at_[1])
    eng.write(st, r, p, cat(o, slice_(o, e[1], e[2])))
    return ret(st, UNIT)
MODELS["Iterator::by_ref"] = lambda eng, st, c, av, at_, dty, site: ret(st, av[0])


@model("Iterator::enumerate")
def _(eng, st, c, av, at_, dty, site):
    it = into_iter(eng, st, av[0], at_[0])
    return None if it is None else ret(st, agg("it.enum", None, [it, I(0)]))


@model("Iterator::zip")
def _(eng, st, c, av, at_, dty, site):
    a, b = into_iter(eng, st, av[0], at_[0]), into_iter(eng, st, av[1], at_[1])
    return None if a is None or b is None else ret(st, agg("it.zip", None, [a, b]))


@model("iter::zip")
def _(eng, st, c, av, at_, dty, site):
    a, b = into_iter(eng, st, av[0], at_[0]), into_iter(eng, st, av[1], at_[1])
    return None if a is None or b is None else ret(st, agg("it.zip", None, [a, b]))


@model("Iterator::chain")
def _(eng, st, c, av, at_, dty, site):
    a, b = into_iter(eng, st, av[0], at_[0]), into_iter(eng, st, av[1], at_[1])
    return None if a is None or b is None else ret(st, agg("it.chain", None, [a, b]))


@model("iter::once")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, agg("it.val", None, [el(av[0]), I(0), I(1)]))


@model("iter::repeat", "iter::repeat_n")
def _(eng, st, c, av, at_, dty, site):
    if len(av) == 2:
        return ret(st, agg("it.val", None, [mk("seq", mk("rp", av[0], av[1])), I(0), av[1]]))
    return None


@model("Iterator::skip")
def _(eng, st, c, av, at_, dty, site):
    it = into_iter(eng, st, av[0], at_[0])
    if it is None or it.a[0] not in ("it.ref", "it.val"):
        return None
    pos, end = it.a[3], it.a[4]
    out = []
    n = add64(pos, av[1])
    for s, v in eng.split(st, lt(end, n, 64, False)):
        out.append(("ret", s, agg(it.a[0], None, [it.a[2], end if v else n, end])))
    return out


@model("Iterator::next")
def _(eng, st, c, av, at_, dty, site):
    if c["fn"] is not None and eng.p.fns[c["fn"]] is not None and eng.p.fns[c["fn"]].local:
        return None
    r, p = target(eng, av[0], at_[0])
    v = eng.read(st, r, p)
    if not (v.op == "agg" and (str(v.a[0]).startswith("it.") or v.a[0] == RANGE)):
        y = eng.ty(eng.ty(at_[0])["e"])
        if y["k"] == "adt" and y["path"] == RANGE:
            v = agg(RANGE, None, [fld(v, None, 0, 2), fld(v, None, 1, 2)])
        else:
            return None
    return [(k, s, x if k != "ret" else (NONE if x is None else some(x))) for k, s, x in iter_next(eng, st, mk("ref", r, p), site)]


def iter_next(eng, st, itref, site):
    """-> [(kind, state, item | None)]"""
    r, p = itref.a
    v = eng.read(st, r, p)
    tag = v.a[0] if v.op == "agg" else None
    if tag is None:
        # a Range whose bounds are both symbolic collapses to its base by eta
        v = agg(RANGE, None, [fld(v, None, 0, 2), fld(v, None, 1, 2)])
        tag = RANGE
    F = lambda i: v.a[2 + i] if v.op == "agg" else fld(v, None, i, 2)
    sub = lambda i: mk("ref", r, p + (("f", i),))

    def put(s, fields):
        eng.write(s, r, p, mk("agg", tag, None, *fields))
    if tag == RANGE:
        a, b = (fld(v, None, 0, 2), fld(v, None, 1, 2))
        out = []
        for s, c in eng.split(st, lt(a, b, 64, False)):
            if c:
                eng.write(s, r, p, mk("agg", RANGE, None, add64(a, I(1)), b))
                out.append(("ret", s, a))
            else:
                out.append(("ret", s, None))
        return out
    if tag == "it.from":
        put(st, [add64(F(0), I(1))])
        return [("ret", st, F(0))]
    if tag in ("it.ref", "it.val"):
        base, pos, end = F(0), F(1), F(2)
        out = []
        for s, c in eng.split(st, lt(pos, end, 64, False)):
            if c:
                put(s, [base, add64(pos, I(1)), end])
                x = mk("ref", base.a[0], base.a[1] + (("at", pos),)) if tag == "it.ref" else at(base, pos)
                out.append(("ret", s, x))
            else:
                out.append(("ret", s, None))
        return out
    if tag == "it.chunks":
        base, pos, end, n = F(0), F(1), F(2), F(3)
        out = []
        for s, c in eng.split(st, lt(pos, end, 64, False)):
            if not c:
                out.append(("ret", s, None))
                continue
            for s2, full in eng.split(s, notb(lt(end, add64(pos, n), 64, False))):
                hi = add64(pos, n) if full else end
                put(s2, [base, hi, end, n])
                out.append(("ret", s2, mk("ref", base.a[0], base.a[1] + (("rng", pos, hi),))))
        return out
    if tag == "it.rev":
        inner = F(0)
        if inner.a[0] in ("it.ref", "it.val", RANGE):
            isr = inner.a[0] == RANGE
            pos, end = (inner.a[2], inner.a[3]) if isr else (inner.a[3], inner.a[4])
            out = []
            for s, c in eng.split(st, lt(pos, end, 64, False)):
                if c:
                    e2 = sub64(end, I(1))
                    if isr:
                        put(s, [mk("agg", RANGE, None, pos, e2)])
                        x = e2
                    else:
                        put(s, [mk("agg", inner.a[0], None, inner.a[2], pos, e2)])
                        x = mk("ref", inner.a[2].a[0], inner.a[2].a[1] + (("at", e2),)) if inner.a[0] == "it.ref" else at(inner.a[2], e2)
                    out.append(("ret", s, x))
                else:
                    out.append(("ret", s, None))
            return out
        if inner.a[0] == "it.enum" and inner.a[2].a[0] in ("it.ref", "it.val"):
            pass
        raise terms_giveup("rev of %s" % inner.a[0])
    if tag == "it.by":
        return iter_next(eng, st, F(0), site)
    if tag == "it.opt":
        out = []
        for s, k, x in cases(eng, st, F(0), None):
            put(s, [NONE])
            out.append(("ret", s, None if k == 0 else fld(x, 1, 0, 1)))
        return out
    if tag == "it.optref":
        out = []
        base, done = F(0), F(1)
        for s, c in eng.split(st, eqint(done, I(0), 64)):
            if not c:
                out.append(("ret", s, None))
                continue
            o = eng.read(s, base.a[0], base.a[1])
            for s2, k, x in cases(eng, s, o, None):
                eng.write(s2, r, p, mk("agg", tag, None, base, I(1)))
                out.append(("ret", s2, None if k == 0 else mk("ref", base.a[0], base.a[1] + (("v", 1, 0),))))
        return out
    if tag == "it.enum":
        cnt = F(1)
        out = []
        for k, s, x in iter_next(eng, st, sub(0), site):
            if k == "ret" and x is not None:
                eng.write(s, r, p + (("f", 1),), add64(cnt, I(1)))
                x = agg("()", None, [cnt, x])
            out.append((k, s, x))
        return out
    if tag == "it.cl":
        return [(k, s, deref_elem(eng, s, x) if k == "ret" and x is not None else x) for k, s, x in iter_next(eng, st, sub(0), site)]
    if tag in ("it.map", "it.insp", "it.filter", "it.fmap"):
        out = []
        for k, s, x in iter_next(eng, st, sub(0), site):
            if k != "ret" or x is None:
                out.append((k, s, x))
                continue
            cl = mk("ref", r, p + (("f", 1),))
            if tag == "it.map":
                for k2, s2, y in eng.call_closure(s, cl, [x], None, None, site):
                    out.append((k2, s2, y))
                continue
            if tag == "it.fmap":
                for k2, s2, y in eng.call_closure(s, cl, [x], None, None, site):
                    if k2 != "ret":
                        out.append((k2, s2, y))
                        continue
                    for s3, v, z in cases(eng, s2, y, None):
                        out.append(("ret" if v == 1 else "skip", s3, fld(z, 1, 0, 1) if v == 1 else None))
                continue
            eng.uid += 1
            s.mem[("T", eng.uid)] = x
            for k2, s2, y in eng.call_closure(s, cl, [mk("ref", ("T", eng.uid), ())], None, None, site):
                if tag == "it.insp" or k2 != "ret":
                    out.append((k2, s2, x if k2 == "ret" else y))
                    continue
                for s3, b in eng.split(s2, y):
                    out.append(("ret" if b else "skip", s3, x if b else None))
        return out
    if tag == "it.take":
        n = F(1)
        out = []
        for s, z in eng.split(st, eqint(n, I(0), 64)):
            if z:
                out.append(("ret", s, None))
                continue
            for k, s2, x in iter_next(eng, s, sub(0), site):
                if k == "ret" and x is not None:
                    eng.write(s2, r, p + (("f", 1),), sub64(n, I(1)))
                out.append((k, s2, x))
        return out
    if tag == "it.zip":
        out = []
        for k, s, x in iter_next(eng, st, sub(0), site):
            if k != "ret" or x is None:
                out.append((k, s, x))
                continue
            for k2, s2, y in iter_next(eng, s, sub(1), site):
                out.append((k2, s2, agg("()", None, [x, y]) if k2 == "ret" and y is not None else y))
        return out
    if tag == "it.chain":
        out = []
        for k, s, x in iter_next(eng, st, sub(0), site):
            if k == "ret" and x is None:
                out += iter_next(eng, s, sub(1), site)
            else:
                out.append((k, s, x))
        return out
    raise terms_giveup("iterator %s" % tag)


def terms_giveup(msg):
    import engine
    return engine.Giveup(msg)


@model("Iterator::collect", "FromIterator::from_iter")
def _(eng, st, c, av, at_, dty, site):
    it = into_iter(eng, st, av[0], at_[0])
    if it is None:
        return None
    y = eng.ty(dty)
    n = adtname(eng, dty)
    if n == "Result" or n == "Option":
        return None
    return eng.builtin_loop(st, it, lambda s, a, x: [("ret", s, cat(a, el(x)))], EMPTY, None, site)


@model("Iterator::sum")
def _(eng, st, c, av, at_, dty, site):
    it = into_iter(eng, st, av[0], at_[0])
    ii = eng.intinfo(dty)
    if it is None or not ii:
        return None
    return eng.builtin_loop(st, it, lambda s, a, x: [("ret", s, terms.add(a, deref_elem(eng, s, x), ii[0], ii[1]))], I(0), None, site)


@model("Iterator::count")
def _(eng, st, c, av, at_, dty, site):
    it = into_iter(eng, st, av[0], at_[0])
    if it is None:
        return None
    return eng.builtin_loop(st, it, lambda s, a, x: [("ret", s, add64(a, I(1)))], I(0), None, site)


@model("Iterator::for_each")
def _(eng, st, c, av, at_, dty, site):
    it = into_iter(eng, st, av[0], at_[0])
    if it is None:
        return None
    eng.uid += 1
    root = ("T", eng.uid)
    st.mem[root] = av[1]
    cl = mk("ref", root, ())
    return eng.builtin_loop(st, it, lambda s, a, x: [(k, s2, UNIT if k == "ret" else y) for k, s2, y in eng.call_closure(s, cl, [x], None, None, site)], UNIT, None, site)


@model("Iterator::try_for_each")
def _(eng, st, c, av, at_, dty, site):
    it = into_iter(eng, st, av[0], at_[0])
    if it is None or adtname(eng, dty) != "Result":
        return None
    eng.uid += 1
    root = ("T", eng.uid)
    st.mem[root] = av[1]
    cl = mk("ref", root, ())

    def step(s, a, x):
        out = []
        for k, s2, y in eng.call_closure(s, cl, [x], None, None, site):
            if k != "ret":
                out.append((k, s2, y))
                continue
            for s3, v, z in cases(eng, s2, y, dty):
                out.append(("ret" if v == 0 else "break", s3, z))
        return out
    return [("ret" if k == "break" else k, s, a) for k, s, a in eng.builtin_loop(st, it, step, OKU, None, site)]


@model("Iterator::fold")
def _(eng, st, c, av, at_, dty, site):
    it = into_iter(eng, st, av[0], at_[0])
    if it is None:
        return None
    eng.uid += 1
    root = ("T", eng.uid)
    st.mem[root] = av[2]
    cl = mk("ref", root, ())
    return eng.builtin_loop(st, it, lambda s, a, x: eng.call_closure(s, cl, [a, x], None, None, site), av[1], None, site)


def _anyall(isany):
    def f(eng, st, c, av, at_, dty, site):
        r, p = target(eng, av[0], at_[0])
        it = eng.read(st, r, p)
        if not (it.op == "agg" and str(it.a[0]).startswith("it.")):
            return None
        eng.uid += 1
        root = ("T", eng.uid)
        st.mem[root] = av[1]
        cl = mk("ref", root, ())

        def step(s, a, x):
            out = []
            for k, s2, y in eng.call_closure(s, cl, [x], None, None, site):
                if k != "ret":
                    out.append((k, s2, y))
                    continue
                for s3, b in eng.split(s2, y):
                    out.append(("break", s3, TRUE if isany else FALSE) if b == isany else ("ret", s3, a))
            return out
        return [("ret" if k == "break" else k, s, a) for k, s, a in eng.builtin_loop(st, it, step, FALSE if isany else TRUE, None, site)]
    return f


MODELS["Iterator::any"] = _anyall(True)
MODELS["Iterator::all"] = _anyall(False)


# ------------------------------------------------------------------ formatting: pure, opaque
def _pure(name):
    def f(eng, st, c, av, at_, dty, site):
        return ret(st, mk("ret", name, *[eng.value(st, v) for v in av]))
    return f


@model("Argument::new_display")
def _(eng, st, c, av, at_, dty, site):
    t, v = at_[0], av[0]
    while t is not None and eng.ty(t)["k"] == "ref":
        t = eng.ty(t)["e"]
        v = eng.deref(st, v, t)
    k = "s" if t is not None and is_seq_ty(eng, t) else eng.ty(t)["k"] if t is not None else "?"
    return ret(st, mk("fmtarg", k, eng.value(st, v)))


@model("Argument::from_usize")
def _(eng, st, c, av, at_, dty, site):
    return ret(st, mk("fmtarg", "int", tv(eng, st, av[0], at_[0])))


def render(t):
    """the text an Arguments value formats to, as a sequence; None when a placeholder is not understood"""
    if t.op == "ret" and t.a[0] in ("Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const"):
        return t.a[1]
    if not (t.op == "ret" and t.a[0] == "Arguments::new" and t.a[1].op in ("bytes", "seq")):
        return None
    if t.a[1].op == "bytes":
        b = bytes.fromhex(t.a[1].a[0])
    else:
        if not all(p.op == "el" and isint(p.a[0]) for p in t.a[1].a):
            return None
        b = bytes(p.a[0].a[0] for p in t.a[1].a)
    args = [p.a[0] if p.op == "el" else None for p in parts_of(t.a[2])]
    out, i, nxt = EMPTY, 0, 0
    u16 = lambda k: b[k] | b[k + 1] << 8
    while i < len(b) and b[i]:
        x = b[i]
        i += 1
        if x < 0x80:
            out = cat(out, *[el(I(q)) for q in b[i:i + x]])
            i += x
            continue
        if x == 0x80:
            n = u16(i)
            out = cat(out, *[el(I(q)) for q in b[i + 2:i + 2 + n]])
            i += 2 + n
            continue
        flags, width, ix = 0, None, None
        if x & 1:
            flags = u16(i) | u16(i + 2) << 16
            i += 4
        if x & 2:
            width = u16(i)
            i += 2
        if x & 4:
            return None
        if x & 8:
            ix = u16(i)
            i += 2
        if ix is None:
            ix = nxt
        nxt = ix + 1
        if ix >= len(args) or args[ix] is None or args[ix].op != "fmtarg":
            return None
        if x & 16:
            if width is None or width >= len(args) or args[width] is None or args[width].op != "fmtarg":
                return None
            width = args[width].a[1]
        elif width is not None:
            width = I(width)
        a = args[ix]
        zero = bool(flags & (1 << 24))
        if a.a[0] == "s" and width is None and not flags & 0x1fffff & ~0x20:
            out = cat(out, mk("seq", mk("sp", a.a[1])))
        elif a.a[0] == "int" and (width is None or zero) and not flags & ((1 << 21) | (1 << 23)):
            out = cat(out, mk("seq", mk("sp", mk("disp", a.a[1], width))))
        elif a.a[0] == "char" and width is None:
            out = cat(out, el(a.a[1]))
        else:
            return None
    return out


@model("Write::write_fmt")
def _(eng, st, c, av, at_, dty, site):
    t = at_[0]
    while t is not None and eng.ty(t)["k"] == "ref":
        t = eng.ty(t)["e"]
    if t is None or adtname(eng, t) not in ("String", "Vec"):
        return None
    d = render(av[1])
    if d is None:
        return None
    upd(eng, st, av[0], at_[0], lambda o: cat(o, d))
    return ret(st, OKU)


@model("fmt::format", "fmt::format_inner")
def _(eng, st, c, av, at_, dty, site):
    d = render(av[0])
    return ret(st, d if d is not None else mk("ret", "fmt::format", eng.value(st, av[0])))


for _n in ("Argument::new_debug", "Arguments::new", "Arguments::new_const", "Arguments::new_v1", "Arguments::from_str",
           "Argument::new_lower_hex", "Arguments::new_v1_formatted", "Arguments::from_str_nonconst"):
    MODELS[_n] = _pure(_n)
MODELS["must_use"] = lambda eng, st, c, av, at_, dty, site: ret(st, av[0])
MODELS["__export::must_use"] = MODELS["must_use"]
MODELS["hint::must_use"] = MODELS["must_use"]
MODELS["intrinsics::assume"] = lambda eng, st, c, av, at_, dty, site: ret(st, UNIT)


@model("RangeInclusive::contains", "Range::contains", "RangeBounds::contains", "RangeFrom::contains", "RangeTo::contains")
def _(eng, st, c, av, at_, dty, site):
    """start <= x and x < end (or <= end)"""
    rg = tv(eng, st, av[0], at_[0])
    x = tv(eng, st, av[1], at_[1])
    y = eng.ty(at_[0])
    while y["k"] == "ref":
        y = eng.ty(y["e"])
    n = y["path"].split("::")[-1]
    ii = eng.intinfo(y["args"][0])
    if ii is None:
        return None
    w, s = ii
    incl = False
    lo = hi = None
    if n == "RangeInclusive":
        if rg.op == "agg" and rg.a[0] == RANGE:
            lo, hi = rg.a[2], rg.a[3]        # kept half-open
        elif rg.op == "agg" and len(rg.a) == 5:
            lo, hi, incl = rg.a[2], rg.a[3], True
        else:
            return None
    elif n == "Range":
        lo, hi = fld(rg, None, 0, 2), fld(rg, None, 1, 2)
    elif n == "RangeFrom":
        lo = fld(rg, None, 0, 1)
    elif n == "RangeTo":
        hi = fld(rg, None, 0, 1)
    else:
        return None
    out = []
    for s1, below in (eng.split(st, lt(x, lo, w, s)) if lo is not None else [(st, False)]):
        if below:
            out.append(("ret", s1, FALSE))
            continue
        if hi is None:
            out.append(("ret", s1, TRUE))
        elif incl:
            out += [("ret", s2, FALSE if v else TRUE) for s2, v in eng.split(s1, lt(hi, x, w, s))]
        else:
            out += [("ret", s2, TRUE if v else FALSE) for s2, v in eng.split(s1, lt(x, hi, w, s))]
    return out


def _arith(op, assign):
    def f(eng, st, c, av, at_, dty, site):
        if c["fn"] is not None and eng.p.fns[c["fn"]] is not None and eng.p.fns[c["fn"]].local:
            return None
        tl = at_[0]
        if op == "Add" and is_seq_ty(eng, eng.ty(tl)["e"] if assign else tl):      # strings
            d = tv(eng, st, av[1], at_[1])
            if not assign:
                return ret(st, cat(tv(eng, st, av[0], tl), d))
            upd(eng, st, av[0], tl, lambda o: cat(o, d))
            return ret(st, UNIT)
        if assign:
            tl = eng.ty(tl)["e"]
            r, p = target(eng, av[0], at_[0])
            a = eng.read(st, r, p)
        else:
            a = av[0]
        b, tr = av[1], at_[1]
        if eng.ty(tl)["k"] == "ref":
            tl = eng.ty(tl)["e"]
            a = deref1(eng, st, a, tl)
        if eng.ty(tr)["k"] == "ref":
            tr = eng.ty(tr)["e"]
            b = deref1(eng, st, b, tr)
        if eng.ty(tl)["k"] not in ("int", "float", "bool") or eng.ty(tr)["k"] not in ("int", "float", "bool"):
            return None
        if op in ("Div", "Rem") and eng.ty(tl)["k"] == "int" and not (isint(b) and b.a[0] > 0):
            return None
        if op in ("Shl", "Shr") and not isint(b):
            return None
        v = eng.annotate(eng.binop_t(st, op, a, b, tl, tr), tl)
        if assign:
            eng.write(st, r, p, v)
            return ret(st, UNIT)
        return ret(st, v)
    return f


for _t, _m, _o in (("Add", "add", "Add"), ("Sub", "sub", "Sub"), ("Mul", "mul", "Mul"), ("Div", "div", "Div"), ("Rem", "rem", "Rem"), ("BitAnd", "bitand", "BitAnd"), ("BitOr", "bitor", "BitOr"),
                   ("BitXor", "bitxor", "BitXor"), ("Shl", "shl", "Shl"), ("Shr", "shr", "Shr")):
    MODELS["%s::%s" % (_t, _m)] = _arith(_o, False)
    MODELS["%sAssign::%s_assign" % (_t, _m)] = _arith(_o, True)
