"""Layer boundaries: which crate types are seen through their abstract meaning while a layer above them is analysed.

  encoders and CompressionStream   = the sequence of values written so far
  their positions                  = pos(values written before this point)
  CountWrite<W>                    = the bytes it has accepted (pos() is their number)
  *Statistics                      = the bag of values/nulls it was updated with
  Data (child column)              = an opaque column whose BaseData calls append child events

Each meaning is itself an obligation of the layer below, decided by that layer's own checks (C09/C10, C14-C16, C18-C20)."""
from terms import *
from models import ret, some, ok, err, NONE, OKU, fallible, append, target, tv, upd, MODELS

ENC = ("BooleanRLE", "ByteRLE", "SignedIntRLEv1", "UnsignedIntRLEv1")
SINK = ENC + ("CompressionStream",)
NULL = mk("null")


def adt_of(eng, callee):
    """last path segment of the ADT whose impl contains the callee"""
    if callee["fn"] is None:
        return None
    f = eng.p.fns[callee["fn"]]
    if f is None or not f.local:
        return None
    a = getattr(f, "impl_adt", None)
    if a and "orc_proto" in a:
        return None
    return a.split("::")[-1] if a else None


def log(st, name, t):
    """append to a ghost sequence (so that events inside loops get closed forms like any other sequence)"""
    r = ("G", name)
    st.mem[r] = cat(st.mem.get(r, EMPTY), el(t))


def sp(x):
    return mk("seq", mk("sp", x))


class Out:
    pass


# ------------------------------------------------------------------ encoders / compression stream as sequences
def enc_new(eng, st, c, av, at_, dty, site):
    log(st, "new", mk("new", adt_of(eng, c), *[eng.value(st, tv(eng, st, v, t)) for v, t in zip(av, at_)]))
    return ret(st, EMPTY)


def enc_write(eng, st, c, av, at_, dty, site):
    upd(eng, st, av[0], at_[0], lambda o: cat(o, el(av[1])))
    return ret(st, UNIT)


def enc_bytes(eng, st, c, av, at_, dty, site):
    d = eng.value(st, tv(eng, st, av[1], at_[1]))
    upd(eng, st, av[0], at_[0], lambda o: cat(o, d))
    return ret(st, UNIT)


def cs_write_trait(eng, st, c, av, at_, dty, site):
    d = eng.value(st, tv(eng, st, av[1], at_[1]))
    upd(eng, st, av[0], at_[0], lambda o: cat(o, d))
    return ret(st, ok(slen(d)))


def enc_pos(eng, st, c, av, at_, dty, site):
    return ret(st, mk("pos", tv(eng, st, av[0], at_[0])))


def pos_record(eng, st, c, av, at_, dty, site):
    p = tv(eng, st, av[0], at_[0])
    upd(eng, st, av[1], at_[1], lambda o: cat(o, sp(mk("rec", p))))
    return ret(st, UNIT)


def enc_finish(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    e = eng.read(st, r, p)
    wr, wp = target(eng, av[1], at_[1])
    w = eng.read(st, wr, wp)
    data = mk("fin", e)

    def good(s):
        eng.write(s, wr, wp, cat(w, sp(data)))
        eng.write(s, r, p, mk("finished", e))

    def bad(s):
        eng.write(s, wr, wp, cat(w, sp(mk("partial", data))))
        eng.write(s, r, p, mk("broken", e))
    return fallible(eng, st, "finish", (e, w), good, bad)


def enc_size(eng, st, c, av, at_, dty, site):
    return ret(st, mk("ret", "estimated_size", tv(eng, st, av[0], at_[0])))


def cw_pos(eng, st, c, av, at_, dty, site):
    return ret(st, slen(tv(eng, st, av[0], at_[0])))


def varint(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[1], at_[1])
    old = eng.read(st, r, p)
    ty = at_[0]
    w = eng.intinfo(ty)
    d = mk("varint", "s" if w and w[1] else "u", av[0])
    eng.write(st, r, p, cat(old, sp(d)))
    return ret(st, UNIT)


# ------------------------------------------------------------------ statistics as bags
def st_new(eng, st, c, av, at_, dty, site):
    if av:
        log(st, "statnew", mk("statnew", *av))
    return ret(st, EMPTY)


def st_update(eng, st, c, av, at_, dty, site):
    vals = [eng.value(st, tv(eng, st, v, t)) for v, t in zip(av[1:], at_[1:])]
    x = vals[0] if len(vals) == 1 else (agg("()", None, vals) if vals else mk("present"))
    upd(eng, st, av[0], at_[0], lambda o: cat(o, el(mk("val", x))))
    return ret(st, UNIT)


def st_null(eng, st, c, av, at_, dty, site):
    upd(eng, st, av[0], at_[0], lambda o: cat(o, el(NULL)))
    return ret(st, UNIT)


def st_merge(eng, st, c, av, at_, dty, site):
    d = eng.value(st, tv(eng, st, av[1], at_[1]))
    upd(eng, st, av[0], at_[0], lambda o: cat(o, sp(bag(d))))
    return ret(st, UNIT)


def bag(t):
    return t


def count_of(v, what):
    """number of present values ('npres') or nulls ('nnull') in a bag, additive over its parts"""
    r = I(0)
    if v.op == "ite":
        return ite(v.a[0], count_of(v.a[1], what), count_of(v.a[2], what))
    if v.op == "seq":
        for p in v.a:
            if p.op == "el":
                r = add64(r, I(1 if (p.a[0] is NULL) == (what == "nnull") else 0))
            elif p.op == "sp":
                r = add64(r, count_of(p.a[0], what))
            else:
                r = add64(r, _cnt(mk("seq", p), what))
        return r
    return _cnt(v, what)


def _cnt(v, what):
    t = mk(what, v)
    t.rng = (0, 1 << 62)
    return t


def npres(v):
    return count_of(v, "npres")


def nnull(v):
    return count_of(v, "nnull")


REBUILD["npres"] = npres
REBUILD["nnull"] = nnull


def nvals(v):
    return add64(npres(v), nnull(v))


def hasnull(v):
    return notb(eqz(nnull(v)))


def st_count(eng, st, c, av, at_, dty, site):
    return ret(st, nvals(tv(eng, st, av[0], at_[0])))


def st_present(eng, st, c, av, at_, dty, site):
    return ret(st, npres(tv(eng, st, av[0], at_[0])))


def st_hasnull(eng, st, c, av, at_, dty, site):
    return ret(st, hasnull(tv(eng, st, av[0], at_[0])))


def st_toproto(eng, st, c, av, at_, dty, site):
    return ret(st, mk("toproto", eng.value(st, tv(eng, st, av[0], at_[0]))))


# ------------------------------------------------------------------ child columns
def data_new(eng, st, c, av, at_, dty, site):
    sc = eng.value(st, tv(eng, st, av[0], at_[0]))
    cf = eng.value(st, tv(eng, st, av[1], at_[1]))
    r, p = target(eng, av[2], at_[2])
    cid = eng.read(st, r, p)
    n = mk("ncols", sc)
    n.rng = (1, 1 << 32)
    eng.write(st, r, p, add(cid, n, 32))
    return ret(st, mk("data", sc, cf, cid))


def data_index(eng, st, c, av, at_, dty, site):
    r, p = target(eng, av[0], at_[0])
    d = eng.read(st, r, p)
    wr, wp = target(eng, av[1], at_[1])
    ir, ip = target(eng, av[2], at_[2])
    w, inf = eng.read(st, wr, wp), eng.read(st, ir, ip)
    kind = "idx" if c["decl"].split("::")[-1] == "write_index_streams" else "dat"

    def good(s):
        eng.write(s, wr, wp, cat(w, sp(mk("child_" + kind, d))))
        eng.write(s, ir, ip, cat(inf, sp(mk("childinfo_" + kind, d))))
        eng.write(s, r, p, mk("after_" + kind, d))

    def bad(s):
        eng.write(s, wr, wp, cat(w, sp(mk("partial", mk("child_" + kind, d)))))
        eng.write(s, ir, ip, cat(inf, sp(mk("partial", mk("childinfo_" + kind, d)))))
        eng.write(s, r, p, mk("broken", d))
    return fallible(eng, st, "child_" + kind, (d, w), good, bad)


def data_push(tag):
    def f(eng, st, c, av, at_, dty, site):
        d = eng.value(st, tv(eng, st, av[0], at_[0]))
        upd(eng, st, av[1], at_[1], lambda o: cat(o, sp(mk("child_" + tag, d))))
        return ret(st, UNIT)
    return f


def data_verify(eng, st, c, av, at_, dty, site):
    d = eng.value(st, tv(eng, st, av[0], at_[0]))
    log(st, "verify", mk("verify", d, av[1]))
    return ret(st, UNIT)


def data_null(eng, st, c, av, at_, dty, site):
    upd(eng, st, av[0], at_[0], lambda o: cat(o, el(NULL)))
    return ret(st, UNIT)


def data_cid(eng, st, c, av, at_, dty, site):
    t = mk("colid", eng.value(st, tv(eng, st, av[0], at_[0])))
    return ret(st, t)


STAT_METHODS = {"new": st_new, "update": st_update, "update_null": st_null, "merge": st_merge, "num_values": st_count,
                "num_present": st_present, "has_null": st_hasnull, "to_proto": st_toproto}
DATA_METHODS = {"new": data_new, "write_index_streams": data_index, "write_data_streams": data_index,
                "column_encodings": data_push("enc"), "statistics": data_push("stat"), "verify_row_count": data_verify,
                "estimated_size": enc_size, "write_null": data_null, "column_id": data_cid}


def is_stat(a):
    return bool(a) and a.endswith("Statistics")


def column_layer(eng, callee):
    """boundary seen by a column: encoders, streams, sinks, statistics and child columns are abstract"""
    a = adt_of(eng, callee)
    m = callee["decl"].split("::")[-1]
    if callee.get("trait", "").endswith("BaseStatistics") and (a is None or is_stat(a)) and m in STAT_METHODS:
        return STAT_METHODS[m]
    if callee.get("trait", "").endswith("VarInt") and m == "write_varint":
        return varint
    if a is None:
        return None
    tr = callee.get("trait")
    if a in SINK:
        if m == "new" or m == "default":
            return enc_new
        if m == "position":
            return enc_pos
        if m == "finish":
            return enc_finish
        if m == "estimated_size":
            return enc_size
        if a == "CompressionStream":
            if m == "write_u8":
                return enc_write
            if m == "write_bytes":
                return enc_bytes
            if tr and m == "write":
                return cs_write_trait
        elif m == "write":
            return enc_write
    if a.endswith("Position") and m == "record" and a[:-8] in ("BooleanRLE", "ByteRLE", "IntRLEv1", "CompressionStream"):
        return pos_record
    if a == "CountWrite" and m == "pos":
        return cw_pos
    if is_stat(a) and m in STAT_METHODS and (m != "update" or True):
        return STAT_METHODS[m]
    if a == "Data" and m in DATA_METHODS:
        return DATA_METHODS[m]
    return None


def writer_layer(eng, callee):
    """boundary seen by Stripe/Writer (same abstractions; CountWrite construction is the empty byte sequence)"""
    a = adt_of(eng, callee)
    m = callee["decl"].split("::")[-1]
    if a == "CountWrite":
        if m == "new":
            return lambda eng, st, c, av, at_, dty, site: ret(st, mk("cw", av[0]))
        if m == "into_inner":
            return lambda eng, st, c, av, at_, dty, site: ret(st, mk("inner", av[0]))
        if m == "write":
            return lambda eng, st, c, av, at_, dty, site: MODELS["Write::write"](eng, st, dict(c, fn=None), av, at_, dty, site)
        if m == "flush":
            return lambda eng, st, c, av, at_, dty, site: MODELS["Write::flush"](eng, st, dict(c, fn=None), av, at_, dty, site)
    return column_layer(eng, callee)


def getter_fields(prog, adt):
    """{field index: accessor} for the accessors of a statistics type that only hand out a field"""
    memo = prog.__dict__.setdefault("_getters", {})
    if adt not in memo:
        r = memo[adt] = {}
        for f in prog.methods(adt, "BaseStatistics") + prog.methods(adt):
            if f.name in ("num_values", "num_present", "has_null") and f.argc == 1 and f.nblocks == 1 and len(f.blocks[0]["s"]) == 1:
                s = f.blocks[0]["s"][0]
                try:
                    (dst, (use, (c, pl))) = s[1], s[2]
                    if s[0] == "=" and dst == [0] and use == "use" and c == "c" and pl[0] == 1 and pl[1] == ["*"] and len(pl) == 3 and pl[2][0] == "f":
                        r[pl[2][1]] = f.name
                except (ValueError, IndexError, TypeError):
                    pass
    return memo[adt]


def stat_proj(eng, t, i, ty):
    """a statistics object read field-wise while it is abstract: the count field is the size of the bag"""
    y = eng.ty(ty)
    if y["k"] == "adt" and is_stat(y["path"].split("::")[-1]) and y["kind"] == "struct" and "statistics" in y["path"]:
        n = getter_fields(eng.p, y["path"]).get(i) or y["variants"][0]["fields"][i]["name"]
        if n == "num_values":
            return nvals(t)
        if n == "num_present":
            return npres(t)
        if n == "has_null":
            return hasnull(t)
    return None
