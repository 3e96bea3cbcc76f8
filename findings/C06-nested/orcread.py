"""A small independent ORC (v0.12, RLE v1, DIRECT) reader and consistency checker. read(path) returns the rows; check(path) verifies everything."""
import struct


def uvar(b, i):
    r = s = 0
    while True:
        c = b[i]
        i += 1
        r |= (c & 127) << s
        s += 7
        if not c & 128:
            return r, i


def zz(n):
    return (n >> 1) ^ -(n & 1)


def s64(n):
    n &= (1 << 64) - 1
    return n - (1 << 64) if n >> 63 else n


def pb(b):
    """parse a message: {field: [values]}"""
    out = {}
    i = 0
    while i < len(b):
        t, i = uvar(b, i)
        f, w = t >> 3, t & 7
        if w == 0:
            v, i = uvar(b, i)
        elif w == 1:
            v = bytes(b[i:i + 8])
            i += 8
        elif w == 2:
            n, i = uvar(b, i)
            assert i + n <= len(b), "truncated field"
            v = bytes(b[i:i + n])
            i += n
        elif w == 5:
            v = bytes(b[i:i + 4])
            i += 4
        else:
            raise AssertionError("wire type %d" % w)
        out.setdefault(f, []).append(v)
    return out


def one(m, f, d=None):
    return m[f][-1] if f in m else d


def packed(m, f):
    r = []
    for v in m.get(f, []):
        if isinstance(v, int):
            r.append(v)
        else:
            i = 0
            while i < len(v):
                x, i = uvar(v, i)
                r.append(x)
    return r


def unsnappy(b):
    n, i = uvar(b, 0)
    o = bytearray()
    while i < len(b):
        t = b[i]
        i += 1
        k = t & 3
        if k == 0:
            l = t >> 2
            if l >= 60:
                c = l - 59
                l = int.from_bytes(b[i:i + c], "little")
                i += c
            o += b[i:i + l + 1]
            i += l + 1
            continue
        if k == 1:
            l = 4 + ((t >> 2) & 7)
            off = (t >> 5) << 8 | b[i]
            i += 1
        elif k == 2:
            l = 1 + (t >> 2)
            off = b[i] | b[i + 1] << 8
            i += 2
        else:
            l = 1 + (t >> 2)
            off = int.from_bytes(b[i:i + 4], "little")
            i += 4
        for _ in range(l):
            o.append(o[-off])
    assert len(o) == n
    return bytes(o)


class Bytes:
    """a stream: decompressed on demand, seekable by (block start, offset) or (offset)"""

    def __init__(self, raw, codec, bs):
        self.raw, self.codec, self.bs = raw, codec, bs
        self.blocks = []   # (start offset, bytes)
        if codec == 0:
            self.data = raw
        else:
            i = 0
            while i < len(raw):
                assert i + 3 <= len(raw), "truncated block header"
                h = int.from_bytes(raw[i:i + 3], "little")
                n = h >> 1
                assert n <= bs, "block of %d bytes is longer than the block size %d" % (n, bs)
                c = raw[i + 3:i + 3 + n]
                assert len(c) == n, "truncated block"
                d = c if h & 1 else unsnappy(c) if codec == 2 else (_ for _ in ()).throw(NotImplementedError())
                assert len(d) <= bs, "block expands to %d bytes, block size %d" % (len(d), bs)
                assert len(d) > 0
                self.blocks.append((i, d))
                i += 3 + n
            self.data = b"".join(d for _, d in self.blocks)

    def at(self, pos):
        """absolute offset for the coordinates taken from the front of the list pos"""
        if self.codec == 0:
            return pos.pop(0)
        st, off = pos.pop(0), pos.pop(0)
        a = 0
        for s, d in self.blocks:
            if s == st:
                assert off <= len(d), "offset %d in a block of %d" % (off, len(d))
                return a + off
            a += len(d)
        assert st == len(self.raw) and off == 0, "no block starts at %d" % st
        return a


def byte_rle(b, i, n=None):
    out = []
    while i < len(b) and (n is None or len(out) < n):
        c = b[i]
        i += 1
        if c < 128:
            out += [b[i]] * (c + 3)
            i += 1
        else:
            l = 256 - c
            assert i + l <= len(b), "truncated literals"
            out += list(b[i:i + l])
            i += l
    return out


def int_rle(b, i, signed, n=None):
    out = []
    while i < len(b) and (n is None or len(out) < n):
        c = b[i]
        i += 1
        if c < 128:
            d = b[i] - 256 if b[i] > 127 else b[i]
            v, i = uvar(b, i + 1)
            v = zz(v) if signed else v
            for k in range(c + 3):
                x = v + k * d
                out.append(s64(x) if signed else x & (2**64 - 1))
        else:
            for _ in range(256 - c):
                v, i = uvar(b, i)
                out.append(zz(v) if signed else v)
    return out


def varints(b, i, n):
    out = []
    while len(out) < n:
        v, i = uvar(b, i)
        out.append(zz(v))
    return out


KIND = dict(enumerate("BOOLEAN BYTE SHORT INT LONG FLOAT DOUBLE STRING BINARY TIMESTAMP LIST MAP STRUCT UNION DECIMAL DATE VARCHAR CHAR".split()))
SK = dict(enumerate("PRESENT DATA LENGTH DICTIONARY_DATA DICTIONARY_COUNT SECONDARY ROW_INDEX".split()))
NEED = {"BOOLEAN": ["DATA"], "SHORT": ["DATA"], "INT": ["DATA"], "LONG": ["DATA"], "DATE": ["DATA"], "FLOAT": ["DATA"], "DOUBLE": ["DATA"],
        "STRING": ["DATA", "LENGTH"], "BINARY": ["DATA", "LENGTH"], "VARCHAR": ["DATA", "LENGTH"], "CHAR": ["DATA", "LENGTH"],
        "TIMESTAMP": ["DATA", "SECONDARY"], "DECIMAL": ["DATA", "SECONDARY"], "LIST": ["LENGTH"], "MAP": ["LENGTH"], "STRUCT": [], "UNION": ["DATA"]}


class File:
    def __init__(self, path):
        b = self.b = open(path, "rb").read()
        assert b[:3] == b"ORC", "no magic at the start"
        pl = b[-1]
        ps = pb(b[-1 - pl:-1])
        assert one(ps, 8000) == b"ORC", "no magic in the postscript"
        assert packed(ps, 4) == [0, 12], "version"
        self.codec = one(ps, 2, 0)
        self.bs = one(ps, 3, 0)
        fl, ml = one(ps, 1), one(ps, 5, 0)
        fo = len(b) - 1 - pl - fl
        mo = fo - ml
        self.footer = f = pb(self.section(b[fo:fo + fl]))
        self.meta = pb(self.section(b[mo:mo + ml]))
        self.types = [pb(t) for t in f.get(4, [])]
        assert one(f, 1) == 3 and one(f, 1) + one(f, 2) == mo, "header and content length give %d, metadata starts at %d" % (one(f, 1) + one(f, 2), mo)
        self.rows = one(f, 6)
        self.stride = one(f, 8)
        self.stripes = []
        at = 3
        for s in f.get(3, []):
            s = pb(s)
            off, il, dl, sl, n = (one(s, k, 0) for k in (1, 2, 3, 4, 5))
            assert off == at, "stripe at %d, expected %d" % (off, at)
            assert n > 0
            at += il + dl + sl
            self.stripes.append(Stripe(self, off, il, dl, sl, n))
        assert at == mo, "stripes end at %d, metadata starts at %d" % (at, mo)
        assert self.rows == sum(s.n for s in self.stripes), "row total"
        self.fstats = [pb(x) for x in f.get(7, [])]
        self.sstats = [[pb(c) for c in pb(x).get(1, [])] for x in self.meta.get(1, [])]
        assert len(self.sstats) == len(self.stripes), "stripe statistics"
        assert len(self.fstats) == len(self.types)
        for x in self.sstats:
            assert len(x) == len(self.types)

    def section(self, raw):
        return Bytes(raw, self.codec, self.bs).data

    def kind(self, c):
        return KIND[one(self.types[c], 1)]

    def subs(self, c):
        return packed(self.types[c], 2)

    def read(self):
        """rows of the root column"""
        return [v for s in self.stripes for v in s.value(0)]


class Stripe:
    def __init__(self, f, off, il, dl, sl, n):
        self.f, self.n = f, n
        ft = pb(f.section(f.b[off + il + dl:off + il + dl + sl]))
        self.streams = {}
        self.order = []
        at = 0
        for x in ft.get(1, []):
            x = pb(x)
            k, c, l = SK[one(x, 1)], one(x, 2), one(x, 3)
            assert (k, c) not in self.streams, "stream listed twice: %s of %d" % (k, c)
            self.streams[k, c] = Bytes(f.b[off + at:off + at + l], f.codec, f.bs)
            self.order.append((k, c))
            at += l
            if k == "ROW_INDEX":
                assert at <= il, "index stream in the data section"
            else:
                assert at > il or l == 0 and at >= il, "data stream in the index section"
        assert at == il + dl, "streams cover %d bytes of %d" % (at, il + dl)
        enc = [pb(e) for e in ft.get(2, [])]
        assert len(enc) == len(f.types) and all(one(e, 1) == 0 for e in enc), "encodings"
        need = set()
        for c in range(len(f.types)):
            need.add(("ROW_INDEX", c))
            for k in NEED[f.kind(c)]:
                need.add((k, c))
        have = {x for x in self.streams if x[0] != "PRESENT"}
        assert have == need, "streams %s" % (have ^ need)
        self.cache = {}
        self.count = {0: n}
        self.fill(0, n)

    def fill(self, c, n):
        """decode column c holding n values"""
        f = self.f
        k = f.kind(c)
        S = lambda x: self.streams[x, c].data
        pres = [True] * n
        if ("PRESENT", c) in self.streams:
            bits = byte_rle(S("PRESENT"), 0)
            assert len(bits) == (n + 7) // 8, "present stream holds %d bytes for %d values" % (len(bits), n)
            pres = [bool(bits[i // 8] >> (7 - i % 8) & 1) for i in range(n)]
            assert not all(pres), "present stream without nulls in column %d" % c
        m = sum(pres)
        vals = self.content(c, k, S, m, True)
        it = iter(vals)
        self.cache[c] = [next(it) if p else None for p in pres]
        self.count[c] = n
        sub = f.subs(c)
        if k == "STRUCT":
            for s in sub:
                self.fill(s, m if False else self.childrows(s, n, m))
        elif k in ("LIST", "MAP"):
            for s in sub:
                self.fill(s, sum(vals))
        elif k == "UNION":
            for i, s in enumerate(sub):
                self.fill(s, vals.count(i))

    def childrows(self, s, n, m):
        return self.f.structrows(n, m) if hasattr(self.f, "structrows") else m

    def content(self, c, k, S, m, full, at=None):
        """the m non-null raw values of column c from absolute offsets at (or the start)"""
        at = at or {}
        D, L, X = at.get("DATA", 0), at.get("LENGTH", 0), at.get("SECONDARY", 0)
        sk = at.get("skip", {})

        def take(v, w):
            q = sk.get(w, 0)
            v = v[q:]
            assert len(v) >= m, "stream %s of column %d holds %d values, %d expected" % (w, c, len(v), m)
            if full:
                assert len(v) == m, "stream %s of column %d holds %d values, %d expected" % (w, c, len(v), m)
            return v[:m]
        if k == "STRUCT":
            return [()] * m
        if k == "BOOLEAN":
            b = byte_rle(S("DATA"), D)
            q, bit = sk.get("DATA", 0), sk.get("bits", 0)
            b = b[q:]
            if full:
                assert len(b) == (m + 7) // 8, "boolean data"
            return [bool(b[(bit + i) // 8] >> (7 - (bit + i) % 8) & 1) for i in range(m)]
        if k in ("SHORT", "INT", "LONG", "DATE"):
            return take(int_rle(S("DATA"), D, True), "DATA")
        if k == "FLOAT":
            b = S("DATA")
            assert not full or len(b) == 4 * m, "float data"
            return [struct.unpack_from("<f", b, D + 4 * i)[0] for i in range(m)]
        if k == "DOUBLE":
            b = S("DATA")
            assert not full or len(b) == 8 * m, "double data"
            return [struct.unpack_from("<d", b, D + 8 * i)[0] for i in range(m)]
        if k in ("STRING", "BINARY", "VARCHAR", "CHAR"):
            ls = take(int_rle(S("LENGTH"), L, False), "LENGTH")
            b = S("DATA")
            out = []
            p = D
            for l in ls:
                assert p + l <= len(b), "string data too short"
                out.append(b[p:p + l])
                p += l
            assert not full or p == len(b), "string data left over"
            return out
        if k == "TIMESTAMP":
            s = take(int_rle(S("DATA"), D, True), "DATA")
            x = take(int_rle(S("SECONDARY"), X, False), "SECONDARY")
            out = []
            for a, y in zip(s, x):
                z = y & 7
                v = y >> 3
                if z:
                    v *= 10 ** (z + 1)
                a += 1420070400
                out.append((a - 1 if a < 0 and v > 999999 else a, v))
            return out
        if k == "DECIMAL":
            v = varints(S("DATA"), D, m)
            sc = take(int_rle(S("SECONDARY"), X, True), "SECONDARY")
            return list(zip(v, sc))
        if k in ("LIST", "MAP"):
            return take(int_rle(S("LENGTH"), L, False), "LENGTH")
        if k == "UNION":
            t = take(byte_rle(S("DATA"), D), "DATA")
            assert all(x < len(self.f.subs(c)) for x in t), "union tag out of range"
            return t
        raise AssertionError(k)

    def value(self, c):
        """the column's values with children put in"""
        f = self.f
        k = f.kind(c)
        raw = self.cache[c]
        sub = f.subs(c)
        if k == "STRUCT":
            kids = [self.value(s) for s in sub]
            its = [iter(x) for x in kids]
            return [None if v is None else tuple(next(i) for i in its) for v in raw]
        if k == "LIST":
            it = iter(self.value(sub[0]))
            return [None if v is None else [next(it) for _ in range(v)] for v in raw]
        if k == "MAP":
            a, b = iter(self.value(sub[0])), iter(self.value(sub[1]))
            return [None if v is None else [(next(a), next(b)) for _ in range(v)] for v in raw]
        if k == "UNION":
            its = [iter(self.value(s)) for s in sub]
            return [None if v is None else (v, next(its[v])) for v in raw]
        return raw

    def index(self, c):
        return [(packed(e, 1), pb(one(e, 2, b""))) for e in (pb(x) for x in pb(self.streams["ROW_INDEX", c].data).get(1, []))]


def dec(v, scale):
    s = "-" if v < 0 else ""
    v = abs(v)
    q, r = divmod(v, 10 ** scale)
    return (s + str(q) + ("." + str(r).rjust(scale, "0") if r else "")).encode()


def stat_check(what, k, m, vals, scale=None):
    nn = [v for v in vals if v is not None]
    assert one(m, 1, 0) == len(nn), "%s: numberOfValues %s, %d values are present" % (what, one(m, 1), len(nn))
    assert bool(one(m, 10, 0)) == (len(nn) != len(vals)), "%s: hasNull" % what
    fields = {"BOOLEAN": 5, "SHORT": 2, "INT": 2, "LONG": 2, "DATE": 7, "FLOAT": 3, "DOUBLE": 3, "STRING": 4, "CHAR": 4, "VARCHAR": 4, "BINARY": 8, "DECIMAL": 6, "TIMESTAMP": 9}
    assert set(m) - {1, 10} == ({fields[k]} if k in fields else set()), "%s: fields %s" % (what, sorted(m))
    if k not in fields:
        return
    t = pb(one(m, fields[k]))

    def eq(f, got, want):
        assert got == want, "%s: %s is %s, expected %s" % (what, f, got, want)
    if k == "BOOLEAN":
        eq("count", packed(t, 1), [sum(nn), len(nn) - sum(nn)])
    elif k in ("SHORT", "INT", "LONG", "DATE"):
        z = lambda f: zz(one(t, f)) if f in t else None
        eq("min", z(1), min(nn) if nn else None)
        eq("max", z(2), max(nn) if nn else None)
        if k != "DATE":
            part = 0
            ok = True
            s = sum(nn)
            got = z(3)
            assert got == s or got is None and (sum(abs(x) for x in nn) >= 2**63), "%s: sum %s, expected %s" % (what, got, s)
    elif k in ("FLOAT", "DOUBLE"):
        z = lambda f: struct.unpack("<d", one(t, f))[0] if f in t else None
        eq("min", z(1), min(nn) if nn else None)
        eq("max", z(2), max(nn) if nn else None)
        s = z(3)
        assert abs(s - sum(nn)) <= 1e-6 * (1 + sum(abs(x) for x in nn)), "%s: sum %s" % (what, s)
    elif k in ("STRING", "CHAR", "VARCHAR"):
        eq("min", one(t, 1), min(nn) if nn else None)
        eq("max", one(t, 2), max(nn) if nn else None)
        eq("sum", zz(one(t, 3)), sum(map(len, nn)))
    elif k == "BINARY":
        eq("sum", zz(one(t, 1)), sum(map(len, nn)))
    elif k == "DECIMAL":
        us = [v for v, _ in nn]
        sc = scale
        eq("min", one(t, 1), dec(min(us), sc) if us else None)
        eq("max", one(t, 2), dec(max(us), sc) if us else None)
        if sum(abs(x) for x in us) < 2**127:
            eq("sum", one(t, 3), dec(sum(us), sc))
    elif k == "TIMESTAMP":
        ms = [s * 1000 + n // 1000000 for s, n in nn]
        z = lambda f: zz(one(t, f)) if f in t else None
        eq("min", z(1), min(ms) if ms else None)
        eq("max", z(2), max(ms) if ms else None)


def check(path, structs_dense=False):
    """decode everything and compare statistics and row-index positions with the values; returns the File"""
    f = File(path)
    for c in range(len(f.types)):
        k = f.kind(c)
        sc = one(f.types[c], 6, 0)
        every = []
        for si, s in enumerate(f.stripes):
            vals = s.cache[c]
            every += vals
            stat_check("stripe %d column %d" % (si, c), k, f.sstats[si][c], vals, sc)
            ix = s.index(c)
            stride = f.stride
            groups = [vals[i:i + stride] for i in range(0, len(vals), stride)] if stride else [vals]
            assert len(ix) == len(groups), "column %d has %d row index entries for %d values" % (c, len(ix), len(vals))
            for gi, ((pos, st), g) in enumerate(zip(ix, groups)):
                what = "stripe %d column %d row group %d" % (si, c, gi)
                stat_check(what, k, st, g, sc)
                pos = list(pos)
                hp = ("PRESENT", c) in s.streams
                pres = [True] * len(g)
                if hp:
                    b = s.streams["PRESENT", c]
                    a = b.at(pos)
                    q, bit = pos.pop(0), pos.pop(0)
                    bits = byte_rle(b.data, a)[q:]
                    pres = [bool(bits[(bit + i) // 8] >> (7 - (bit + i) % 8) & 1) for i in range(len(g))]
                    assert pres == [v is not None for v in g], what + ": present position"
                at = {"skip": {}}
                for w in {"DECIMAL": ["DATA", "SECONDARY"], "TIMESTAMP": ["DATA", "SECONDARY"]}.get(k, NEED[k]):
                    b = s.streams[w, c]
                    at[w] = b.at(pos)
                    plain = w == "DATA" and k in ("FLOAT", "DOUBLE", "STRING", "BINARY", "CHAR", "VARCHAR", "DECIMAL")
                    if not plain:
                        at["skip"][w] = pos.pop(0)
                    if k == "BOOLEAN":
                        at["skip"]["bits"] = pos.pop(0)
                assert not pos, what + ": %d positions too many" % len(pos)
                nn = [v for v in g if v is not None]
                got = s.content(c, k, lambda w: s.streams[w, c].data, len(nn), False, at)
                assert got == nn, what + ": data position"
        stat_check("file column %d" % c, k, f.fstats[c], every, sc)
    return f


def canon(f, c, v):
    if v is None:
        return "~"
    k, sub = f.kind(c), f.subs(c)
    if k == "BOOLEAN":
        return "T" if v else "F"
    if k == "FLOAT":
        return "f" + struct.pack(">f", v).hex()
    if k == "DOUBLE":
        return "d" + struct.pack(">d", v).hex()
    if k == "TIMESTAMP":
        return "%d:%d" % v
    if k == "DECIMAL":
        return "%de%d" % v
    if k in ("STRING", "CHAR", "VARCHAR", "BINARY"):
        return v.hex()
    if k == "STRUCT":
        return "(%s)" % ",".join(canon(f, s, x) for s, x in zip(sub, v))
    if k == "LIST":
        return "[%s]" % ",".join(canon(f, sub[0], x) for x in v)
    if k == "MAP":
        return "{%s}" % ",".join(canon(f, sub[0], a) + "=" + canon(f, sub[1], b) for a, b in v)
    if k == "UNION":
        return "%d!%s" % (v[0], canon(f, sub[v[0]], v[1]))
    return str(v)


def check_dir(d):
    """every NAME.orc of the directory against NAME.txt; returns the Files"""
    import glob
    out = []
    for p in sorted(glob.glob(d + "/*.orc")):
        try:
            f = check(p)
            got = [canon(f, 0, v) for v in f.read()]
        except Exception as x:
            raise AssertionError("%s: %s: %s" % (p, type(x).__name__, x))
        want = open(p[:-3] + "txt").read().splitlines()
        assert got == want, "%s: values differ" % p
        out.append(f)
    return out


if __name__ == "__main__":
    import sys
    print(len(check_dir(sys.argv[1])), "files agree")
