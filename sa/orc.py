"""Program-level context: which types play which role, summaries of their methods, and obligation bookkeeping."""
from terms import *
from engine import Engine, Giveup, NeedSplit
import layers
from layers import ENC, is_stat, NULL


class Anchor(Exception):
    """a construct the rule needs is not there (or not in a shape the rule can judge): the check fails closed"""


class Rep:
    """obligations of one property on one run"""

    def __init__(self, pid):
        self.pid = pid
        self.obs = []
        self.fails = []
        self.fns = set()
        self.parts = 0
        self.notes = []
        self.counts = []

    def ob(self, key, cond, msg="", fn=None):
        self.obs.append((key, bool(cond)))
        if not cond:
            site = ""
            if fn is not None:
                site = " [%s:%s %s]" % (fn.span[0], fn.span[1], fn.path)
            self.fails.append((key, (msg + site)[:3000]))
        return bool(cond)

    def use(self, s):
        self.fns.add(s.f.path)
        self.fns |= s.inlined
        self.parts += len(s.outs)


class Sum:
    """summary of one function: exit partitions over symbolic arguments"""

    def __init__(self, f, eng, outs, roots):
        self.f, self.eng, self.outs, self.roots = f, eng, outs, roots
        self.terms = eng.argterms
        self.inlined = set(eng.p.fns[i].path for i in eng.fns_seen if eng.p.fns[i].local)
        self.rets = [o for o in outs if o.kind == "ret"]
        self.panics = [o for o in outs if o.kind == "panic"]

    def argroot(self, i):
        return self.roots[i]

    def new(self, o, i=0):
        return o.st.mem[self.roots[i]]

    def old(self, i=0):
        return self.terms[i]

    def arg(self, i):
        return self.terms[i]

    def oks(self):
        return [o for o in self.rets if not is_err(o.val)]

    def errs(self):
        return [o for o in self.rets if is_err(o.val)]


def is_err(v):
    return v is not None and v.op == "agg" and v.a[1] == 1 and v.a[0].endswith("Result")


def is_ok(v):
    return v is not None and v.op == "agg" and v.a[1] == 0 and v.a[0].endswith("Result")


def short(t, n=400):
    s = str(t)
    return s if len(s) <= n else s[:n] + "..."


class Leaf:
    def __init__(self, path, kind, ty, names):
        self.path, self.kind, self.ty, self.names = path, kind, ty, names

    @property
    def name(self):
        return ".".join(self.names)

    def get(self, t):
        for v, i, n in self.path:
            t = fld(t, v, i, n)
        return t

    def __repr__(self):
        return self.name


POSITIONS = tuple(x + "Position" for x in ("BooleanRLE", "ByteRLE", "IntRLEv1", "CompressionStream"))


class Ctx:
    def __init__(self, prog):
        self.p = prog
        self.memo = {}
        d = prog.adt("writer::data::Data")
        if d is None:
            raise Anchor("enum writer::data::Data not found")
        self.data_ty = d
        self.columns = []
        for i, v in enumerate(prog.t(d)["variants"]):
            if len(v["fields"]) != 1:
                raise Anchor("variant %s of Data does not carry exactly one column" % v["name"])
            ty = v["fields"][0]["ty"]
            t = prog.t(ty)
            if t["k"] == "adt" and t["path"] == "std::boxed::Box":
                ty = t["args"][0]
                t = prog.t(ty)
            self.columns.append(Column(self, i, v["name"], ty))
        self.kinds = self.enum_names("Stream_Kind")

    def enum_names(self, last):
        for i in self.p.raw["adts"]:
            t = self.p.types[i]
            if t.get("path", "").split("::")[-1] == last and t["kind"] == "enum":
                return [v["name"] for v in t["variants"]]
        raise Anchor("enum %s not found" % last)

    def adt_ty(self, last, pred=None):
        c = [i for i in self.p.raw["adts"] if self.p.types[i].get("path", "").split("::")[-1] == last and "orc_proto" not in self.p.types[i]["path"]]
        if len(c) != 1:
            raise Anchor("type %s not found" % last)
        return c[0]

    def engine(self, layer="column", **kw):
        pol = {"column": layers.column_layer, "writer": layers.writer_layer}.get(layer, layer)
        hook = None if layer is None else layers.stat_proj
        return Engine(self.p, atomic=pol, proj_hook=hook, **kw)

    def summary(self, f, layer="column", **kw):
        key = (f.id, layer, tuple(sorted((k, v) for k, v in kw.items() if not callable(v))))
        if key not in self.memo:
            e = self.engine(layer, **kw)
            try:
                outs, roots = e.analyse(f)
            except NeedSplit as x:
                raise Anchor("%s: cannot analyse: pointer depends on %s" % (f.path, x.cond))
            except Giveup as x:
                raise Anchor("%s: cannot analyse: %s" % (f.path, x))
            self.memo[key] = Sum(f, e, outs, roots)
        return self.memo[key]

    def flatten(self, ty, stop=None):
        """leaves of a struct type, descending through this crate's own plain structs"""
        out = []

        def go(ty, path, names):
            t = self.p.t(ty)
            k = self.leaf_kind(ty)
            if k is None and t["k"] == "adt" and t["kind"] == "struct" and t.get("local") and t["variants"]:
                fs = t["variants"][0]["fields"]
                for i, f in enumerate(fs):
                    go(f["ty"], path + ((None, i, len(fs)),), names + [f["name"]])
                return
            if k is None and t["k"] == "tuple":
                for i, e in enumerate(t["es"]):
                    go(e, path + ((None, i, len(t["es"])),), names + [str(i)])
                return
            if path:
                out.append(Leaf(path, k or "other", ty, names))
            elif t["k"] == "adt":
                raise Anchor("cannot flatten %s" % t["s"])
        t = self.p.t(ty)
        fs = t["variants"][0]["fields"]
        for i, f in enumerate(fs):
            go(f["ty"], ((None, i, len(fs)),), [f["name"]])
        return out

    def leaf_kind(self, ty):
        t = self.p.t(ty)
        if t["k"] == "int":
            return "num"
        if t["k"] != "adt":
            return None
        last = t["path"].split("::")[-1]
        if t.get("local"):
            if last in ENC or last == "CompressionStream":
                return "stream"
            if is_stat(last) and "::statistics::" in t["path"]:
                return "stats"
            if last in POSITIONS:
                return "position"
            if last == "Data":
                return "child"
            if last in ("Schema", "Config", "CountWrite", "Compression"):
                return last.lower()
        if last == "Box" and self.leaf_kind(t["args"][0]) == "child":
            return "boxchild"
        if last == "Vec":
            e = self.p.t(t["args"][0])
            ek = self.leaf_kind(t["args"][0])
            if ek == "child":
                return "children"
            if e["k"] == "adt" and e.get("local") and e["kind"] == "struct" and ek is None:
                ls = self.flatten(t["args"][0])
                if any(l.kind == "stats" for l in ls):
                    return "entries"
                return "vec"
            return "vec"
        return None


class Column:
    def __init__(self, ctx, idx, name, ty):
        self.ctx, self.idx, self.name, self.ty = ctx, idx, name, ty
        self.adt = ctx.p.t(ty)["path"]

    def leaves(self, kind=None):
        if not hasattr(self, "_lv"):
            self._lv = self.ctx.flatten(self.ty)
        return [l for l in self._lv if kind is None or l.kind == kind or (isinstance(kind, tuple) and l.kind in kind)]

    def fn(self, name, trait=None):
        for tr in ([trait] if trait else [None, "BaseData", "GenericData"]):
            f = self.ctx.p.method(self.adt, name, tr)
            if f:
                return f
        raise Anchor("%s::%s not found" % (self.adt, name))

    def sum(self, name, trait=None, **kw):
        return self.ctx.summary(self.fn(name, trait), "column", **kw)

    def methods(self):
        """every method of the column that takes &mut self and is not part of the BaseData protocol"""
        out = []
        for tr in (None, "GenericData"):
            for f in self.ctx.p.methods(self.adt, tr):
                if f.argc and self.ctx.p.t(f.locals[1])["k"] == "ref":
                    out.append(f)
        return out

    def child_leaves(self):
        return self.leaves(("child", "boxchild", "children"))

    # ------------------------------------------------------------ roles
    @property
    def stripe_stats(self):
        """the statistics object that statistics() reports"""
        if not hasattr(self, "_ss"):
            s = self.sum("statistics", "BaseData")
            self._ss = None
            found = set()
            for o in s.rets:
                new = s.new(o, 1)
                for p in parts_of(new):
                    if p.op == "el":
                        for l in self.leaves("stats"):
                            if contains(p, lambda x: x is l.get(s.old(0))):
                                found.add(l)
            if len(found) != 1:
                raise Anchor("%s: statistics() does not report exactly one statistics field" % self.adt)
            self._ss = found.pop()
        return self._ss

    @property
    def rg_stats(self):
        c = [l for l in self.leaves("stats") if l is not self.stripe_stats]
        if len(c) != 1:
            raise Anchor("%s: expected one row-group statistics field besides the stripe's" % self.adt)
        return c[0]

    @property
    def entries(self):
        c = self.leaves("entries")
        if len(c) != 1:
            raise Anchor("%s: expected one list of row index entries" % self.adt)
        return c[0]

    @property
    def config(self):
        c = self.leaves("config")
        if len(c) != 1:
            raise Anchor("%s: expected one Config field" % self.adt)
        return c[0]

    @property
    def entry_leaves(self):
        return self.ctx.flatten(self.ctx.p.t(self.entries.ty)["args"][0])

    @property
    def cid(self):
        """the leaf returned by column_id()"""
        s = self.sum("column_id", "BaseData")
        for l in self.leaves("num"):
            if all(o.val is l.get(s.old(0)) for o in s.rets) and s.rets and not s.panics:
                return l
        raise Anchor("%s: column_id() does not return a field" % self.adt)

    def roles(self):
        """stream leaf -> stream kind name, from what write_data_streams lists"""
        if hasattr(self, "_roles"):
            return self._roles
        s = self.sum("write_data_streams", "BaseData")
        r = {}
        me = s.old(0)
        for o in s.oks():
            outp, infos = parts_of(s.new(o, 1)), parts_of(s.new(o, 2))
            for q in infos:
                if q.op != "el":
                    continue
                k = self.ctx.info_fields(q.a[0])
                for l in self.leaves("stream"):
                    if k["length"] is slen(mk("fin", l.get(me))):
                        kn = self.ctx.kindname(k["kind"])
                        if kn in r and r[kn] is not l:
                            raise Anchor("%s: two streams listed as %s" % (self.adt, kn))
                        r[kn] = l
        self._roles = r
        return r


def _info_fields(self, t):
    """StreamInfo term -> {kind, column_id, length}"""
    ty = self.adt_ty("StreamInfo")
    fs = self.p.t(ty)["variants"][0]["fields"]
    ix = {}
    for i, f in enumerate(fs):
        y = self.p.t(f["ty"])
        if y["k"] == "adt" and y["path"].endswith("Stream_Kind"):
            ix["kind"] = i
        elif y["k"] == "int" and ("col" in f["name"] or y["bits"] == 32):
            ix["column_id"] = i
        elif y["k"] == "int" and ("len" in f["name"] or "size" in f["name"] or y["bits"] == 64):
            ix["length"] = i
    if len(ix) != 3:
        raise Anchor("StreamInfo fields not recognised")
    return {k: fld(t, None, i, len(fs)) for k, i in ix.items()}


def _kindname(self, t):
    if t.op == "agg" and isinstance(t.a[1], int):
        return self.kinds[t.a[1]]
    return None


Ctx.info_fields = _info_fields
Ctx.kindname = _kindname


def under(t, c, val):
    """t with every gate on condition c resolved"""
    m = {}
    for x in walk(t):
        if x.op == "ite":
            if x.a[0] is c:
                m[x] = x.a[1] if val else x.a[2]
            elif x.a[0].op == "not" and x.a[0].a[0] is c:
                m[x] = x.a[2] if val else x.a[1]
    if not m:
        return t
    return under(subst(t, m), c, val)
