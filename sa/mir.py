"""Loads the JSON written by the MIR exporter and offers types, functions, CFG facts (dominators, loops)."""
import json
import re
from collections import defaultdict


class Fn:
    def __init__(self, d):
        self.__dict__.update(d)
        self.id = d["id"]
        self.nblocks = len(self.blocks)
        self._loops = None

    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def callees(self):
        """ids of the crate functions called here"""
        return [b["t"][1]["fn"] for b in self.blocks if b["t"][0] == "call" and isinstance(b["t"][1], dict) and b["t"][1].get("fn") is not None]

    def cfg(self):
        """reachable blocks in RPO, immediate dominators, natural loops {header: set(blocks)}"""
        if self._loops is not None:
            return self._loops
        order, seen = [], set()

        def dfs(b):
            st = [(b, iter(self.succ(b)))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen and not self.blocks[y]["cl"]:
                        seen.add(y)
                        st.append((y, iter(self.succ(y))))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(0)
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = defaultdict(list)
        for b in rpo:
            for y in self.succ(b):
                if y in num:
                    preds[y].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        irreducible = False
        for b in rpo:
            for y in self.succ(b):
                if y in num and num[y] <= num[b]:
                    if dom(y, b):
                        body = loops.setdefault(y, {y})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st.extend(preds[x])
                    else:
                        irreducible = True
        self.num = num
        self.idom = idom
        self.dom = dom
        self._loops = (rpo, loops, preds, irreducible)
        return self._loops


def known_names(d):
    """{name in the source: usual name} for private types and methods the rules refer to by name"""
    types = d["types"]
    out = {}
    last = lambda i: types[i].get("path", "").split("::")[-1] if i is not None else ""
    mine = [i for i in d["adts"] if types[i].get("local") and "orc_proto" not in types[i].get("path", "")]
    have = set(last(i) for i in mine)

    def alias(new, olds):
        olds = set(olds)
        if new not in have and len(olds) == 1:
            out[olds.pop()] = new

    def strip(i):
        while i is not None and types[i]["k"] == "ref":
            i = types[i]["e"]
        return i
    structs = [i for i in mine if types[i].get("kind") == "struct" and types[i]["variants"]]
    fields = lambda i: [f["ty"] for f in types[i]["variants"][0]["fields"]]
    alias("StreamInfo", [last(i) for i in structs if any(last(f) == "Stream_Kind" for f in fields(i))])
    alias("StripeInfo", [last(i) for i in structs if any(last(f) == "Vec" and any(last(a) == "Statistics" for a in types[f].get("args", [])) for f in fields(i)) and sum(types[f]["k"] == "int" for f in fields(i)) >= 3])
    fns = [f for f in d["fns"] if f and f.get("local") and f.get("impl_adt")]
    for enc in ("BooleanRLE", "ByteRLE", "IntRLEv1", "CompressionStream"):
        rs = [last(strip(f["locals"][0])) for f in fns if f["name"] == "position" and f["impl_adt"].split("::")[-1] == enc and f["argc"] == 1]
        alias(enc + "Position", [r for r in rs if r])
    pos = [f["name"] for f in fns if f["impl_adt"].split("::")[-1] == "CountWrite" and not f.get("impl_trait") and f["argc"] == 1 and types[f["locals"][0]]["k"] == "int" and types[f["locals"][1]]["k"] == "ref"]
    if pos and "pos" not in pos and len(set(pos)) == 1:
        out[pos[0]] = "pos"
    return out


class Prog:
    def __init__(self, path):
        with open(path) as f:
            text = f.read()
        d = json.loads(text)
        for old, new in known_names(d).items():
            # a private type or method called something else: told by its role, referred to by its usual name
            text = re.sub(r"\b%s\b" % re.escape(old), new, text)
            d = None
        if d is None:
            d = json.loads(text)
        self.raw = d
        self.types = d["types"]
        self.fns = [Fn(x) if x else None for x in d["fns"]]
        self.roots = d["roots"]
        self.by_path = defaultdict(list)
        for f in self.fns:
            if f:
                self.by_path[f.path].append(f)

    def t(self, i):
        return self.types[i]

    def tstr(self, i):
        return self.types[i]["s"]

    def local_fns(self, proto=False):
        return [f for f in self.fns if f and f.local and (proto or "orc_proto" not in f.path)]

    def adt(self, path):
        """the ADT type entry with the given def path (identity instance)"""
        for i in self.raw["adts"]:
            if self.types[i].get("path") == path:
                return i
        return None

    def generic_fn(self, path):
        """the function with this def path whose type arguments are its own parameters"""
        c = [f for f in self.by_path.get(path, []) if f.id in self._rootset()]
        return c[0] if c else None

    def _rootset(self):
        if not hasattr(self, "_rs"):
            self._rs = set(self.roots)
        return self._rs

    def methods(self, adt_path, trait=None):
        out = []
        for f in self.fns:
            if f and f.local and f.id in self._rootset() and getattr(f, "impl_adt", None) == adt_path:
                tr = getattr(f, "impl_trait", None)
                if (trait is None and tr is None) or (trait is not None and tr is not None and tr.split("::")[-1] == trait):
                    out.append(f)
        return out

    def method(self, adt_path, name, trait=None):
        for f in self.methods(adt_path, trait):
            if f.name == name:
                return f
        return None
