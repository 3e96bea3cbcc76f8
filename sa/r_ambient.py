"""Nothing outside the arguments reaches the output; no unsafe code (C25).

An effect analysis over every function of the crate (the generated protobuf module included): which foreign functions it
can call or hand on, which globals it touches, which types its values have."""
import re
from orc import *

# calls whose result is not a function of their arguments
AMBIENT = [
    ("the clock", r"^(std|core)::time::(SystemTime|Instant)::(now|elapsed|duration_since|checked_|saturating_)|^<std::time::(SystemTime|Instant)"),
    ("the environment", r"^std::env::"),
    ("the process", r"^std::process::(id|Command|Child|ExitStatus)|^<std::process::"),
    ("the file system", r"^std::(fs|path::Path::(exists|is_file|is_dir|metadata|canonicalize|read_))|^<std::fs::"),
    ("the network", r"^std::net::"),
    ("the operating system", r"^std::os::|^libc::"),
    ("standard input", r"^std::io::(stdin|Stdin|read_to_string)|^<std::io::Stdin"),
    ("the thread", r"^std::thread::|^<std::thread::"),
    ("another thread", r"^std::sync::(mpsc|Barrier|Condvar)"),
    ("random hash keys", r"RandomState|hash::random|BuildHasher::(hash_one|build_hasher)"),
    ("randomness", r"^(rand|getrandom|fastrand|uuid|ahash)(_\w+)?::|^<(rand|getrandom|fastrand|uuid)"),
    ("an address", r"fmt::Pointer|new_pointer|::expose_(provenance|addr)|ptr::(const_ptr|mut_ptr)::.*::(addr|align_offset|is_aligned)|<impl \*(const|mut) T>::(addr|align_offset|is_aligned)|NonNull::<T>::addr|^std::ptr::hash|fn_addr_eq"),
    ("the call site", r"panic::Location|backtrace::"),
    ("the allocator", r"^(std|core|alloc)::alloc::"),
]
AMBIENT = [(n, re.compile(p)) for n, p in AMBIENT]
# values that give their contents in an order of their own
HASHED = re.compile(r"\b(hash_map|hash_set|hash::map|hash::set|map|set)::(Iter|IterMut|IntoIter|Keys|IntoKeys|Values|ValuesMut|IntoValues|Drain|ExtractIf|Union|Difference|Intersection|SymmetricDifference)\b")
HASHTYPE = re.compile(r"\b(HashMap|HashSet)<")
SHARED = re.compile(r"\b(Rc|Arc|Weak)<|&'static ")
CELLS = re.compile(r"\b(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|OnceLock|LazyLock|Mutex|RwLock|Atomic\w*|SyncUnsafeCell)\b")
LAZY = re.compile(r"^protobuf::rt::LazyV2<protobuf::reflect::|^protobuf::rt::LazyV2<protobuf::descriptor|^protobuf::(rt::)?LazyV2<")


def operands(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "k" and isinstance(x[1], dict):
            yield x[1]
            return
        for y in x:
            yield from operands(y)


def casts(x):
    if isinstance(x, list):
        if x and x[0] == "cast":
            yield x
        for y in x:
            yield from casts(y)


def names(c):
    return [c[k] for k in ("decl", "path", "full") if c.get(k)]


def ambient(ctx, rep):
    p = ctx.p
    d = p.raw
    # ---- no unsafe code anywhere in the crate, so memory is only reached through safe interfaces
    for kind, span in d["unsafe"]:
        rep.ob("unsafe:%s" % span[0], False, "%s at %s:%s" % (kind, span[0], span[1]))
    rep.ob("unsafe", not d["unsafe"], "unsafe code in the crate")
    # ---- globals
    for s in d["statics"]:
        nm = s["path"]
        good = s["mut"] == "Not" and not s["tls"] and (s["freeze"] or ("orc_proto" in nm and LAZY.search(s["ty"])))
        rep.ob("static:%s" % nm, bool(good), "a global whose value can change: %s: %s (%s:%s)" % (nm, s["ty"], s["span"][0], s["span"][1]))
    # ---- types whose values share changeable state
    cells = changeable(p)
    cellre = re.compile(r"\b(%s)\b" % "|".join(re.escape(x) for x in cells)) if cells else CELLS
    for i in d["adts"]:
        t = p.t(i)
        for v in t["variants"]:
            for f in v["fields"]:
                u = p.tstr(f["ty"])
                bad = (SHARED.search(u) and (CELLS.search(u) or cellre.search(u))) or re.search(r"\*(const|mut) ", u)
                if bad:
                    rep.ob("shared:%s" % t["path"], False, "a field of %s shares state between values: %s" % (t["path"], u))
        rep.ob("shared:%s" % t["path"], True)
    # ---- every function
    for f in p.fns:
        if not f or not f.local:
            continue
        rep.fns.add(f.path)
        rep.parts += 1
        rep.ob("unsafe-fn:%s" % f.path, not getattr(f, "unsafe", False), "an unsafe function", f)
        proto = "orc_proto" in f.path
        for l in f.locals:
            ty = p.tstr(l["ty"] if isinstance(l, dict) else l)
            if HASHED.search(ty) and "collections" in ty and "btree" not in ty and "vec_deque" not in ty and "linked_list" not in ty and "binary_heap" not in ty:
                rep.ob("calls:%s" % f.path, False, "uses contents in hash order: %s" % ty, f)
            if SHARED.search(ty) and (CELLS.search(ty) or cellre.search(ty)) and not proto:
                rep.ob("calls:%s" % f.path, False, "uses shared changeable state: %s" % ty, f)
        n = 0
        for bi, b in enumerate(f.blocks):
            t = b["t"]
            cs = []
            if t[0] == "call" and isinstance(t[1], dict):
                cs.append(t[1])
            for k in operands(b["s"]):
                cs += fndef(p, k)
            if t[0] == "call":
                for k in operands(t[2]):
                    cs += fndef(p, k)
            for c in cs:
                n += 1
                for what, rx in AMBIENT:
                    for nm in names(c):
                        if rx.search(nm) and not proto_rt(nm, proto):
                            rep.ob("calls:%s" % f.path, False, "depends on %s: calls %s" % (what, nm), f)
                            break
                if c.get("decl", "").split("::")[-1] in ("fmt", "new_debug", "new_display", "hash", "into_iter", "eq") or "IntoIterator" in c.get("decl", ""):
                    for a in c.get("targs", []):
                        ty = p.tstr(a)
                        if HASHTYPE.search(ty) and c["decl"].split("::")[-1] != "eq":
                            rep.ob("calls:%s" % f.path, False, "uses contents in hash order: %s of %s" % (c["decl"], ty), f)
            for cst in casts(b["s"]):
                k = str(cst[1])
                rep.ob("calls:%s" % f.path, not ("Expose" in k or k == "Transmute" or "FnPtrToPtr" in k), "turns an address into a number (%s)" % k, f)
        rep.ob("calls:%s" % f.path, True)
        rep.parts += n


def proto_rt(nm, proto):
    """the descriptors of generated messages are made once, from constants"""
    return proto and "LazyV2" in nm


def fndef(p, k):
    t = p.t(k["t"]) if isinstance(k.get("t"), int) else {}
    return [t["f"]] if t.get("k") == "fndef" and isinstance(t.get("f"), dict) else []


def changeable(p):
    """the crate's types holding a cell, directly or through one another"""
    out = set()
    while True:
        n = len(out)
        for i in p.raw["adts"]:
            t = p.t(i)
            for v in t["variants"]:
                for f in v["fields"]:
                    ty = p.tstr(f["ty"])
                    if CELLS.search(ty) or any(re.search(r"\b%s\b" % re.escape(x), ty) for x in out):
                        out.add(t["path"])
        if len(out) == n:
            return out
