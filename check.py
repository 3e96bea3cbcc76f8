#!/usr/bin/env python3
"""check.py <PROPERTY> [--mir FILE] [--thorough]

Decides one property on the current tree of /repo by static analysis: compiles the library crate with a rustc driver
that exports its MIR (nothing of the library is run), analyses it and prints VIOLATION lines for broken obligations.  --thorough also decides what the
property's rules assume of the layers below (encoders, streams, statistics, counting output, clones, message code).
Exit 0: every obligation holds (known findings apart).  Exit 1: a VIOLATION line was printed."""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ORC_REPO", "/repo")
CACHE = os.path.join(HERE, ".cache")
DRIVER = os.path.join(CACHE, "orcmir")
sys.path.insert(0, os.path.join(HERE, "sa"))


class Broken(Exception):
    """the tree cannot be analysed at all"""


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin"
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("RUSTFLAGS", None)
    return e


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env(), check=True, capture_output=True, text=True).stdout.strip()


def build_driver():
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(HERE, "driver", "main.rs")
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= os.path.getmtime(src):
            return
        tmp = DRIVER + ".%d" % os.getpid()
        r = subprocess.run(["rustc", "+nightly", "-O", src, "--edition", "2021", "-o", tmp], env=env(), capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("driver does not build:\n" + r.stderr[-3000:])
        os.replace(tmp, DRIVER)


def export_mir(out):
    """compile /repo's library crate with the exporting driver"""
    build_driver()
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)
    e = env()
    tgt = tempfile.mkdtemp(prefix="orcsa-")
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
    e["ORCMIR_OUT"] = out
    e["CARGO_TARGET_DIR"] = tgt
    e["CARGO_INCREMENTAL"] = "0"
    try:
        r = subprocess.run(["cargo", "+nightly", "check", "--lib", "--offline"], cwd=REPO, env=e, capture_output=True, text=True)
    finally:
        shutil.rmtree(tgt, ignore_errors=True)
    if r.returncode or not os.path.exists(out):
        raise RuntimeError("cargo check failed:\n" + r.stderr[-3000:])


def known():
    out = {}
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p))["findings"]:
            if k.get("status") == "open":
                out.setdefault(k["property"], {})[k["key"]] = k["what"]
    return out


def main():
    t0 = time.time()
    args = sys.argv[1:]
    mir = None
    if "--mir" in args:
        i = args.index("--mir")
        mir = args[i + 1]
        del args[i:i + 2]
    thorough = "--thorough" in args
    if thorough:
        args.remove("--thorough")
    if args == ["--setup"]:
        build_driver()
        return 0
    pid = args[0]
    import registry
    from orc import Rep, Anchor, Ctx
    from mir import Prog
    spec = registry.PROPS[pid]
    tmp = None
    if mir is None:
        fd, tmp = tempfile.mkstemp(prefix="orcmir-", suffix=".json")
        os.close(fd)
        os.unlink(tmp)
        export_mir(tmp)
        mir = tmp
    try:
        prog = Prog(mir)
    finally:
        if tmp:
            os.unlink(tmp)
    rep = Rep(pid)
    anchors = []
    ctx = None
    try:
        ctx = Ctx(prog)
    except Anchor as x:
        anchors.append(("anchor", str(x)))
    if ctx is not None:
        rules = list(spec["rules"])
        if thorough:
            own = {fn for _, fn, _ in rules}
            rules += [(r[0], r[1], r[2] if len(r) > 2 else {}) for r in registry.BELOW.get(pid, []) if r[1] not in own]
        for name, fn, kw in rules:
            n0 = len(rep.obs)
            try:
                fn(ctx, rep, **kw)
            except Anchor as x:
                anchors.append(("anchor:" + name, str(x)))
            except RecursionError:
                anchors.append(("anchor:" + name, "analysis did not terminate (recursion)"))
            except Exception as x:
                anchors.append(("anchor:" + name, "the construct this rule judges has an unexpected shape: %s" % "".join(traceback.format_exception_only(type(x), x)).strip() + " at " + str(traceback.extract_tb(x.__traceback__)[-1])))
            n = len(rep.obs) - n0
            rep.counts.append((name, n))
            if n < spec.get("floor", {}).get(name, 1):
                anchors.append(("floor:" + name, "only %d obligations arose, %d are expected on this code base" % (n, spec.get("floor", {}).get(name, 1))))
    fails = {}
    for k, m in rep.fails + anchors:
        fails.setdefault(k, m)
    kn = known().get(pid, {})
    viol = {k: m for k, m in fails.items() if k not in kn}
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    keys = {}
    for k, g in rep.obs:
        keys[k] = keys.get(k, True) and g
    ev = {
        "property": pid, "tier": "thorough" if thorough else tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": spec["explain"],
            "functions_analysed": sorted(rep.fns),
            "functions": len(rep.fns),
            "exit_partitions": rep.parts,
            "obligations": len(rep.obs),
            "discharged": sum(1 for _, g in rep.obs if g),
            "distinct_obligations": len(keys),
            "obligations_per_rule": dict(rep.counts),
            "sample_obligations": sorted(keys)[:: max(1, len(keys) // 40)][:45],
            "known_findings_met": sorted(k for k in fails if k in kn),
            "violations": [{"key": k, "what": m} for k, m in viol.items()],
        },
        "assumptions": registry.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    evp = os.path.join(HERE, "evidence", pid + ".json")
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d functions, %d exit partitions, %d obligations (%d distinct), %.1f s" % (pid, len(rep.fns), rep.parts, len(rep.obs), len(keys), time.time() - t0))
    for k, m in sorted(fails.items()):
        if k in kn:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, kn[k]))
    for k, m in sorted(viol.items()):
        print("  broken: %s: %s" % (k, m[:1500]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, evp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
