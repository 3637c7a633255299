"""Properties about programs rather than values: C27 (effects) and C28 (what client programs can express)."""
import glob, json, multiprocessing, os, re, shutil, subprocess, tempfile
import lib
from lib import BUILD, REPO, TRIPLE, VERIF, Broken, analyse, show


def effects(args, cwd, *roots):
    """the effect analysis on a recorded compilation: one result per root set"""
    with tempfile.TemporaryDirectory(prefix="seshat-absint.") as tmp:
        with open(f"{tmp}/jobs", "w") as f:
            f.write("".join(f"effects roots={r}\n" for r in roots))
        r = lib.sh([lib.ENGINE, "--analyze", args, f"{tmp}/jobs", f"{tmp}/out"], cwd=cwd, env=lib.env(LD_LIBRARY_PATH=lib.nightly() + "/lib"))
        try:
            res = [json.loads(l.partition("\t")[2]) for l in open(f"{tmp}/out")]
            assert len(res) == len(roots)
            return res
        except (OSError, ValueError, AssertionError):
            raise Broken("the effect analysis gave no result:\n" + r.stdout[-3000:])


def selftest():
    """every planted effect is found and no pure function is blamed: otherwise the analysis cannot be trusted"""
    res, = effects(lib.record("selftest"), os.path.join(VERIF, "selftest"), "each")
    bad = good = 0
    for r in res["each"]:
        n = r["root_names"][0]
        if n.startswith("bad_"):
            bad += 1
            if not r["found"]:
                raise Broken(f"self-test: the effect of {n} was not found")
        if n.startswith("good_"):
            good += 1
            if r["found"]:
                raise Broken(f"self-test: {n} is pure but was reported: {r['found'][0]}")
    if bad < 30 or good < 12:
        raise Broken(f"self-test: only {bad} and {good} functions seen")
    u, = effects(lib.record("selftest"), os.path.join(VERIF, "selftest"), "unsafe")
    kinds = {f["kind"] for f in u["found"]}
    if not {"unsafe block", "extern block", "static mut", "unsafe impl", "unsafe function"} <= kinds:
        raise Broken(f"self-test: unsafe code not found: {kinds}")
    return bad, good


def C27(rep):
    bad, good = selftest()
    args = lib.record()
    client, = effects(args, os.path.join(VERIF, "harness"), "pub")
    own, generic, uns = effects(args + ".seshat", REPO, "pub", "generic", "unsafe")
    if client["bodies"] < 500 or own["bodies"] < 500 or own["roots"] < 150 or uns["bodies"] < 200:
        raise Broken(f"the call graph is too small: {client['bodies']}, {own['bodies']} functions, {own['roots']} roots")
    seen = set()
    for what, r in (("client", client), ("crate", own), ("generic", generic), ("source", uns)):
        for f in r["found"]:
            key = f"{f['kind']} {f['what']} at {f['at']}"
            if key in seen:
                continue
            seen.add(key)
            chain = " <- ".join(f["path"][:6]) + (f" <- ... <- {f['path'][-1]}" if len(f["path"]) > 6 else "")
            rep.violation(key, f"{f['kind']}: {f['what']} at {f['at']}" + (f" [{chain}]" if chain else ""))
        n = r["calls"] + r["consts"]
        rep.count(n + len(r["opaque"]), n - len(r["found"]))
        for p in r["opaque"][:5]:
            rep.note(f"no body for {p}")
    rep.fns.update(x for x in client["own"] + own["own"] + generic["own"] if "/repo/" in x)
    rep.extra = {"call_graph": {k: {x: r[x] for x in ("roots", "bodies", "std_bodies", "calls", "consts")} for k, r in (("client", client), ("crate", own), ("generic", generic), ("source", uns))},
                 "paths_end_at": sorted(set(client["cuts"] + own["cuts"])), "statics_reached": sorted(set(client["statics"] + own["statics"])),
                 "self_test": f"{bad} functions with one effect each were all reported, {good} pure functions were not"}
    for x in own["root_names"][:5]:
        rep.sample("operation: " + x)
    return ("From every operation a client can name, over the call graph of resolved calls, function pointers, closures, vtables and drop glue, through the standard library: no static with "
            "interior mutability or static mut (a lock holding a value computed once from nothing is allowed), no thread-local, no foreign function, no input or output, environment, clock, process, "
            "thread or randomness, no iteration in a hash table's random order, no address used as text, no assembly; and no unsafe block, function, impl, trait or extern block written in the crate. "
            "One obligation per call site and constant.")


# ------------------------------------------------------------------ C28
def compile_one(job):
    src, bad, link = job
    out = tempfile.mkdtemp(prefix="seshat-absint.")
    try:
        r = subprocess.run(["rustc", "+nightly", "--edition=2021", "--crate-type=lib", "--crate-name=witness", "--emit=metadata", "--error-format=json", "-Awarnings",
                            "--target", TRIPLE, "--sysroot", lib.miri_sysroot(), "--out-dir", out, src] + link
                           + (["--cfg", "bad"] if bad else []) + ["--check-cfg=cfg(bad)"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=lib.env())
    finally:
        shutil.rmtree(out)
    codes, first = set(), ""
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") == "error":
            if m.get("code"):
                codes.add(m["code"]["code"])
            first = first or m["message"]
    return r.returncode == 0, codes, first


def link_args(args):
    """how the harness was given the current crate"""
    raw = open(args).read().split("\0")
    out = []
    for i, a in enumerate(raw):
        if a in ("-L", "--extern"):
            out += [a, raw[i + 1]]
    if not any(x.startswith("seshat=") for x in out):
        raise Broken("no metadata of the current crate")
    return out


INTS = {"u8", "u16", "u32", "char", "bool"}
ENTRY = """//! Generated: one entry per public operation that yields or changes a code point. Never run.
use seshat::unicode::CodePoint;
#[allow(dead_code)]
fn cp(c: u32) -> CodePoint { match CodePoint::new(c) { Ok(c) => c, Err(_) => panic!("harness: code point rejected") } }
"""


def entry(k, it):
    """an entry that runs one operation on unrestricted arguments and gives the number of the code point it yields"""
    ps, pre, ex = [], [], []
    for j, t in enumerate(it["in"]):
        base = t.removeprefix("&").removeprefix("mut ").strip()
        ref = t[:len(t) - len(base)]
        if base in INTS:
            ps.append((base, "0-0xFFFFFFFF" if base == "u32" else None))
            pre.append(f"let mut v{j} = a{len(ps) - 1};")
        elif base == "seshat::unicode::CodePoint":
            ps.append(("u32", "0-0x10ffff"))
            pre.append(f"let mut v{j} = cp(a{len(ps) - 1});")
        else:
            return None
        ex.append(f"{ref}v{j}" if ref else f"v{j}")
    o = it["out"]
    call = f"{it['path']}({', '.join(ex)})"
    if it["changes"] and not it["yields"]:
        j = next((j for j, t in enumerate(it["in"]) if t == "&mut seshat::unicode::CodePoint"), None)
        if j is None:
            return None
        body = f"let _ = {call}; v{j}.to_u32()"
    elif o == "seshat::unicode::CodePoint":
        body = f"{call}.to_u32()"
    elif o in ("std::option::Option<seshat::unicode::CodePoint>",):
        body = f"match {call} {{ Some(c) => c.to_u32(), None => 0 }}"
    elif o.startswith("std::result::Result<seshat::unicode::CodePoint,"):
        body = f"match {call} {{ Ok(c) => c.to_u32(), Err(_) => 0 }}"
    else:
        return None
    sig = ", ".join(f"a{i}: {t}" for i, (t, _) in enumerate(ps))
    doms = " ".join(f"dom{i}={d}" for i, (_, d) in enumerate(ps) if d)
    return f"#[allow(unused_mut)] pub fn producer{k}({sig}) -> u32 {{ {' '.join(pre)} {body} }}\n", f"producer{k} {doms}".strip()


def too_big(v):
    """part of the output above 10FFFF"""
    if "c" in v:
        return v["c"] > 0x10FFFF
    if "p" in v:
        return any((p[2] if len(p) == 3 else max(p[2], p[2] + p[3] * (p[1] - p[0]))) > 0x10FFFF for p in v["p"])
    return None


def C28(rep):
    args = lib.record()
    api, = effects(args, os.path.join(VERIF, "harness"), "api type=CodePoint")
    if "error" in api:
        raise Broken(api["error"])
    for f in api["fields"]:
        rep.count(1, not f["public"])
        if f["public"]:
            rep.violation(f"field {f['name']}", f"the field {f['name']} of CodePoint is public: a client can write any number into it")
    # every public operation that yields or changes a code point, on every argument
    gens, jobs, src = [], [], ENTRY
    for k, it in enumerate(api["items"]):
        e = None if it["generic"] else entry(k, it)
        if e is None:
            rep.count(1, 0)
            rep.note(f"undecided: {it['path']}({', '.join(it['in'])}) -> {it['out']} at {it['at']}")
            continue
        src += e[0]
        jobs.append(e[1])
        gens.append(it)
    root = os.path.join(BUILD, "producers")
    with lib.Lock("producers-src"):
        os.makedirs(os.path.join(root, "src"), exist_ok=True)
        for name, text in (("Cargo.toml", open(os.path.join(VERIF, "harness", "Cargo.toml")).read()), ("Cargo.lock", open(os.path.join(VERIF, "harness", "Cargo.lock")).read()), ("src/lib.rs", src)):
            p = os.path.join(root, name)
            if not os.path.exists(p) or open(p).read() != text:
                open(p, "w").write(text)
        rs = analyse(jobs, crate=".build/producers") if jobs else []
    rep.saw(*rs)
    for it, r in zip(gens, rs):
        n = bad = 0
        for c in r["cells"]:
            n += 1
            b = too_big(c["out"])
            if b:
                bad += 1
                rep.violation(f"producer {it['path']}", f"{it['path']} at {it['at']} yields a code point above 10FFFF, from {', '.join(show([tuple(x) for x in g]) for g in c['regs'])}")
            elif b is None:
                bad += 1
        rep.count(n + len(r["undecided"]), n - bad)
        rep.sample(f"every argument of {it['path']}: the number stays within 10FFFF")
    # witnesses
    link = link_args(args)
    ws = sorted(glob.glob(os.path.join(VERIF, "witness", "*.rs")))
    todo = [(w, b, link) for w in ws for b in (False, True) if not (b and "cfg(bad)" not in open(w).read())]
    with multiprocessing.Pool(8) as p:
        got = dict(zip([(w, b) for w, b, _ in todo], p.map(compile_one, todo, chunksize=1)))
    usable = 0
    for w in ws:
        name = os.path.basename(w)[:-3]
        text = open(w).read()
        head = text.splitlines()[0].removeprefix("//! ")
        ok, codes, msg = got[(w, False)]
        m = re.search(r"^//! must compile: (\S+)", text, re.M)
        if m:
            usable += 1
            good = ok or not (codes and codes <= set(m.group(1).split(",")))
            rep.count(1, ok)
            if not good:
                rep.violation(f"witness {name}", f"{head}: the program {name} is rejected: {msg} ({', '.join(sorted(codes))})")
            elif not ok:
                rep.note(f"undecided: {name} does not compile: {msg}")
            continue
        if not ok:
            rep.count(1, 0)
            rep.note(f"undecided: the harmless twin of {name} does not compile: {msg}")
            continue
        usable += 1
        bok, bcodes, bmsg = got[(w, True)]
        rep.count(1, not bok)
        rep.sample(f"{head}: {bmsg} ({', '.join(sorted(bcodes))})")
        if bok:
            rep.violation(f"witness {name}", f"{head}: the violating program {name} compiles")
    if usable < len(ws) // 2:
        raise Broken("most witness programs do not fit the current interface")
    rep.extra = {"witnesses": [os.path.basename(w) for w in ws], "public_functions": api["functions"], "public_types": api["types"],
                 "code_point_operations": [it["path"] for it in api["items"]]}
    return ("Each violating client program is rejected by the compiler while its twin without the violation is accepted; each program that must be accepted (threads, copies) is; the fields of "
            "CodePoint are private; and every public operation that yields or changes a CodePoint, found in the crate's exported interface and analysed for all arguments, stays within 10FFFF.")
