#!/usr/bin/env python3
"""C28: random type declarations, compiled against the current tree and run; and declarations with
something the macros cannot honour, which must not compile.
usage: run28.py [--case SEED]"""
import fcntl, json, os, random, subprocess, sys, time, shutil, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import model as M

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(ROOT, "work", "c28")
BINS, PER = 8, 18
ENV = dict(os.environ, CARGO_TARGET_DIR=os.path.join(ROOT, "target", "programs"), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0")
for k in ("RUSTFLAGS", "RUSTDOCFLAGS"):
    ENV.pop(k, None)

PRELUDE = r'''#![allow(warnings)]
use serdere::{Serialize, Deserialize};
use serdere_json::{TextSerializer, TextDeserializer};
use std::panic::{catch_unwind, AssertUnwindSafe};
#[derive(Debug, Clone, PartialEq, Default)] pub struct W<T>(pub T);
#[derive(Debug, Clone, PartialEq, Default)] pub struct X<T>(pub T);
#[derive(Debug, Clone, PartialEq)] pub struct Y(pub i32);
impl Default for Y { fn default() -> Y { Y(41) } }
impl From<i32> for Y { fn from(n: i32) -> Y { Y(n) } }
impl<T> From<T> for W<T> { fn from(t: T) -> W<T> { W(t) } }
impl<T> From<T> for X<T> { fn from(t: T) -> X<T> { X(t) } }
#[derive(Debug, Clone, PartialEq)] pub struct Lt<'a, T>(pub T, pub std::marker::PhantomData<&'a ()>);
pub fn lt<'a, T>(t: T) -> Lt<'a, T> { Lt(t, std::marker::PhantomData) }
impl<'a, T: Serialize<S, C>, S: serdere::Serializer + ?Sized, C: ?Sized> Serialize<S, C> for Lt<'a, T> {
    const NULLABLE: bool = T::NULLABLE;
    fn serialize(&self, value: serdere::Value<S>, ctx: &mut C) -> Result<(), S::Error> { self.0.serialize(value, ctx) }
}
impl<'a, T: Deserialize<D, C>, D: serdere::Deserializer + ?Sized, C: ?Sized> Deserialize<D, C> for Lt<'a, T> {
    const NULLABLE: bool = T::NULLABLE;
    fn deserialize(value: serdere::Value<D>, ctx: &mut C) -> Result<Self, D::Error> { Ok(lt(T::deserialize(value, ctx)?)) }
}
pub fn squeeze(s: &str) -> String {
    let (mut out, mut inside, mut esc) = (String::new(), false, false);
    for c in s.chars() {
        if inside { if esc { esc = false } else if c == '\\' { esc = true } else if c == '"' { inside = false } out.push(c) }
        else if !matches!(c, ' ' | '\n' | '\t' | '\r') { if c == '"' { inside = true } out.push(c) }
    }
    out
}
fn report(id: &str, what: String) { println!("FAIL\t{}\t{}", id, what.replace('\n', " ").replace('\t', " ")); }
fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}
pub fn w<T: for<'a> Serialize<TextSerializer<&'a mut String>>>(id: &str, v: &T, want: &str) {
    match quiet(|| serdere_json::to_str(v)) {
        Err(p) => report(id, format!("writing panics: {}", p)),
        Ok(t) => if squeeze(&t) != want { report(id, format!("written as {} where {} is due", t, want)) },
    }
}
pub fn r<T: for<'s> Deserialize<TextDeserializer<&'s str>> + PartialEq + std::fmt::Debug>(id: &str, text: &str, want: T) {
    match quiet(|| serdere_json::from_str::<T>(text).map_err(|e| format!("{:?}", e.message()))) {
        Err(p) => report(id, format!("reading {} panics: {}", text, p)),
        Ok(Err(e)) => report(id, format!("{} is refused: {}", text, e)),
        Ok(Ok(v)) => if v != want { report(id, format!("{} is read as {:?} where {:?} is due", text, v, want)) },
    }
}
pub fn bad<T: for<'s> Deserialize<TextDeserializer<&'s str>> + std::fmt::Debug>(id: &str, text: &str, what: &str) {
    match quiet(|| serdere_json::from_str::<T>(text).is_ok()) {
        Err(p) => report(id, format!("reading {} panics: {}", text, p)),
        Ok(true) => report(id, format!("{} is accepted: {}", text, what)),
        Ok(false) => (),
    }
}
pub const N_: usize = 1;
'''

TOML = '''[package]
name = "programs"
version = "0.1.0"
edition = "2021"
[dependencies]
serdere = { path = "REPO/core" }
serdere-json = { path = "REPO/json" }
[features]
bad = []
[workspace]
[profile.dev]
debug = 0
incremental = false
opt-level = 0
'''


def program(rng, n, stats, distinct, samples):
    """Source of one program; and the declarations by line."""
    types, decls, mods, mains = [], [], [], []
    for i in range(n):
        d = M.random_decl(rng, "Ty%d" % i, types)
        text = d.text(rng)
        insts = M.instances(rng, d, types)
        types += insts
        decls.append((d, text))
        mods.append("pub mod m%d { use super::*;\n%s\n}\npub use m%d::*;" % (i, text, i))
        stats["declarations"] += 1
        stats["structs" if d.kind == "struct" else "enums"] += 1
        stats["generic"] += bool(d.params or d.consts)
        stats["with_proxies"] += d.de_only if False else any(isinstance(f.ty, M.Wrapped) for f in d.fields) or any(isinstance(f.ty, M.Wrapped) for v in d.variants for f in v.fields)
        for k, t in enumerate(insts):
            body = []
            for j in range(5):
                v = t.gen(rng)
                ident = "%d.%d.%d" % (i, k, j)
                e = t.expr(v)
                stats["values"] += 1
                if not t.de_only:
                    want = t.render(v, M.Cx(rng, plain=True))
                    body.append("let v: %s = %s; w(%s, &v, %s);" % (t.rust(), e, M.rs(ident), M.rs(want)))
                    stats["written"] += 1
                    distinct.add((text, want))
                for _ in range(3):
                    txt = t.render(v, M.Cx(rng))
                    body.append("r::<%s>(%s, %s, %s);" % (t.rust(), M.rs(ident), M.rs(txt), e))
                    stats["read"] += 1
                    distinct.add((text, txt))
                    if len(samples) < 6 and len(text) < 400 and rng.random() < 0.02:
                        samples.append(text + "  <-  " + txt)
                st = rng.getstate()
                cx = M.Cx(rng)
                t.render(v, cx)
                for _ in range(3):
                    if cx.n == 0:
                        break
                    at = random.Random(rng.random()).randrange(cx.n) if False else hash_pick(st, cx.n, stats["faults"])
                    r2 = random.Random()
                    r2.setstate(st)
                    c2 = M.Cx(r2, at=at)
                    txt = t.render(v, c2)
                    if M.MARK not in txt:
                        continue
                    txt = txt.replace(M.MARK, "")
                    body.append("bad::<%s>(%s, %s, %s);" % (t.rust(), M.rs(ident), M.rs(txt), M.rs(c2.what)))
                    stats["faults"] += 1
                    stats["fault:" + c2.what.split(" \"")[0]] = stats.get("fault:" + c2.what.split(" \"")[0], 0) + 1
                    distinct.add((text, txt))
            mains.append("fn t%d_%d() { %s }" % (i, k, "\n".join(body)))
    names = re.findall(r"fn (t\d+_\d+)\(", "\n".join(mains))
    src = PRELUDE + "\n".join(mods) + "\n" + "\n".join(mains) + "\nfn main() { std::panic::set_hook(Box::new(|_| ())); %s println!(\"DONE\"); }\n" % " ".join(n + "();" for n in names)
    return src, decls


def hash_pick(st, n, k):
    return (st[1][0] ^ st[1][1] * 31 ^ k * 2654435761) % n


KNOWN = {"f": ["rename", "default", "flatten", "proxy"], "v": ["rename", "reindex", "transparent"], "e": ["rename", "tag"]}
KNOWN["vf"] = KNOWN["f"]
ALL = ["rename", "default", "flatten", "proxy", "reindex", "transparent", "tag", "skip", "rename_all", "with", "alias", "index", "untagged", "bound", "skip_serializing", "other", "content", "deny_unknown_fields", "getter", "inline"]


def typo(r, w):
    i = r.randrange(len(w))
    k = r.randrange(4)
    if k == 0:
        return w[:i] + w[i + 1:] or "x"
    if k == 1:
        return w[:i] + r.choice("abcdefgxyz_") + w[i:]
    if k == 2:
        return w[:i] + r.choice("abcdefgxyz") + w[i + 1:]
    return w.capitalize() if r.random() < 0.3 else w[:i] + w[i:i + 2][::-1] + w[i + 2:]


def spoil(r, d):
    """Something the macros must refuse about a declaration, or None."""
    sites = [("f", i) for i in range(len(d.fields))]
    if d.kind == "enum":
        sites += [("e",), ("e",)] + [("v", i) for i in range(len(d.variants))] * 2
        sites += [("vf", i, j) for i, v in enumerate(d.variants) if v.shape == "named" for j in range(len(v.fields))]
        if all(v.shape == "unit" for v in d.variants) and not d.repr:
            sites += [("d", i) for i, v in enumerate(d.variants) if v.disc is None] * 2
    if not sites:
        return None
    at = r.choice(sites)
    k = at[0]
    if k == "d":
        return at, r.choice(["1 + 1000", "N_ as isize + 1000", "-5", "(1000)", "{ 1000 }", "1000 as isize", "!0"]), "a discriminant that is no integer literal"
    known = KNOWN[k]
    x = r.random()
    if x < 0.35:
        w = r.choice([w for w in ALL if w not in known])
    elif x < 0.65:
        w = typo(r, r.choice(known))
        if w in known or not re.fullmatch(r"[A-Za-z_]\w*", w) or w in ("_", "type", "fn"):
            w = "unknown_thing"
    elif x < 0.75:
        w = r.choice(known) + "::" + r.choice(["x", "rename", "default"])
    else:
        if k == "v":
            v = d.variants[at[1]]
            opts = ["rename", "rename = 5", "rename = x", "reindex", "reindex = \"1\"", "reindex = 1.5", "reindex = -1", "reindex = 99999999999999999999999999", "rename(\"x\")"]
            if v.shape == "unit" or v.shape == "named" and len(v.fields) != 1:
                opts += ["transparent"] * 6
            o = r.choice(opts)
        elif k == "e":
            o = r.choice(["rename", "tag", "tag = 5", "tag = x", "rename = 'c'", "tag(\"x\")", "rename = b\"x\""])
        else:
            o = r.choice(["rename", "rename = 5", "rename = x", "proxy", "proxy = 5", "proxy = \"u8\"", "rename(\"x\")", "default = ", "flatten = 1", "default = \"f\"", "flatten(x)"])
        return at, o, "an attribute that makes no sense here"
    # Variations with values
    w += r.choice(["", "", " = \"x\"", " = 1", "(x)"])
    return at, w, "an unknown attribute"


def refusals(rng, n, stats, samples):
    """Pairs of modules: with and without what must be refused."""
    good, bad = [PRELUDE + "fn main() {}"], [PRELUDE + "fn main() {}"]
    types, what = [], {}
    i = 0
    while i < n:
        d = M.random_decl(rng, "Ty%d" % i, [])
        sp = spoil(rng, d)
        if sp is None:
            continue
        st = rng.getstate()
        g = d.text(rng)
        rng.setstate(st)
        b = d.text(rng, (sp[0], sp[1]))
        good.append("mod m%d { use super::*;\n%s\n}" % (i, g))
        bad.append("mod m%d { use super::*;\n%s\n}" % (i, b))
        what[i] = (sp[2], b)
        if len(samples) < 8 and len(b) < 300:
            samples.append("refused: " + b)
        i += 1
    # Unions
    good.append("mod m%d { use super::*;\n#[derive(Serialize)] pub struct Ty%d { pub a: u8, pub b: i8 }\n}" % (n, n))
    bad.append("mod m%d { use super::*;\n#[derive(Serialize)] pub union Ty%d { pub a: u8, pub b: i8 }\n}" % (n, n))
    what[n] = ("a union", "union")
    return "\n".join(good), "\n".join(bad), what


def module_lines(src):
    """First and last line of each module."""
    out, cur = {}, None
    for ln, l in enumerate(src.split("\n"), 1):
        m = re.match(r"(?:pub )?mod m(\d+) \{", l)
        if m:
            cur = int(m.group(1))
            out[cur] = [ln, ln]
        elif cur is not None:
            out[cur][1] = ln
            if l.startswith("}"):
                cur = None
    return out


def cargo(args, cwd):
    r = subprocess.run(["cargo"] + args + ["--offline", "--message-format=json"], cwd=cwd, env=ENV, capture_output=True, text=True)
    errs = []
    for l in r.stdout.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("reason") == "compiler-message" and j["message"]["level"] == "error":
            spans = j["message"]["spans"]
            lines = []
            for s in spans:
                t = s
                while t:
                    if t["file_name"].endswith(".rs") and not t["file_name"].startswith("/"):
                        lines.append((os.path.basename(t["file_name"])[:-3], t["line_start"]))
                    t = (t.get("expansion") or {}).get("span")
            errs.append((j["target"]["name"], lines, j["message"]["message"]))
    return r.returncode, errs, r.stderr


class Stop(Exception):
    pass


def one(seed, quick, stats, distinct, samples):
    """One round. Returns a list of violations (text)."""
    rng = random.Random(seed)
    src = os.path.join(WORK, "src", "bin")
    shutil.rmtree(os.path.join(WORK, "src"), ignore_errors=True)
    os.makedirs(src)
    open(os.path.join(WORK, "Cargo.toml"), "w").write(TOML.replace("REPO", os.environ.get("VERIF_REPO", "/repo")))
    shutil.copy(os.path.join(ROOT, "programs", "Cargo.lock"), os.path.join(WORK, "Cargo.lock"))
    open(os.path.join(WORK, "src", "lib.rs"), "w").write("pub use serdere_json as j;\n")
    progs = []
    for b in range(BINS):
        s, decls = program(rng, PER, stats, distinct, samples)
        progs.append((s, decls))
        open(os.path.join(src, "p%d.rs" % b), "w").write(s)
    good, bad, what = refusals(rng, 400, stats, samples)
    open(os.path.join(src, "good.rs"), "w").write(good)
    open(os.path.join(src, "bad.rs"), "w").write(bad)
    rc, errs, err = cargo(["build", "--lib"], WORK)
    if rc:
        print(err[-2000:])
        raise Stop("the libraries do not build against the current tree")
    out = []
    rc, errs, err = cargo(["build", "--keep-going"] + sum([["--bin", "p%d" % b] for b in range(BINS)], []) + ["--bin", "good"], WORK)
    if rc:
        seen = set()
        for name, lines, msg in errs:
            text = open(os.path.join(src, name + ".rs")).read() if os.path.exists(os.path.join(src, name + ".rs")) else ""
            ml = module_lines(text)
            mods = [m for f, ln in lines if f == name for m, (a, z) in ml.items() if a <= ln <= z]
            key = (name, mods[0] if mods else None)
            if key in seen or msg.startswith("aborting"):
                continue
            seen.add(key)
            decl = "\n".join(text.split("\n")[ml[mods[0]][0]:ml[mods[0]][1] - 1]) if mods else "?"
            out.append("a supported declaration does not compile (%s, seed %d): %s\n%s" % (name, seed, msg, decl))
        if not out:
            print(err[-2000:])
            raise Stop("the programs do not build, without an error message")
    for b in range(BINS):
        exe = os.path.join(ENV["CARGO_TARGET_DIR"], "debug", "p%d" % b)
        if any(n == "p%d" % b for n, _, _ in errs):
            continue
        try:
            r = subprocess.run([exe], capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            out.append("program p%d (seed %d) does not end" % (b, seed))
            continue
        for l in r.stdout.splitlines():
            if l.startswith("FAIL\t"):
                _, ident, msg = l.split("\t", 2)
                out.append("%s (p%d, seed %d)\n%s" % (msg, b, seed, progs[b][1][int(ident.split(".")[0])][1]))
        if r.returncode or "DONE" not in r.stdout.splitlines():
            out.append("program p%d (seed %d) dies with %d: %s" % (b, seed, r.returncode, r.stderr[-500:]))
    rc, errs, err = cargo(["check", "--bin", "bad"], WORK)
    ml = module_lines(bad)
    hit = {m for _, lines, _ in errs for f, ln in lines if f == "bad" for m, (a, z) in ml.items() if a <= ln <= z}
    for m in what:
        stats["refusals"] += 1
        stats["refusal:" + what[m][0]] = stats.get("refusal:" + what[m][0], 0) + 1
        distinct.add(("bad", what[m][1]))
        if m not in hit:
            out.append("%s is not refused (seed %d):\n%s" % (what[m][0], seed, what[m][1]))
    return out


def main():
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    budget = float(os.environ.get("VERIF_BUDGET", "600"))
    t0 = time.time()
    stats = {k: 0 for k in ("declarations", "structs", "enums", "generic", "with_proxies", "values", "written", "read", "faults", "refusals", "rounds")}
    distinct, samples, bads = set(), [], []
    if "--case" in sys.argv:
        seeds = [int(sys.argv[sys.argv.index("--case") + 1])]
    else:
        seeds = (seed * 1000003 + i for i in range(10 ** 6 if thorough else 3))
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    last = None
    try:
        for s in seeds:
            with open(os.path.join(ROOT, "work", "c28.lock"), "w") as lock:
                fcntl.flock(lock, fcntl.LOCK_EX)
                bads = one(s, not thorough, stats, distinct, samples)
            stats["rounds"] += 1
            last = s
            if bads or thorough and time.time() - t0 > budget:
                break
    except Stop as e:
        print("INCONCLUSIVE C28", e)
        sys.exit(3)
    if "--case" not in sys.argv:
        ev = {"property": "C28", "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
              "coverage": {"evaluations": stats["written"] + stats["read"] + stats["faults"] + stats["refusals"], "distinct_nontrivial": len(distinct),
                           "rule": "random declarations with all attributes, generics, raw and non-ASCII identifiers, nested in each other, compiled and run: values written are compared with the text the model gives; that text permuted, reduced, extended, in array form and by index is read back; with one fault it must be refused; declarations with one thing the macros cannot honour must not compile while they do without it; distinct by declaration and text",
                           "samples": samples[:8] or ["none"], "observations": stats},
              "assumptions": ["the model in programs/model.py states what the attributes mean", "rustc reports the errors of all derive expansions"],
              "wall_s": round(time.time() - t0, 3), "violations": len(bads)}
        json.dump(ev, open(os.path.join(ROOT, "evidence", "C28.json"), "w"), indent=1, ensure_ascii=False)
    if bads:
        path = os.path.join(ROOT, "work", "replay-C28.txt")
        open(path, "w").write("replay: %s/programs/run28.py --case %d\n\n" % (ROOT, last if last is not None else 0) + "\n\n".join(bads[:50]) + "\n")
        print("\n\n".join(b[:1500] for b in bads[:6]))
        print("VIOLATION property=C28 replay=%s" % path)
        sys.exit(1)
    if stats["written"] < 100 or stats["read"] < 300 or stats["faults"] < 100 or stats["refusals"] < 100:
        print("INCONCLUSIVE C28 too little was observed", stats)
        sys.exit(3)
    print("OK C28 tier=%s seed=%d %s wall=%.1fs" % ("thorough" if thorough else "quick", seed, json.dumps(stats), time.time() - t0))


main()
