"""Random type declarations with a model of how they map to JSON, for C28."""
import json

IDENTS = ["a", "b", "c", "id", "name", "kind", "value", "has_value", "x1", "x_y", "_z", "r#type", "r#match", "r#fn", "r#struct", "long_field_name_with_many_parts", "tag", "data", "éa", "ünï", "len", "st", "de",
          "ctx", "index", "inner", "done_flag", "err", "s", "d", "w", "v", "ser", "NAMES"]
VARIANTS = ["A", "B", "C", "Aa", "Ab", "Abc", "Zed", "One", "Two", "Three", "LongVariantName", "É", "X9", "Some_", "Nope", "Red", "Green", "Blue", "Cyan", "Tag", "Type", "Default", "Inner", "r#Box", "R", "I", "Ctxt", "Self_"]
NAMES = ["", "x", "type", "a b", "with \"quotes\"", "back\\slash", "new\nline", "é", "日本", "has_value", "0", "value", "A", "a.b", "$ref", "@id", "/", "\t", "𝒳", "longer name than most others are", "null", "true", "type_"]
TAGS = ["kind", "t", "", "the tag", "TYPE", "é!", "type", "tag"]


# Put before what a fault touched, to see that it is still there in the end
MARK = "\x01"


def rs(s):
    return '"' + "".join(c if c.isalnum() and ord(c) < 128 or c in " _-+.:,;{}[]()@$/" else "\\u{%x}" % ord(c) for c in s) + '"'


def lit(r, s):
    """A string literal, in one of its forms."""
    if r.random() < 0.2 and "\"#" not in s and "\r" not in s:
        return 'r#"' + s + '"#'
    return rs(s)


def num(r, k, suffix="isize"):
    """An integer literal, in one of its forms."""
    x = r.random()
    if x < 0.7:
        return "%d" % k
    if x < 0.8:
        return "0x%x" % k
    if x < 0.85:
        return "0b%s" % bin(k)[2:]
    if x < 0.9:
        return "0o%o" % k
    if x < 0.95:
        return "0%d_" % k
    return "%d%s" % (k, suffix)


def attribute(r, a):
    """Attributes for one place."""
    r.shuffle(a)
    pre = r.choice(["/// Documented, as `serde(rename = \"no\")`\n", "#[allow(dead_code)] ", "#[serde()] ", "#[doc = \"serde\"] "]) if r.random() < 0.08 else ""
    if not a:
        return pre
    if r.random() < 0.3:
        return pre + " ".join("#[serde(%s)]" % x for x in a) + " "
    return pre + "#[serde(%s%s)] " % (", ".join(a), r.choice(["", "", "", ","]))


def unraw(s):
    return s[2:] if s.startswith("r#") else s


class Cx:
    """What a rendering may do. Counts the places for a fault; makes one at place `at`."""

    def __init__(self, rng, plain=False, at=None):
        self.rng, self.plain, self.at, self.n, self.what = rng, plain, at, 0, None
        # Where a null stands for the default
        self.null_ok = False

    def fault(self, what):
        self.n += 1
        if self.at == self.n - 1:
            self.what = what
            return True
        return False

    def chance(self, p):
        return not self.plain and self.rng.random() < p


def js(s):
    return json.dumps(s, ensure_ascii=False)


class Ty:
    nullable = False
    default = None  # value, or None where there is no Default
    de_only = False

    def keys(self):
        return None  # not a struct


class Prim(Ty):
    def __init__(self, name):
        self.name = name
        self.nullable = False
        self.default = {"bool": False, "char": "\0", "String": "", "f64": 0.0}.get(name, 0)

    def rust(self):
        return self.name

    def gen(self, r):
        n = self.name
        if n == "bool":
            return r.random() < 0.5
        if n == "char":
            return r.choice("aZ09 é日𝒳_")
        if n == "String":
            return "".join(r.choice("abcXYZ 09é日𝒳_:,{}[]") for _ in range(r.choice([0, 1, 2, 3, 8])))
        if n == "f64":
            return r.choice([-1, 1]) * (r.randrange(0, 1000) + 0.5)
        lo, hi = self.range()
        return r.choice([lo, hi, 0, 1, r.randint(lo, hi), r.randint(lo, hi)])

    def range(self):
        bits = int(self.name[1:])
        return (0, 2 ** bits - 1) if self.name[0] == "u" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)

    def expr(self, v):
        n = self.name
        if n == "bool":
            return "true" if v else "false"
        if n == "char":
            return "'\\u{%x}'" % ord(v)
        if n == "String":
            return rs(v) + ".to_string()"
        if n == "f64":
            return "(%r)" % v
        return "(%d%s)" % (v, n) if v != -2 ** (int(n[1:]) - 1) or n[0] == "u" else n + "::MIN"

    def render(self, v, cx):
        n = self.name
        if cx.fault("wrong type"):
            wrong = {"bool": ["1", "\"true\"", "{}"], "char": ["\"\"", "\"ab\"", "1"], "String": ["1", "[]", "true"], "f64": ["\"1.5\"", "{}", "true"]}
            if n not in wrong:
                lo, hi = self.range()
                wrong[n] = ["\"1\"", "[1]", "{}", "1.5", str(hi + 1), str(lo - 1)]
            return MARK + cx.rng.choice(wrong[n])
        if n == "bool":
            return "true" if v else "false"
        if n in ("char", "String"):
            if cx.chance(0.2):
                return json.dumps(v)
            return js(v)
        if n == "f64":
            return repr(v)
        if cx.chance(0.1) and v % 10 == 0 and v != 0:
            return "%de1" % (v // 10)
        return str(v)


class Unit(Ty):
    """The unit type, written as a struct without fields."""
    default = "()"

    def rust(self):
        return "()"

    def gen(self, r):
        return "()"

    def expr(self, v):
        return "()"

    def keys(self):
        return set()

    def parts(self, v, cx):
        return []

    def render(self, v, cx):
        return struct_text([], set(), cx)


class Vecs(Ty):
    def __init__(self, t, n=None):
        self.t, self.n, self.de_only = t, n, t.de_only
        self.default = [] if n is None else ([t.default] * n if t.default is not None and isinstance(n, int) else None)

    def rust(self):
        return "Vec<%s>" % self.t.rust() if self.n is None else "[%s; %s]" % (self.t.rust(), self.n)

    def gen(self, r):
        k = self.n if self.n is not None else r.choice([0, 1, 1, 2, 3])
        return [self.t.gen(r) for _ in range(k)]

    def expr(self, v):
        return ("vec![%s]" if self.n is None else "[%s]") % ", ".join(self.t.expr(x) for x in v)

    def render(self, v, cx):
        items = [self.t.render(x, cx) for x in v]
        if self.n is not None and cx.fault("excess item"):
            items.append(MARK + "0")
        if self.n and cx.fault("missing item"):
            items.pop()
            return MARK + "[" + ",".join(items) + "]"
        if cx.fault("not an array"):
            return MARK + cx.rng.choice(["{}", "0", "\"\""])
        return "[" + ",".join(items) + "]"


class Tup(Ty):
    def __init__(self, ts):
        self.ts = ts
        self.de_only = any(t.de_only for t in ts)
        self.default = [t.default for t in ts] if all(t.default is not None for t in ts) else None

    def rust(self):
        return "(" + ", ".join(t.rust() for t in self.ts) + ")"

    def gen(self, r):
        return [t.gen(r) for t in self.ts]

    def expr(self, v):
        return "(" + ", ".join(t.expr(x) for t, x in zip(self.ts, v)) + ")"

    def render(self, v, cx):
        items = [t.render(x, cx) for t, x in zip(self.ts, v)]
        if cx.fault("excess item"):
            items.append(MARK + "null")
        if cx.fault("missing item"):
            items.pop()
            return MARK + "[" + ",".join(items) + "]"
        return "[" + ",".join(items) + "]"


class Opt(Ty):
    nullable = True

    def __init__(self, t):
        self.t, self.de_only = t, t.de_only
        self.default = ("none",)

    def rust(self):
        return "Option<%s>" % self.t.rust()

    def gen(self, r):
        return ("none",) if r.random() < 0.35 else ("some", self.t.gen(r))

    def expr(self, v):
        return "None" if v[0] == "none" else "Some(%s)" % self.t.expr(v[1])

    def render(self, v, cx):
        if not self.t.nullable:
            return "null" if v[0] == "none" else self.t.render(v[1], cx)
        if not cx.null_ok and cx.fault("null for a wrapped option"):
            return MARK + "null"
        cx.null_ok = False
        if v[0] == "none":
            return struct_text([("has_value", "false", NEEDED)], {"has_value", "value"}, cx)
        inner = self.t.render(v[1], cx)
        return struct_text([("has_value", "true", NEEDED), ("value", inner, need(self.t, v[1]))], {"has_value", "value"}, cx)


NEEDED, OTHER, FREE = "an error if left out", "another value if left out", "the same value if left out"


def need(t, v):
    """What leaving out a value without default does."""
    while isinstance(t, (Wrapped, Life)):
        t = t.t
    if isinstance(t, Opt) and not t.t.nullable:
        return FREE if v == ("none",) else OTHER
    return NEEDED


def struct_text(parts, keys, cx):
    """Parts are (key, text, NEEDED or OTHER or FREE)."""
    if cx.chance(0.25):
        items = [t for _, t, _ in parts]
        if cx.fault("excess item"):
            items.append(MARK + cx.rng.choice(["null", "0", "{}"]))
        if parts and parts[-1][2] == NEEDED and cx.fault("missing item"):
            items.pop()
            return MARK + "[" + ",".join(items) + "]"
        return "[" + ",".join(items) + "]"
    out, mark = [], ""
    for k, t, needed in parts:
        if needed == FREE and cx.chance(0.5):
            continue
        if needed == NEEDED and cx.fault("missing key " + js(k)):
            mark = MARK
            continue
        kt = json.dumps(k) if cx.chance(0.15) else js(k)
        out.append(kt + ":" + t)
    if not cx.plain:
        for _ in range(cx.rng.choice([0, 0, 0, 1, 2])):
            k = cx.rng.choice(["extra", "Extra", "zz", "a_", "type2", " ", "kindx", "q"])
            if k not in keys and not any(o.startswith(js(k) + ":") for o in out):
                out.append(js(k) + ":" + cx.rng.choice(["1", "null", "[{\"a\":[]}]", "\"type\"", "{\"type\":\"A\",\"a\":1}"]))
        if cx.chance(0.6):
            cx.rng.shuffle(out)
    return mark + "{" + ",".join(out) + "}"


class Field:
    def __init__(self, ident, ty, rename=None, default=False, flatten=False, proxy=None):
        self.ident, self.ty, self.rename, self.use_default, self.flatten, self.proxy = ident, ty, rename, default, flatten, proxy

    @property
    def key(self):
        return self.rename if self.rename is not None else unraw(self.ident)

    def attrs(self, r):
        a = []
        if self.rename is not None:
            a.append("rename = " + lit(r, self.rename))
        if self.use_default:
            a.append("default")
        if self.flatten:
            a.append("flatten")
        if self.proxy:
            a.append("proxy = " + self.proxy)
        return attribute(r, a)


class Life(Ty):
    """A type with a lifetime around another one."""

    def __init__(self, t, life):
        self.t, self.life, self.de_only = t, life, t.de_only
        self.nullable = t.nullable

    def rust(self):
        return "Lt<%s, %s>" % (self.life, self.t.rust())

    def gen(self, r):
        return self.t.gen(r)

    def expr(self, v):
        return "lt(%s)" % self.t.expr(v)

    def render(self, v, cx):
        return self.t.render(v, cx)


class Wrapped(Ty):
    """A type read through a proxy: holds what the proxy held, which is what is modelled."""
    de_only = True

    def __init__(self, proxy, wrapper):
        self.t, self.w = proxy, wrapper
        self.nullable = proxy.nullable
        self.default = proxy.default

    def rust(self):
        return "%s<%s>" % (self.w, self.t.rust())

    def gen(self, r):
        return self.t.gen(r)

    def expr(self, v):
        return "%s(%s)" % (self.w, self.t.expr(v))

    def keys(self):
        return self.t.keys()

    def parts(self, v, cx):
        return self.t.parts(v, cx)

    def render(self, v, cx):
        return self.t.render(v, cx)


class Own(Wrapped):
    """A type with a default of its own, read through a proxy."""

    def __init__(self):
        Wrapped.__init__(self, Prim("i32"), "Y")
        self.default = 41

    def rust(self):
        return "Y"


def field_parts(fields, vals, cx):
    out = []
    for f, v in zip(fields, vals):
        if f.flatten:
            out += f.ty.parts(v, cx)
            continue
        if not f.use_default:
            out.append((f.key, f.ty.render(v, cx), need(f.ty, v)))
        elif v == f.ty.default and cx.chance(0.6):
            out.append((f.key, "null", FREE))
        else:
            cx.null_ok = True
            t = f.ty.render(v, cx)
            cx.null_ok = False
            out.append((f.key, t, FREE if v == f.ty.default else OTHER))
    return out


def field_keys(fields):
    s = set()
    for f in fields:
        s |= f.ty.keys() if f.flatten else {f.key}
    return s


class Struct(Ty):
    """A declared struct with its type arguments filled in."""

    def __init__(self, decl, args, fields):
        self.d, self.args, self.fields = decl, args, fields
        self.de_only = decl.proxies or any(f.ty.de_only for f in fields)

    def rust(self):
        return self.d.name + ("::<%s>" % ", ".join(self.args) if self.args else "")

    def keys(self):
        return field_keys(self.fields)

    def gen(self, r):
        return [f.ty.default if f.use_default and r.random() < 0.4 else f.ty.gen(r) for f in self.fields]

    def expr(self, v):
        if self.d.unit:
            return self.d.name
        return self.d.name + " { " + ", ".join("%s: %s" % (f.ident, f.ty.expr(x)) for f, x in zip(self.fields, v)) + " }"

    def parts(self, v, cx):
        return field_parts(self.fields, v, cx)

    def render(self, v, cx):
        if cx.fault("not a struct"):
            return MARK + cx.rng.choice(["0", "\"x\"", "true"])
        return struct_text(self.parts(v, cx), self.keys(), cx)


class Variant:
    def __init__(self, ident, rename, reindex, disc, shape, fields):
        self.ident, self.rename, self.reindex, self.disc, self.shape, self.fields = ident, rename, reindex, disc, shape, fields
        self.index = None

    @property
    def name(self):
        return self.rename if self.rename is not None else unraw(self.ident)


class Enum(Ty):
    def __init__(self, decl, args, variants):
        self.d, self.args, self.vs = decl, args, variants
        self.de_only = decl.proxies or any(f.ty.de_only for v in variants for f in v.fields)

    def rust(self):
        return self.d.name + ("::<%s>" % ", ".join(self.args) if self.args else "")

    @property
    def tagged(self):
        return self.d.tag is not None or any(v.shape != "unit" for v in self.d.variants)

    def keys(self):
        if not self.tagged:
            return None
        s = {self.d.tag_name}
        for v in self.vs:
            s |= field_keys(v.fields)
        return s

    def gen(self, r):
        i = r.randrange(len(self.vs))
        return (i, [f.ty.default if f.use_default and r.random() < 0.4 else f.ty.gen(r) for f in self.vs[i].fields])

    def expr(self, v):
        var = self.vs[v[0]]
        p = self.d.name + "::" + var.ident
        es = [f.ty.expr(x) for f, x in zip(var.fields, v[1])]
        if var.shape == "unit":
            return p
        if var.shape == "tuple":
            return "%s(%s)" % (p, es[0])
        return p + " { " + ", ".join("%s: %s" % (f.ident, e) for f, e in zip(var.fields, es)) + " }"

    def tag_text(self, i, cx):
        if cx.fault("unknown variant name"):
            names = {v.name for v in self.vs}
            return MARK + js(next(n for n in [self.vs[i].name + "x", "nope", self.vs[i].name[:-1], self.vs[i].name.swapcase(), "\u0001"] if n not in names))
        used = {v.index for v in self.vs}
        if cx.fault("unassigned variant index"):
            free = [k for k in range(0, max(used) + 2) if k not in used]
            return MARK + str(cx.rng.choice(free))
        if cx.fault("wrong type for a tag"):
            return MARK + cx.rng.choice(["{}", "[]", "true", "-1", "99999999999999999999999"])
        if cx.chance(0.3):
            return str(self.vs[i].index)
        return js(self.vs[i].name)

    def parts(self, v, cx):
        var = self.vs[v[0]]
        return [(self.d.tag_name, self.tag_text(v[0], cx), NEEDED)] + field_parts(var.fields, v[1], cx)

    def render(self, v, cx):
        if not self.tagged:
            return self.tag_text(v[0], cx)
        if cx.fault("not a struct"):
            return MARK + cx.rng.choice(["0", "\"x\"", "true"])
        return struct_text(self.parts(v, cx), self.keys(), cx)


class Decl:
    """A declaration, possibly generic; `inst` fills the parameters in."""

    def __init__(self, name):
        self.name = name
        self.params, self.consts, self.unit, self.proxies = [], [], False, False
        self.lifes, self.repr = [], None
        # Parameters whose argument has a default; and those read by way of a proxy, with that
        self.need_default, self.need_from = set(), {}
        self.kind = "struct"
        self.fields, self.variants, self.tag, self.rename = [], [], None, None

    @property
    def tag_name(self):
        return self.tag if self.tag is not None else "type"

    def index(self):
        i = 0
        for v in self.variants:
            if v.disc is not None:
                i = v.disc
            v.index = v.reindex if v.reindex is not None else i
            v.natural = i
            i += 1

    def inst(self, args):
        """args: Ty per type parameter, then int per const parameter."""
        m = dict(zip(self.params, args[:len(self.params)]))
        c = dict(zip(self.consts, args[len(self.params):]))
        names = ["'static"] * len(self.lifes) + [a.rust() for a in args[:len(self.params)]] + [str(a) for a in args[len(self.params):]]

        def sub(t):
            if isinstance(t, Param):
                return m[t.name]
            if isinstance(t, Vecs):
                return Vecs(sub(t.t), c[t.n] if isinstance(t.n, str) else t.n)
            if isinstance(t, Tup):
                return Tup([sub(x) for x in t.ts])
            if isinstance(t, Opt):
                return Opt(sub(t.t))
            if isinstance(t, Life):
                return Life(sub(t.t), "'static")
            if isinstance(t, Own):
                return t
            if isinstance(t, Wrapped):
                return Wrapped(sub(t.t), t.w)
            return t

        def subf(f):
            return Field(f.ident, sub(f.ty), f.rename, f.use_default, f.flatten, f.proxy)
        if self.kind == "struct":
            return Struct(self, names, [subf(f) for f in self.fields])
        vs = []
        for v in self.variants:
            w = Variant(v.ident, v.rename, v.reindex, v.disc, v.shape, [subf(f) for f in v.fields])
            w.index = v.index
            vs.append(w)
        return Enum(self, names, vs)

    def text(self, r, bad=None):
        """The declaration; `bad` = (where, attribute or edit) injects one thing it must refuse."""
        ders = ["Deserialize"] if self.proxies else ["Serialize", "Deserialize"]
        r.shuffle(ders)
        out = "#[derive(Debug, Clone, PartialEq, %s)]\n" % ", ".join(ders)
        gen = where = ""
        if self.params or self.consts or self.lifes:
            dflt = r.random() < 0.3
            ps, ws = list(self.lifes), []
            for i, p in enumerate(self.params):
                b = r.choice(["", "", ": Clone", ": std::fmt::Debug + Sized", ": ::core::clone::Clone +"]) + ("" if not self.lifes or r.random() < 0.5 else "X")
                b = b.replace("+X", "+ 'a").replace("X", " + 'a" if b.startswith(":") else ": 'a")
                if r.random() < 0.2:
                    ws.append(p + r.choice([": PartialEq", ": Clone + PartialEq", ": Sized"]))
                    if r.random() < 0.3:
                        ws.append("Vec<%s>: Clone" % p)
                ps.append(p + b + (r.choice([" = u8", " = Option<bool>"]) if dflt else ""))
            ps += ["const %s: usize%s" % (c, " = 2" if dflt else "") for c in self.consts]
            gen = "<" + ", ".join(ps) + ">"
            if ws:
                where = " where " + ", ".join(ws) + r.choice(["", ","])

        def fld(f, path):
            b = "#[serde(%s)] " % bad[1] if bad and bad[0] == path else ""
            if path[0] == "vf" and self.variants[path[1]].shape == "trans":
                return "%s: %s" % (f.ident, f.ty.rust())
            pub = "pub " if path[0] == "f" else ""
            return "%s%s%s%s: %s" % (f.attrs(r), b, pub, f.ident, f.ty.rust())
        if self.kind == "struct":
            if self.unit:
                return out + "pub struct %s;" % self.name
            return out + "pub struct %s%s%s { %s }" % (self.name, gen, where, ", ".join(fld(f, ("f", i)) for i, f in enumerate(self.fields)))
        a = []
        if self.tag is not None:
            a.append("tag = " + lit(r, self.tag))
        if self.rename is not None:
            a.append("rename = " + lit(r, self.rename))
        if bad and bad[0] == ("e",):
            a.append(bad[1])
        out += attribute(r, a)
        if self.repr:
            out += "#[repr(%s)]\n" % self.repr
        vs = []
        for i, v in enumerate(self.variants):
            a = []
            if v.rename is not None:
                a.append("rename = " + lit(r, v.rename))
            if v.reindex is not None:
                a.append("reindex = " + num(r, v.reindex, "usize"))
            if v.shape in ("tuple", "trans"):
                a.append("transparent")
            if bad and bad[0] == ("v", i):
                a.append(bad[1])
            t = attribute(r, a)
            t += v.ident
            if v.shape == "tuple":
                t += "(%s)" % v.fields[0].ty.rust()
            elif v.shape != "unit":
                t += " { %s }" % ", ".join(fld(f, ("vf", i, j)) for j, f in enumerate(v.fields))
            if v.disc is not None:
                t += " = " + num(r, v.disc, self.repr or "isize")
            if bad and bad[0] == ("d", i):
                t += " = " + bad[1]
            vs.append(t)
        return out + "pub enum %s%s%s { %s }" % (self.name, gen, where, ", ".join(vs))


class Param(Ty):
    def __init__(self, name):
        self.name = name

    def rust(self):
        return self.name


PRIMS = ["bool", "char", "String", "f64", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"]


def simple(r):
    return Prim(r.choice(PRIMS))


def random_ty(r, types, depth, params=(), consts=(), dflt=False):
    """A field type. `types` are the concrete types declared so far."""
    k = r.random()
    if depth <= 0 or k < 0.4:
        if params and r.random() < 0.5 and not dflt:
            return Param(r.choice(params))
        return simple(r)
    if k < 0.55:
        return Opt(random_ty(r, types, depth - 1, params, consts))
    if k < 0.67:
        return Vecs(random_ty(r, types, depth - 1, params, consts))
    if k < 0.73:
        n = r.choice(consts) if consts and not dflt and r.random() < 0.7 else r.choice([0, 1, 2, 3])
        return Vecs(random_ty(r, types, depth - 1, params, consts, dflt), n)
    if k < 0.8:
        return Tup([random_ty(r, types, depth - 1, params, consts, dflt) for _ in range(r.choice([2, 3]))])
    if k < 0.82:
        return Unit()
    if types and not dflt:
        return r.choice(types)
    return simple(r)


def fields(r, types, params, consts, taken, proxies, n, life=None):
    """Fields whose keys do not clash with each other or with `taken`."""
    out, ids = [], set()
    for _ in range(n):
        ident = r.choice(IDENTS)
        if ident in ids:
            continue
        k = r.random()
        f = None
        if k < 0.18 and types:
            t = r.choice([t for t in types if t.keys() is not None] or [None])
            if t is not None and not (t.keys() & taken):
                f = Field(ident, t, flatten=True)
                if proxies and r.random() < 0.4:
                    f = Field(ident, Wrapped(t, "W"), flatten=True, proxy=t.rust().replace("::<", "<"))
        if f is None:
            d = r.random() < 0.25
            t = random_ty(r, types, 3, params, consts, d)
            if d and t.default is None:
                d = False
            if life and not d and r.random() < 0.5:
                t = Life(t, life)
            f = Field(ident, t, r.choice(NAMES) if r.random() < 0.3 else None, d)
            if d and params and not isinstance(t, Life) and r.random() < 0.4:
                t = Param(r.choice(params))
                f = Field(ident, t, f.rename, True)
            elif proxies and r.random() < 0.15:
                f = Field(ident, Param("P"), f.rename, False, proxy="u16")
            elif proxies and r.random() < 0.15:
                f = Field(ident, Own(), f.rename, d, proxy="i32")
            elif proxies and r.random() < 0.4:
                t = random_ty(r, types, 2, (), (), d)
                if d and t.default is None:
                    d = False
                f = Field(ident, Wrapped(t, r.choice(["W", "X"])), f.rename, d, proxy=t.rust().replace("::<", "<"))
        ks = f.ty.keys() if f.flatten else {f.key}
        if ks & taken:
            continue
        taken |= ks
        ids.add(ident)
        out.append(f)
    return out


def random_decl(r, name, types):
    d = Decl(name)
    d.proxies = r.random() < 0.25
    usable = types if d.proxies else [t for t in types if not t.de_only]
    d.kind = r.choice(["struct", "struct", "enum", "enum", "enum"])
    if r.random() < 0.3:
        d.params = r.sample(["T", "U", "S", "D", "Ctx", "De", "V"], r.choice([1, 1, 2]))
    if r.random() < 0.12:
        d.consts = [r.choice(["N", "N", "LEN", "C"])]
    life = None
    if r.random() < 0.1 and not d.proxies:
        life = "'a"
    if d.kind == "struct":
        if r.random() < 0.05:
            d.unit, d.params, d.consts = True, [], []
            return d
        d.fields = fields(r, usable, d.params, d.consts, set(), d.proxies, r.choice([0, 1, 2, 3, 5, 8]), life)
        used = " ".join(f.ty.rust() for f in d.fields)
    else:
        units = r.random() < 0.35
        if r.random() < 0.4:
            d.tag = r.choice(TAGS)
        if r.random() < 0.2:
            d.rename = r.choice(NAMES)
        if units:
            d.params, d.consts = [], []
        names = set()
        for ident in r.sample(VARIANTS, r.choice([1, 2, 3, 5, 9])):
            rename = r.choice(NAMES) if r.random() < 0.3 else None
            nm = rename if rename is not None else unraw(ident)
            if nm in names:
                continue
            names.add(nm)
            shape, fs = "unit", []
            if not units:
                k = r.random()
                flat = [t for t in usable if t.keys() is not None and d.tag_name not in t.keys()]
                if k < 0.25 and flat:
                    shape = r.choice(["tuple", "trans"])
                    fs = [Field(r.choice(IDENTS), r.choice(flat), flatten=True)]
                elif k < 0.8:
                    shape = "named"
                    fs = fields(r, usable, d.params, d.consts, {d.tag_name}, d.proxies, r.choice([0, 1, 2, 4]), life)
            d.variants.append(Variant(ident, rename, None, None, shape, fs))
        # Indices
        if units and r.random() < 0.3 or not units and r.random() < 0.2:
            d.repr = r.choice(["u16", "u32", "i64"])
        for _ in range(20):
            for v in d.variants:
                v.reindex = r.choice([0, 1, 2, 5, 10, 63, 64, 255, 256, 1000, 70000]) if r.random() < 0.25 else None
                v.disc = r.choice([0, 1, 3, 7, 20, 127, 128, 300] + ([] if d.repr == "u16" else [65535, 65536, 1000000])) if (units or d.repr) and r.random() < 0.25 else None
            d.index()
            if len({v.index for v in d.variants}) == len(d.variants) == len({v.natural for v in d.variants}):
                break
        else:
            for v in d.variants:
                v.reindex = v.disc = None
            d.index()
        used = " ".join(f.ty.rust() for v in d.variants for f in v.fields)
    # Parameters must be used
    import re
    words = set(re.findall(r"\w+", used))
    d.params = [p for p in d.params if p in words]
    fs = d.fields + [f for v in d.variants for f in v.fields]
    d.need_default = {f.ty.name for f in fs if f.use_default and isinstance(f.ty, Param)}
    if any(isinstance(f.ty, Param) and f.ty.name == "P" for f in fs):
        d.need_from = {"P": Prim("u16")}
        d.params.append("P")
    d.consts = [c for c in d.consts if c in words]
    if "'a" in used:
        d.lifes = ["'a"]
    return d


def instances(r, d, types):
    """Concrete types of a declaration."""
    usable = types if d.proxies else [t for t in types if not t.de_only]
    out = []
    for _ in range(1 if not (d.params or d.consts) else r.choice([1, 2])):
        args = [Wrapped(d.need_from[p], r.choice(["W", "X"])) if p in d.need_from else random_ty(r, usable, 2, dflt=p in d.need_default) for p in d.params] + [r.choice([0, 1, 2, 4]) for _ in d.consts]
        out.append(d.inst(args))
    return out
