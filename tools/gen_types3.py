#!/usr/bin/env python3
"""Writes harness/src/types3.rs: derived types with very many variants and fields."""
o = []
w = o.append
w("//! Derived types with very many variants and fields (written by tools/gen_types3.py).")
w("use crate::types::*;\nuse crate::Rng;\nuse serdere::*;\n")
# 300 plain variants
w("#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]\npub enum Huge {")
names = []
idx = 0
for i in range(300):
    rn = None
    if i % 37 == 5:
        rn = f"v{i}"
    if i == 290:
        w(f"    #[serde(reindex = 70000)]")
    idx = 70000 if i == 290 else i
    if rn:
        w(f'    #[serde(rename = "{rn}")]')
    w(f"    V{i},")
    names.append((f"V{i}", rn or f"V{i}", idx))
w("}")
w("pub const HUGE: &[(Huge, &str, usize)] = &[")
for v, n, i in names:
    w(f'    (Huge::{v}, "{n}", {i}),')
w("];")
w("""impl Ty for Huge {
    fn gen(r: &mut Rng) -> Self {
        let k = if r.bool() { *r.pick(&[0, 1, 127, 128, 129, 254, 255, 256, 257, 258, 299]) } else { r.below(HUGE.len()) };
        HUGE[k].0
    }
    fn model(&self) -> M {
        let x = HUGE.iter().find(|x| x.0 == *self).unwrap();
        M::Tag(x.1.into(), x.2)
    }
}
""")
# 264 variants, some with content
N = 264
w("#[derive(Debug, Serialize, Deserialize)]\npub enum HugeData {")
gen, mod = [], []
for i in range(N):
    k = i % 8
    if k in (1, 5):
        w(f"    D{i} {{ x: u16 }},")
        gen.append(f"{i} => HugeData::D{i} {{ x: Ty::gen(r) }},")
        mod.append(f'HugeData::D{i} {{ x }} => vec![tag("type", "D{i}", {i}), req("x", x)],')
    elif k == 7:
        w(f"    #[serde(transparent)]\n    D{i}(P2),")
        gen.append(f"{i} => HugeData::D{i}(Ty::gen(r)),")
        mod.append(f'HugeData::D{i}(p) => {{ let mut f = vec![tag("type", "D{i}", {i})]; f.extend(p.fields()); f }}')
    else:
        w(f"    D{i},")
        gen.append(f"{i} => HugeData::D{i},")
        mod.append(f'HugeData::D{i} => vec![tag("type", "D{i}", {i})],')
w("}")
w(f"""impl Ty for HugeData {{
    fn gen(r: &mut Rng) -> Self {{
        let k = if r.bool() {{ *r.pick(&[0, 1, 125, 127, 128, 129, 253, 255, 256, 257, 261, 263]) }} else {{ r.below({N}) }};
        match k {{""")
gen[-1] = gen[-1].replace(f"{N-1} =>", "_ =>")
for g in gen:
    w("            " + g)
w("        }\n    }\n    fn model(&self) -> M {\n        M::Obj(match self {")
for m in mod:
    w("            " + m)
w("        })\n    }\n}\n")
# 150 fields
w("#[derive(Debug, Serialize, Deserialize)]\npub struct Broad {")
F = 150
g, m = [], []
for i in range(F):
    k = i % 5
    t = ["u8", "Option<u8>", "u32", "bool", "Option<Option<bool>>"][k]
    if k == 2 or i % 20 == 3 or i % 20 == 4:
        w("    #[serde(default)]")
        g.append(f"f{i}: if r.bool() {{ Default::default() }} else {{ Ty::gen(r) }},")
        m.append(f'def("f{i}", &self.f{i}),')
    else:
        g.append(f"f{i}: Ty::gen(r),")
        m.append(f'req("f{i}", &self.f{i}),')
    w(f"    pub f{i}: {t},")
w("}")
w("impl Ty for Broad {\n    fn gen(r: &mut Rng) -> Self {\n        Broad {")
for x in g:
    w("            " + x)
w("        }\n    }\n    fn model(&self) -> M {\n        M::Obj(vec![")
for x in m:
    w("            " + x)
w("        ])\n    }\n}")
open(__file__.rsplit("/", 2)[0] + "/harness/src/types3.rs", "w").write("\n".join(o) + "\n")
