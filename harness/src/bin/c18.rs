//! C18: layouts change whitespace only, and indent consistently.
use vh::prog::*;
use vh::run::show;
use vh::*;

/// One line of indented output: depth and tokens.
struct Line {
    depth: usize,
    toks: Vec<String>,
}

/// Lines which the tree must be laid out in, from the tokens of the compact form.
fn lines(toks: &[&str]) -> Vec<Line> {
    let mut out = vec![Line { depth: 0, toks: vec![] }];
    let mut depth = 0;
    let mut i = 0;
    while i < toks.len() {
        let t = toks[i];
        let cur = out.last_mut().unwrap();
        match t {
            "{" | "[" => {
                cur.toks.push(t.to_string());
                if matches!(toks.get(i + 1), Some(&"}") | Some(&"]")) {
                    // Empty container: on one line
                    cur.toks.push(toks[i + 1].to_string());
                    i += 1;
                } else {
                    depth += 1;
                    out.push(Line { depth, toks: vec![] });
                }
            }
            "}" | "]" => {
                depth -= 1;
                out.push(Line { depth, toks: vec![t.to_string()] });
            }
            "," => {
                cur.toks.push(t.to_string());
                out.push(Line { depth, toks: vec![] });
            }
            _ => cur.toks.push(t.to_string()),
        }
        i += 1;
    }
    out
}

fn toks(text: &str) -> Vec<&str> {
    refjson::tokens(text).into_iter().map(|(a, b)| &text[a..b]).collect()
}

fn check(rng: &mut Rng, cx: &mut Cx, p: &P) -> Result<(), String> {
    units(rng, cx, p, &["  ", "", " ", "\t", "    ", " \t", "        "])
}

fn units(rng: &mut Rng, cx: &mut Cx, p: &P, units: &[&'static str]) -> Result<(), String> {
    let compact = write(p, rng, None);
    ensure!(!compact.contains('\n') && !compact.contains('\r'), "compact output has a line break: {}", show(&compact));
    let ct = toks(&compact);
    let want = lines(&ct);
    let all = rng.chance(1, 20);
    let one = *rng.pick(units);
    for unit in units.iter().copied() {
        if !all && unit != one {
            continue;
        }
        cx.evals += 1;
        let text = write(p, rng, Some(unit));
        cx.distinct_str(&text);
        cx.sample(|| format!("unit {:?}: {} -> {}", unit, show(&compact), show(&text)));
        let it = toks(&text);
        if it != ct {
            let i = it.iter().zip(&ct).position(|(a, b)| a != b).unwrap_or(it.len().min(ct.len()));
            return Err(format!(
                "tokens differ from compact output at token {} ({:?} against {:?}), unit {:?}\n  compact: {}\n  indented: {}",
                i,
                it.get(i),
                ct.get(i),
                unit,
                show(&compact),
                show(&text)
            ));
        }
        let got: Vec<&str> = text.split('\n').collect();
        ensure!(got.len() == want.len(), "{} lines instead of {} with unit {:?}: {}", got.len(), want.len(), unit, show(&text));
        for (n, (g, w)) in got.iter().zip(&want).enumerate() {
            cx.count("lines", 1);
            let ind = unit.repeat(w.depth);
            let rest = g.strip_prefix(ind.as_str()).unwrap_or("\u{1}");
            ensure!(
                !rest.starts_with([' ', '\t', '\r', '\u{1}']),
                "line {} ({:?}) is not indented by {} units {:?}: {}",
                n,
                g,
                w.depth,
                unit,
                show(&text)
            );
            let gt = toks(rest);
            ensure!(gt == w.toks, "line {} has {:?} instead of {:?}: {}", n, gt, w.toks, show(&text));
        }
    }
    Ok(())
}

fn programs(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let o = Opts { max_nodes: *rng.pick(&[1, 5, 20, 80]), max_depth: *rng.pick(&[1, 3, 8, 20]) };
    let p = program(rng, &o);
    check(rng, cx, &p)
}

fn deep_programs(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let n = *rng.pick(&mine::pools().sizes).min(&400);
    let p = deep(rng, n);
    cx.max("depth", n as u64);
    check(rng, cx, &p)
}

/// One large dimension.
fn sizes(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    run::on_stack(1 << 30, || {
        let very = idx % 1024 == 63; // (takes seconds: indentation is quadratic in depth)
        let p = if very { deep(rng, 65_540) } else { big(rng, 1 << 17, 1 << 10) };
        cx.count("large", 1);
        if very {
            // The empty unit keeps the output small
            units(rng, cx, &p, &[""])
        } else {
            units(rng, cx, &p, &["", " ", "\t"])
        }
    })?
}

fn main() {
    run::main(Check {
        id: "C18",
        level: "exploration",
        rule: "random serializer call programs under compact and seven indentation units; also with one large dimension; a case is distinct by indented text",
        assumptions: &["whitespace inside a line (after colons, before closing braces) is left open"],
        phases: vec![
            Phase { name: "programs", quick: 2500000, thorough: 0, f: programs },
            Phase { name: "deep", quick: 1500, thorough: 20000, f: deep_programs },
            Phase { name: "sizes", quick: 600, thorough: 0, f: sizes },
        ],
        floors: &[("lines", 3000), ("distinct_nontrivial", 1000)],
        hang_cpu_s: 120,
    });
}
