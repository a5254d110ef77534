//! File level behaviour: includes, dependencies, expanded patches.
use crate::engine::*;
use crate::files::*;
use crate::patchx::*;
use crate::spaces::q;
use crate::spaces2::{product, words};
use crate::svd::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeSet;
use yaml_rust::{Yaml, YamlLoader};

pub fn small_svd() -> String {
    let f = fld("F", 0, 2, "") + &fld("G", 2, 2, &evs("", "", &[("X", 0)]));
    dev(&(per("P", 0, &int("I", 1, "i"), &(reg("A", 0).desc("a").fields(&f).x() + &reg("B", 4).desc("b").fields(&f).x() + &reg("C", 8).fields(&f).x()))
        + &per("Q", 0x100, "", &(reg("A", 0).fields(&f).x() + &reg("B", 4).x()))
        + &per_from("S", "P", 0x200, "")))
}

// ------------------------------------------------------------------ C18 includes
pub fn h_incl(c: &Case) -> Outcome {
    let d = fresh();
    let files = &c.input["files"];
    write_tree(&d, files);
    let root = c.input["root"].as_str().unwrap_or("main.yaml");
    let want = oracle(&c.input, || Includes { files, read: Default::default() }.load(root)).map(|y| without_paths(&y));
    let mut o = Outcome { transitions: 1, ..Default::default() };
    let r = cli(&d, &["expand-patch", root]);
    match (&want, r.ok()) {
        (Err(_), false) => o.class = "rejected".into(),
        (Err(e), true) => return Outcome::fail(format!("accepted includes that must be rejected ({e})\n{files}")),
        (Ok(_), false) => return Outcome::fail(format!("rejected valid includes: {}\n{files}", r.err)),
        (Ok(w), true) => {
            let got = match YamlLoader::load_from_str(&r.out).map(|v| v.into_iter().next()) {
                Ok(Some(g)) => without_paths(&g),
                e => return Outcome::fail(format!("output is not YAML: {e:?}\n{}\n{files}", r.out)),
            };
            if !same_yaml(&got, w) {
                return Outcome::fail(format!("merged documents differ\n expected {w:?}\n actual   {got:?}\n{files}"));
            }
            o.class = "merged".into();
            o.nontrivial = true;
            o.states.push(fnv(r.out.as_bytes()));
        }
    }
    if let Some(svd) = c.input["svd"].as_str() {
        std::fs::write(d.join("in.svd"), svd).unwrap();
        let r = cli(&d, &["patch", root, "out.svd"]);
        o.transitions += 1;
        let model = want.and_then(|w| oracle(&c.input, || model_patch(svd, &w, &Default::default())));
        match (model, r.ok()) {
            (Err(_), false) => o.class = "rejected".into(),
            (Err(e), true) => return Outcome::fail(format!("accepted a patch that must be rejected ({e})\n{files}")),
            (Ok(_), false) => return Outcome::fail(format!("rejected a valid patch: {}\n{files}", r.err)),
            (Ok((_, w)), true) => {
                let got = std::fs::read_to_string(d.join("out.svd")).unwrap_or_default();
                if !same_device(&w, &got) {
                    return Outcome::fail(format!("{files}\n{}", first_diff(&w, &got)));
                }
                o.class = "patched".into();
                o.states.push(fnv(got.as_bytes()));
            }
        }
    }
    o
}
/// equal up to the order of keys
pub fn same_yaml(a: &Yaml, b: &Yaml) -> bool {
    match (a, b) {
        (Yaml::Hash(a), Yaml::Hash(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| same_yaml(v, w))),
        (Yaml::Array(a), Yaml::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(v, w)| same_yaml(v, w)),
        (a, b) => a == b,
    }
}
fn files(v: &[(&str, String)]) -> Value {
    Value::Object(v.iter().map(|(n, t)| (n.to_string(), json!(t))).collect::<Map<_, _>>())
}
/// (include of main, of a, of b) and whether the value is inside a peripheral
fn topologies() -> Vec<[&'static str; 3]> {
    vec![
        ["_include: [a.yaml, b.yaml]", "", ""],
        ["_include: [b.yaml, a.yaml]", "", ""],
        ["_include: a.yaml", "_include: b.yaml", ""],
        ["_include: [a.yaml, b.yaml]", "_include: [b.yaml]", ""],
        ["_include: [b.yaml, a.yaml]", "_include: [b.yaml]", ""],
        ["_include: [a.yaml, a.yaml]", "", ""],
        ["_include: []", "", ""],
        ["_include: [a.yaml, ./b.yaml, ././a.yaml]", "_include: [./b.yaml]", ""],
    ]
}
fn join(parts: &[&str]) -> String {
    let s: Vec<&str> = parts.iter().copied().filter(|s| !s.is_empty()).collect();
    if s.is_empty() {
        return "{}\n".into();
    }
    s.join("\n") + "\n"
}
pub fn structural() -> Vec<Value> {
    let mut v: Vec<Value> = vec![];
    let mut put = |f: &[(&str, &str)]| {
        v.push(Value::Object(
            f.iter()
                .map(|(n, t)| {
                    (n.to_string(), if let Some(l) = t.strip_prefix("LINK ") { json!({"link": l}) } else if *t == "DIR" { json!({"dir": true}) } else { json!(t) })
                })
                .collect(),
        ))
    };
    let a = ("a.yaml", "K: [1, 2]\nP: {_delete: X}\n");
    // forms of the include list
    for inc in ["a.yaml", "[a.yaml]", "['a.yaml']", "[]", "5", "{a.yaml: }", "[5]", "~", "[[a.yaml]]", "''", "nope.yaml", "[nope.yaml]", "[a.yaml, nope.yaml]", "./a.yaml", "sub/../a.yaml", "[a.yaml, sub/../a.yaml]", "true"] {
        put(&[("main.yaml", &format!("_include: {inc}\nZ: 1\n")), a, ("sub", "DIR")]);
        put(&[("main.yaml", &format!("P: {{_include: {inc}, _add: {{}}}}\nZ: 1\n")), a, ("sub", "DIR")]);
        put(&[("main.yaml", "_include: a.yaml\nZ: 1\n"), ("a.yaml", &format!("_include: {inc}\nK: 1\n")), ("sub", "DIR")]);
    }
    // kinds of included files
    for t in ["", "# only a comment\n", "---\n", "K: 1\n---\nK: 2\nL: 3\n", "[1, 2]\n", "text\n", "5\n", "{: bad", "K: [1\n", "K: 1\nK: 2\n", "? [a]\n: 1\n", "1: 2\n", "_path: xyz\nK: 1\n", "_include: []\n", "K: &x [1]\nL: *x\n", "K: 'a: b'\n", "\t", "K: |\n  two\n  lines\n"] {
        put(&[("main.yaml", "_include: [a.yaml, b.yaml]\nZ: 1\n"), ("a.yaml", t), ("b.yaml", "K: 9\nM: 1\n")]);
        put(&[("main.yaml", "P: {_include: [a.yaml, b.yaml]}\nZ: 1\n"), ("a.yaml", t), ("b.yaml", "K: 9\nM: 1\n")]);
        put(&[("main.yaml", t)]);
    }
    // keys of the including file
    for t in ["1: {_include: a.yaml}\n_include: a.yaml\n", "_x: {_include: a.yaml}\n", "P: {R: {_include: a.yaml}}\n", "P: {_include: a.yaml, R: {_include: a.yaml}}\n", "P: {_include: a.yaml}\nQ: {_include: a.yaml}\n", "P: {_include: a.yaml}\n_include: a.yaml\n", "P: [{_include: a.yaml}]\n", "P: {_include: [a.yaml]}\n_include: [a.yaml, b.yaml]\n", "P: {_include: [b.yaml]}\n_include: [a.yaml, b.yaml]\n", "'P*': {_include: a.yaml}\n'?~Q': {_include: b.yaml}\n"] {
        put(&[("main.yaml", t), a, ("b.yaml", "P: {_modify: {A: {size: 8}}, _delete: [Y]}\n_delete: [q]\n")]);
    }
    // directories: names are relative to the including file
    put(&[("main.yaml", "_include: sub/a.yaml\n"), ("sub/a.yaml", "_include: b.yaml\nA: 1\n"), ("sub/b.yaml", "B: sub\n"), ("b.yaml", "B: top\n")]);
    put(&[("main.yaml", "_include: sub/a.yaml\n"), ("sub/a.yaml", "_include: ../b.yaml\nA: 1\n"), ("sub/b.yaml", "B: sub\n"), ("b.yaml", "B: top\n")]);
    put(&[("main.yaml", "_include: [sub/a.yaml, b.yaml]\n"), ("sub/a.yaml", "_include: ../b.yaml\nA: 1\n"), ("b.yaml", "B: [top]\n")]);
    put(&[("main.yaml", "_include: [b.yaml, sub/a.yaml]\n"), ("sub/a.yaml", "_include: ../b.yaml\nA: 1\n"), ("b.yaml", "B: [top]\n")]);
    put(&[("main.yaml", "P: {_include: sub/a.yaml}\n"), ("sub/a.yaml", "_include: b.yaml\nA: 1\n"), ("sub/b.yaml", "B: sub\n")]);
    put(&[("main.yaml", "_include: sub/a.yaml\n"), ("sub/a.yaml", "P: {_include: b.yaml}\nA: 1\n"), ("sub/b.yaml", "B: sub\n"), ("b.yaml", "B: top\n")]);
    put(&[("main.yaml", "P: {_include: sub/a.yaml}\n"), ("sub/a.yaml", "R: {_include: b.yaml}\nA: 1\n"), ("sub/b.yaml", "B: sub\n"), ("b.yaml", "B: top\n")]);
    put(&[("main.yaml", "_include: s1/a.yaml\n"), ("s1/a.yaml", "_include: s2/b.yaml\nA: 1\n"), ("s1/s2/b.yaml", "_include: ../../c.yaml\nB: 1\n"), ("c.yaml", "C: 1\n")]);
    // links denote the same file
    put(&[("main.yaml", "_include: [a.yaml, l.yaml]\n"), ("a.yaml", "K: [1]\n"), ("l.yaml", "LINK a.yaml")]);
    put(&[("main.yaml", "_include: [l.yaml]\n"), ("sub/a.yaml", "K: [1]\n_include: b.yaml\n"), ("sub/b.yaml", "L: sub\n"), ("l.yaml", "LINK sub/a.yaml")]);
    put(&[("main.yaml", "_include: dangling.yaml\n"), ("dangling.yaml", "LINK nowhere.yaml")]);
    put(&[("main.yaml", "_include: dir.yaml\n"), ("dir.yaml", "DIR")]);
    // files whose paths are parts of each other's
    let names = ["a.yaml", "a.yaml2", "aa.yaml", "a", "A.yaml", "s/a.yaml", "s/t/a.yaml", "s/aa.yaml", "t/a.yaml"];
    let text = |n: &str| format!("K_{}: 1\nL: [{n}]\nP: {{_delete: [{n}]}}\n", n.replace('/', "_"));
    let up = |from: &str, to: &str| format!("{}{to}", "../".repeat(from.matches('/').count()));
    for (i, x) in names.iter().enumerate() {
        for (j, y) in names.iter().enumerate() {
            if i == j {
                continue;
            }
            put(&[("main.yaml", &format!("_include: [{x}, {y}]\nZ: 1\n")), (x, &text(x)), (y, &text(y))]);
            put(&[("main.yaml", &format!("_include: {x}\nZ: 1\n")), (x, &format!("_include: {}\n{}", up(x, y), text(x))), (y, &text(y))]);
            put(&[("main.yaml", &format!("P: {{_include: {x}}}\n_include: {y}\nZ: 1\n")), (x, &text(x)), (y, &text(y))]);
            put(&[("main.yaml", &format!("P: {{_include: {x}}}\nQ: {{_include: [{y}, {x}]}}\nZ: 1\n")), (x, &text(x)), (y, &text(y))]);
            for (k, z) in names.iter().enumerate() {
                if k != i && k != j {
                    put(&[("main.yaml", &format!("_include: [{x}, {y}, {z}]\nZ: 1\n")), (x, &text(x)), (y, &text(y)), (z, &text(z))]);
                }
            }
        }
    }
    // circles
    for (m, x, y) in [
        ("main.yaml", "", ""), ("a.yaml", "main.yaml", ""), ("a.yaml", "a.yaml", ""), ("a.yaml", "b.yaml", "a.yaml"), ("a.yaml", "b.yaml", "main.yaml"), ("a.yaml", "b.yaml", "b.yaml"), ("a.yaml", "b.yaml", ""),
    ] {
        let inc = |n: &str, k: &str| if n.is_empty() { format!("{k}: [{k}]\n") } else { format!("_include: [{n}]\n{k}: [{k}]\n") };
        let pinc = |n: &str, k: &str| if n.is_empty() { format!("{k}: [{k}]\n") } else { format!("P: {{_include: [{n}]}}\n{k}: [{k}]\n") };
        put(&[("main.yaml", &inc(m, "M")), ("a.yaml", &inc(x, "A")), ("b.yaml", &inc(y, "B"))]);
        put(&[("main.yaml", &pinc(m, "M")), ("a.yaml", &inc(x, "A")), ("b.yaml", &inc(y, "B"))]);
        put(&[("main.yaml", &inc(m, "M")), ("a.yaml", &pinc(x, "A")), ("b.yaml", &inc(y, "B"))]);
        put(&[("main.yaml", &inc(m, "M")), ("a.yaml", &inc(x, "A")), ("b.yaml", &pinc(y, "B"))]);
    }
    v
}
pub fn includes(ctx: &Ctx) {
    let mut cases: Vec<Value> = structural().into_iter().map(|f| json!({ "files": f })).collect();
    ctx.note("structural", cases.len());
    let vals = ["", "A", "B", "[A]", "[A, B]", "[B, C]", "{x: A}", "{x: [B], y: 1}", "5", "{}"];
    let vals = &vals[..ctx.tier(9, 10)];
    let top = |v: &str| if v.is_empty() { String::new() } else { format!("K: {v}") };
    let inner = |v: &str, inc: &str| match (v.is_empty(), inc.is_empty()) {
        (true, true) => String::new(),
        (false, true) => format!("P: {{K: {v}}}"),
        (true, false) => format!("P: {{{inc}}}"),
        (false, false) => format!("P: {{K: {v}, {inc}}}"),
    };
    for i in product(&[vals.len(), vals.len(), vals.len()]) {
        let [m, a, b] = [vals[i[0]], vals[i[1]], vals[i[2]]];
        for (n, t) in topologies().iter().enumerate() {
            if !ctx.thorough && n >= 5 && i[2] > 2 {
                continue;
            }
            cases.push(json!({"files": files(&[("main.yaml", join(&[t[0], &top(m)])), ("a.yaml", join(&[&top(a), t[1]])), ("b.yaml", join(&[&top(b), t[2]]))])}));
            if n < 3 {
                cases.push(json!({"files": files(&[("main.yaml", join(&[&inner(m, ""), t[0]])), ("a.yaml", join(&[t[1], &inner(a, "")])), ("b.yaml", join(&[t[2], &inner(b, "")]))])}));
            }
        }
        // inside a peripheral
        for (im, ia) in [("_include: [a.yaml, b.yaml]", ""), ("_include: a.yaml", "_include: b.yaml")] {
            cases.push(json!({"files": files(&[("main.yaml", join(&[&inner(m, im)])), ("a.yaml", join(&[ia, &top(a)])), ("b.yaml", join(&[&top(b)]))])}));
        }
        cases.push(json!({"files": files(&[("main.yaml", join(&["_include: a.yaml", &inner(m, "")])), ("a.yaml", join(&[&inner(a, "_include: b.yaml")])), ("b.yaml", join(&[&top(b)]))])}));
    }
    // the merged rules are the ones applied
    let svd = small_svd();
    let rules = [
        "", "_delete: Q", "_delete: [S]", "_modify: {description: m1}", "_modify: {description: m2, P: {baseAddress: 0x800}}", "P: {_delete: A}", "P: {_delete: [A, B]}", "P: {A: {F: {V: [0, v]}}}", "P: {A: {F: {W: [1, w]}}, _modify: {B: {size: 8}}}",
        "P: {A: {F: [0, 1]}}", "P: {A: {F: [0, 2]}}", "P: {A: {F: ['0x1', '3']}}", "P: {A: {F: {V: [1, v1], W: [0, w0]}}}", "'*': {'?~A': {_delete: F}}", "P: {_add: {N: {addressOffset: 0x20}}}", "Q: {A: {G: {_replace_enum: {Z: [1, z]}}}}", "NOPE: {}", "_add: {T: {baseAddress: 0x900}}", "_copy: {T: {from: P}}",
    ];
    for i in product(&[rules.len(), rules.len(), ctx.tier(4, rules.len())]) {
        for t in &topologies()[..ctx.tier(3, 5)] {
            cases.push(json!({"svd": svd, "files": files(&[("main.yaml", join(&["_svd: in.svd", t[0], rules[i[0]]])), ("a.yaml", join(&[t[1], rules[i[1]]])), ("b.yaml", join(&[t[2], rules[i[2]]]))])}));
        }
    }
    for (m, a) in [("P: {_include: a.yaml, _modify: {A: {size: 16}}}", "_modify: {A: {size: 8, description: z}}\n_delete: B"), ("P: {_include: [a.yaml]}\nQ: {_include: [a.yaml]}", "A: {F: {V: [0, v]}}"), ("'[PQ]': {_include: a.yaml}", "A: {F: {V: [0, v]}}\n_delete: B")] {
        cases.push(json!({"svd": svd, "files": files(&[("main.yaml", join(&["_svd: in.svd", m])), ("a.yaml", a.to_string())])}));
    }
    // every kind of key over an include
    for key in ["P_A", "P_", "'?~_P'", "_P", "'*_'", "_registers", "_x", "''", "'?~P_A'", "'[_]P'", "5", "P-1", "' P'", "'_'", "'*'", "~"] {
        for a in ["A: 1\n", "_delete: X\n", "_include: b.yaml\nB: {C: 1}\n", "P_Q: {_include: b.yaml}\n", "_add: {_include: b.yaml}\n"] {
            for m in ["_include: a.yaml", "_include: [a.yaml]", "_include: [a.yaml, b.yaml], K: 2"] {
                cases.push(json!({"files": files(&[("main.yaml", format!("{key}: {{{m}}}\n")), ("a.yaml", a.to_string()), ("b.yaml", "Z: 9\n".to_string())])}));
                cases.push(json!({"files": files(&[("main.yaml", format!("_include: c.yaml\n{key}: {{K: [1]}}\n")), ("c.yaml", format!("{key}: {{{m}}}\n")), ("a.yaml", a.to_string()), ("b.yaml", "Z: 9\n".to_string())])}));
            }
        }
    }
    ctx.run(cases.into_iter().map(|c| Case::new("incl", c)));
}

// ------------------------------------------------------------------ C19 dependencies
pub fn h_deps(c: &Case) -> Outcome {
    let d = fresh();
    let files = &c.input["files"];
    write_tree(&d, files);
    let root = c.input["root"].as_str().unwrap_or("main.yaml");
    let target = c.input["target"].as_str().unwrap_or("x.d");
    let mut inc = Includes { files, read: Default::default() };
    let want = oracle(&c.input, || inc.load(root));
    if let Some(old) = c.input["old"].as_str() {
        std::fs::write(d.join(target), old).unwrap();
    }
    let before = snapshot(&d);
    let r = cli(&d, &["makedeps", root, target]);
    let mut o = Outcome { transitions: 1, ..Default::default() };
    let mut after = snapshot(&d);
    match (want, r.ok()) {
        (Err(_), false) => {
            if before != after {
                return Outcome::fail(format!("failed but changed files\n{files}"));
            }
            o.class = "rejected".into();
        }
        (Err(e), true) => return Outcome::fail(format!("accepted includes that must be rejected ({e})\n{files}")),
        (Ok(_), false) => return Outcome::fail(format!("rejected valid includes: {}\n{files}", r.err)),
        (Ok(_), true) => {
            let text = String::from_utf8_lossy(&after.remove(target).unwrap_or_default()).to_string();
            let mut before = before;
            before.remove(target);
            if before != after {
                return Outcome::fail(format!("changed other files\n{files}"));
            }
            let Some((t, deps)) = text.split_once(':') else { return Outcome::fail(format!("no rule: {text}")) };
            let base = d.canonicalize().unwrap();
            let got: BTreeSet<String> = deps.split_whitespace().map(|s| s.to_string()).collect();
            let want: BTreeSet<String> = inc.read.iter().map(|s| base.join(s).to_string_lossy().to_string()).collect();
            if t != target || got != want || !text.ends_with('\n') || text.matches('\n').count() != 1 {
                return Outcome::fail(format!("{files}\n expected {target}: {want:?}\n actual {text}"));
            }
            o.class = format!("{} dependencies", want.len());
            o.nontrivial = !want.is_empty();
            o.states.push(fnv(text.replace(&*base.to_string_lossy(), "").as_bytes()));
        }
    }
    o
}
pub fn deps(ctx: &Ctx) {
    let mut cases = vec![];
    for f in structural() {
        cases.push(json!({"files": f}));
        cases.push(json!({"files": f, "old": "old: content that is longer than the new one will ever be, so that leftovers are noticed if the file is not cut off at its new end. old: content that is longer than the new one will ever be\n", "target": "deps.mk"}));
    }
    for key in ["P_A", "P_", "'?~_P'", "_P", "'*_'", "_registers", "''", "5", "'*'", "~", "'_'", "_include_"] {
        for m in ["_include: a.yaml", "_include: [a.yaml, b.yaml]", "K: {_include: a.yaml}", "_include: {a.yaml: }", "_include: [a.yaml, 5]", "_include: 5", "_include: [[a.yaml]]"] {
            cases.push(json!({"files": {"main.yaml": format!("{key}: {{{m}}}\n"), "a.yaml": "Q_R: {_include: b.yaml}\n_S: {_include: c.yaml}\n", "b.yaml": "Z: 9\n", "c.yaml": "Y: 1\n"}}));
        }
    }
    // every include graph on main and n files (edges to larger and smaller numbers), at top or peripheral level
    let n = ctx.tier(3, 4);
    let names = ["main", "a", "b", "c", "d"];
    let nodes = &names[..n];
    let edges: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|(i, j)| *j > 0 || *i == n - 1).collect();
    let total: u64 = 1 << edges.len();
    let step = if ctx.thorough { 1 } else { 1 };
    for bits in (0..total).step_by(step) {
        for lvl in 0..3usize {
            let mut f = Map::new();
            for (i, nm) in nodes.iter().enumerate() {
                let mut out: Vec<String> = edges.iter().enumerate().filter(|(e, (a, _))| bits >> e & 1 == 1 && *a == i).map(|(_, (_, b))| format!("{}.yaml", nodes[*b])).collect();
                if lvl == 2 {
                    out.reverse();
                }
                let list = out.join(", ");
                let t = if out.is_empty() {
                    format!("K{nm}: 1\n")
                } else if lvl == 1 && i % 2 == 0 {
                    format!("P: {{_include: [{list}]}}\n")
                } else {
                    format!("_include: [{list}]\nK{nm}: 1\n")
                };
                f.insert(format!("{nm}.yaml"), json!(t));
            }
            cases.push(json!({ "files": f }));
        }
    }
    ctx.note("include_graphs", total);
    for (t, root) in [("out/x.d", "main.yaml"), ("./x.d", "main.yaml"), ("x.d", "./main.yaml"), ("x.d", "sub/main.yaml"), ("sub/x.d", "sub/main.yaml"), ("nodir/x.d", "main.yaml")] {
        if t == "nodir/x.d" {
            continue;
        }
        cases.push(json!({"target": t.trim_start_matches("./"), "root": root.trim_start_matches("./"), "files": {"out": {"dir": true}, "main.yaml": "_include: sub/a.yaml\n", "sub/main.yaml": "_include: [a.yaml, ../main.yaml]\n", "sub/a.yaml": "K: 1\n"}}));
    }
    // a document reached by a link: names are relative to where the link is
    for (link, to, inc) in [("l.yaml", "sub/main.yaml", "a.yaml"), ("l.yaml", "sub/main.yaml", "../a.yaml"), ("l.yaml", "sub/main.yaml", "sub/a.yaml"), ("sub/l.yaml", "../main.yaml", "a.yaml"), ("sub/l.yaml", "../main.yaml", "../a.yaml"), ("l.yaml", "main.yaml", "a.yaml")] {
        let real = if to.starts_with("../") { "main.yaml" } else { to };
        let t = format!("_include: [{inc}]\nZ: 1\n");
        cases.push(json!({"root": link, "files": {link: {"link": to}, real: t, "sub/a.yaml": "K: 1\n_include: b.yaml\n", "sub/b.yaml": "L: 1\n", "a.yaml": "K: 2\n"}}));
    }
    // only the first document of a file counts
    for t in ["K: 1\n---\n_include: a.yaml\n", "_include: a.yaml\n---\n_include: b.yaml\n", "---\n_include: a.yaml\n---\n5\n", "---\n---\n_include: a.yaml\n"] {
        cases.push(json!({"files": {"main.yaml": t, "a.yaml": "K: 1\n", "b.yaml": "L: 1\n"}}));
        cases.push(json!({"files": {"main.yaml": "_include: c.yaml\n", "c.yaml": t, "a.yaml": "K: 1\n", "b.yaml": "L: 1\n"}}));
    }
    ctx.run(cases.into_iter().map(|c| Case::new("deps", c)));
}

// ------------------------------------------------------------------ C37 expanded patches
pub fn h_expanded(c: &Case) -> Outcome {
    let d = fresh();
    write_tree(&d, &c.input["files"]);
    let mut o = Outcome { transitions: 3, ..Default::default() };
    let direct = cli(&d, &["patch", "main.yaml", "direct.svd"]);
    if fnv(c.input.to_string().as_bytes()) % 2 == 0 {
        let _ = std::fs::write(d.join("expanded.yaml"), "left: over\n".repeat(5000));
        let _ = std::fs::write(d.join("again.svd"), "left over\n".repeat(50000));
    }
    let ex = cli(&d, &["expand-patch", "main.yaml", "expanded.yaml"]);
    let st = cli(&d, &["expand-patch", "main.yaml"]);
    let what = &c.input["files"];
    if ex.ok() != st.ok() {
        return Outcome::fail(format!("expanding to a file and to standard output differ in success\n{what}"));
    }
    if !ex.ok() {
        if direct.ok() {
            return Outcome::fail(format!("a patch that works cannot be expanded: {}\n{what}", ex.err));
        }
        o.class = "cannot be loaded".into();
        return o;
    }
    let text = std::fs::read_to_string(d.join("expanded.yaml")).unwrap();
    if st.out.trim_end() != text.trim_end() {
        return Outcome::fail(format!("standard output is not the expanded patch\n{}\n---\n{text}", st.out));
    }
    let again = cli(&d, &["patch", "expanded.yaml", "again.svd"]);
    if direct.ok() != again.ok() {
        return Outcome::fail(format!("patch success {} but expanded patch success {}\n{what}\n{text}\n{}{}", direct.ok(), again.ok(), direct.err, again.err));
    }
    o.class = if direct.ok() { "same result" } else { "both rejected" }.into();
    o.nontrivial = direct.ok();
    if direct.ok() {
        let a = std::fs::read_to_string(d.join("direct.svd")).unwrap();
        let b = std::fs::read_to_string(d.join("again.svd")).unwrap();
        if a != b {
            return Outcome::fail(format!("{what}\n{}", first_diff(&a, &b)));
        }
        o.states.push(fnv(a.as_bytes()));
    }
    let ex2 = cli(&d, &["expand-patch", "expanded.yaml", "expanded2.yaml"]);
    o.transitions += 2;
    let text2 = std::fs::read_to_string(d.join("expanded2.yaml")).unwrap_or_default();
    let l = |t: &str| YamlLoader::load_from_str(t).ok().and_then(|v| v.into_iter().next()).map(|y| without_paths(&y));
    if !ex2.ok() || l(&text) != l(&text2) {
        return Outcome::fail(format!("expanding twice differs from once\n{what}\n{text}\n{text2}"));
    }
    o
}
pub fn expanded(ctx: &Ctx) {
    let svd = small_svd();
    let mut mains = vec![];
    let toks = ["x", "0", "0x1", " ", ":", "#", "-", "'", "\"", "~", "true", "no", "\n", "\\", "\t", "*", "[", "{", "é", "%", "&", "!", "|", ">", "@", "`", ",", "?", "1.5", "_", "1e3", "null", "\u{1}", "=", "<"];
    for w in words(&toks, 2) {
        if w.contains('\u{1}') {
            continue;
        }
        let s = dq(&w);
        mains.push(format!("P: {{_modify: {{A: {{description: {s}}}}}}}"));
        if ctx.thorough || w.len() < 4 {
            mains.push(format!("_modify: {{vendor: {s}, P: {{description: {s}}}}}"));
            mains.push(format!("P: {{A: {{F: {{V: [1, {s}]}}}}}}"));
        }
    }
    for s in ["0x10", "'0x10'", "16", "'16'", "0b101", "'0b101'", "'#101'", "1_6", "'1_6'", "0o17", "+5", "'+5'", "-1", "'-1'", "1.0", "'1.0'", "true", "'true'", "~", "''", "0x7fffffffffffffff", "0xffffffffffffffff", "010", "'010'"] {
        mains.push(format!("P: {{_modify: {{A: {{resetValue: {s}}}}}}}"));
        mains.push(format!("P: {{A: {{F: {{V: [{s}, d]}}}}}}"));
        mains.push(format!("P: {{A: {{F: [0, {s}]}}}}"));
        mains.push(format!("_modify: {{P: {{baseAddress: {s}}}}}"));
        mains.push(format!("P: {{_modify: {{A: {{description: {s}}}}}}}"));
        mains.push(format!("P: {{A: {{{s}: [0, 1]}}}}"));
        mains.push(format!("P: {{_delete: {s}}}"));
        mains.push(format!("P: {{_delete: [{s}]}}"));
    }
    for s in ["A", "A*", "?~A", "?~NOPE", "A,B", "{A,B}", "[AB]", "'*'", "?", "NOPE"] {
        for r in ["P: {S: {_delete: F}}", "P: {_delete: [S]}", "P: {_modify: {S: {description: x}}}", "_delete: S", "P: {S: {F: {_W1C: {V: [0, d]}}}}", "P: {S: {F: {_read: {V: [0, d]}, _write: {W: [1, d]}}}}"] {
            mains.push(r.replace('S', &q(s.trim_matches('\''))));
        }
    }
    let more = [
        "_copy: {T: {from: P}}", "_copy: {T: {from: 'other.svd:P'}}", "_copy: {T: {from: './other.svd:Q'}}", "_copy: {T: {from: 'nope.svd:Q'}}", "_derive: {Q: P}", "_rebase: {S: P}", "_add: {T: {baseAddress: 0x900, registers: {R: {addressOffset: 0, fields: {X: {bitOffset: 0, bitWidth: 1}}}}, interrupts: {J: {value: 5}}, addressBlocks: [{offset: 0, size: 4, usage: registers}]}}",
        "P: {_array: {'[AB]': {name: 'AB%s'}}}", "P: {_cluster: {'C%s': {'[AB]': {name: R}}}}", "P: {A: {_merge: [F, G]}}", "P: {A: {_split: {F: {name: 'S%s'}}}}", "P: {_strip: A}", "P: {_prefix: Z_}", "_clear_fields: '*'", "P: {A: {F: {V: [0, ]}}}", "P: ~", "P: 5", "P: []", "5: {}", "~: {}", "[P]: {}",
        "P: &x {_delete: A}\nQ: *x", "_modify: {cpu: {name: CM4, revision: r, endian: little, mpuPresent: 1, fpuPresent: 'false', nvicPrioBits: '0x3', vendorSystickConfig: True}}", "P: {A: {_modify: {F: {bitRange: '[3:2]'}}}}", "P: {A: {_modify: {F: {bitOffset: '0x2', bitWidth: 2}}}}",
    ];
    mains.extend(more.iter().map(|s| s.to_string()));
    let mut cases = vec![];
    for m in &mains {
        cases.push(json!({"files": {"main.yaml": format!("_svd: in.svd\n{m}\n"), "in.svd": svd, "other.svd": svd}}));
    }
    // the same rules reached through includes, in the same and in another directory
    let step = ctx.tier(7, 1);
    for m in mains.iter().step_by(step).chain(mains.iter().rev().take(more.len())) {
        cases.push(json!({"files": {"main.yaml": "_svd: in.svd\n_include: sub/a.yaml\nP: {_modify: {C: {size: 8}}}\n", "sub/a.yaml": format!("{m}\n"), "in.svd": svd, "other.svd": svd}}));
        cases.push(json!({"files": {"main.yaml": "_svd: in.svd\n_include: [a.yaml, b.yaml]\n", "a.yaml": format!("{m}\n"), "b.yaml": format!("{m}\n"), "in.svd": svd, "other.svd": svd}}));
    }
    for f in structural() {
        let mut f = f.clone();
        let t = f["main.yaml"].as_str().unwrap().to_string();
        f["main.yaml"] = json!(format!("_svd: in.svd\n{t}"));
        f["in.svd"] = json!(svd);
        cases.push(json!({ "files": f }));
    }
    ctx.note("documents", cases.len());
    ctx.run(cases.into_iter().map(|c| Case::new("expanded", c)));
}
/// double quoted YAML scalar
pub fn dq(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c => o.push(c),
        }
    }
    o + "\""
}
