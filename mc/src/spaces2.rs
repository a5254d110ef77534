//! More rule alphabets: name specs, required selectors, arrays, clusters,
//! merging, stripping, enumerated values, constraints, phases, literals.
use crate::engine::*;
use crate::patchx::*;
use crate::spaces::{at, cfg0, q, v};
use crate::svd::*;
use serde_json::json;

/// all strings over `toks` of 1..=n tokens
pub fn words(toks: &[&str], n: usize) -> Vec<String> {
    let mut all: Vec<String> = vec![];
    let mut cur = vec![String::new()];
    for _ in 0..n {
        cur = cur.iter().flat_map(|w| toks.iter().map(move |t| format!("{w}{t}"))).collect();
        all.extend(cur.iter().cloned());
    }
    all.sort();
    all.dedup();
    all
}
pub fn perms<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut p in perms(&rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}
/// every pick of one element per dimension
pub fn product(dims: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for d in dims {
        out = out
            .into_iter()
            .flat_map(|p: Vec<usize>| {
                (0..*d).map(move |i| {
                    let mut p = p.clone();
                    p.push(i);
                    p
                })
            })
            .collect();
    }
    out
}

// ------------------------------------------------------------------ C01 name specs
pub fn names_svd() -> String {
    let names = ["A", "B", "a", "AA", "AB", "A1", "B2", "AB1"];
    let enumd = evs("", "", &[("X", 0)]);
    let z = reg("Z", 0x100).x();
    let mut s = String::new();
    let regs: String = names
        .iter()
        .enumerate()
        .map(|(i, n)| reg(n, 4 * i as u64).fields(&fld("F", 0, 1, &enumd)).x())
        .collect();
    let ints: String = names.iter().enumerate().map(|(i, n)| int(n, i as u32, "")).collect();
    s += &per("P", 0x1000, &ints, &regs);
    let cs: String = names.iter().enumerate().map(|(i, n)| clu("", n, 0x200 * i as u64, &z)).collect();
    s += &per("Q", 0x2000, "", &cs);
    let fs: String = names.iter().enumerate().map(|(i, n)| fld(n, 2 * i as u32, 2, &enumd)).collect();
    let fs2: String = names.iter().enumerate().map(|(i, n)| fld(n, 2 * i as u32, 2, "")).collect();
    s += &per("R", 0x3000, "", &(reg("R", 0).fields(&fs).x() + &reg("E", 4).fields(&fs2).x()));
    for (i, n) in names.iter().enumerate() {
        let i = i as u64;
        s += &per(n, 0x10000 + 0x100 * i, "", &(z.clone() + &reg("G", 0).fields(&fld("F", 0, 1, &enumd)).x()));
    }
    dev(&s)
}
pub fn specs(ctx: &Ctx) {
    let svd = names_svd();
    let toks = ["A", "B", "1", "*", "?", "[AB]", "[!A]", "[1-2]", ",", "{A,B}"];
    let ps = words(&toks, ctx.tier(3, 4));
    ctx.note("specs", ps.len());
    ctx.run(ps.iter().flat_map(|p| {
        let s = q(p);
        [
            format!("{{_delete: {s}}}"),
            format!("{{_delete: [{s}]}}"),
            format!("{{_modify: {{{s}: {{description: X}}}}}}"),
            format!("{{_modify: {{_peripherals: {{{s}: {{description: X}}}}}}}}"),
            format!("{{{s}: {{_modify: {{'Z': {{description: X}}}}}}}}"),
            format!("{{_clear_fields: {s}}}"),
            format!("{{P: {{_delete: {s}}}}}"),
            format!("{{P: {{_delete: {{_registers: [{s}]}}}}}}"),
            format!("{{P: {{_modify: {{{s}: {{description: X}}}}}}}}"),
            format!("{{P: {{{s}: {{_delete: F}}}}}}"),
            format!("{{P: {{_clear_fields: {s}}}}}"),
            format!("{{P: {{_delete: {{_interrupts: {s}}}}}}}"),
            format!("{{P: {{_modify: {{_interrupts: {{{s}: {{value: 99}}}}}}}}}}"),
            format!("{{Q: {{_delete: {s}}}}}"),
            format!("{{Q: {{_delete: {{_clusters: {s}}}}}}}"),
            format!("{{Q: {{_modify: {{{s}: {{description: X}}}}}}}}"),
            format!("{{Q: {{{s}: {{_delete: Z}}}}}}"),
            format!("{{Q: {{_clusters: {{{s}: {{_delete: Z}}}}}}}}"),
            format!("{{R: {{R: {{_delete: {s}}}}}}}"),
            format!("{{R: {{R: {{_modify: {{{s}: {{description: X}}}}}}}}}}"),
            format!("{{R: {{R: {{_clear: {s}}}}}}}"),
            format!("{{R: {{R: {{_merge: [{s}]}}}}}}"),
            format!("{{R: {{R: {{_merge: {{N: {s}}}}}}}}}"),
            format!("{{R: {{E: {{{s}: {{V: [0, d]}}}}}}}}"),
            format!("{{R: {{E: {{{s}: [0, 3]}}}}}}"),
            format!("{{R: {{E: {{_split: [{s}]}}}}}}"),
        ]
        .map(|d| case(&svd, &d, &cfg0()))
    }));
    // alternatives that may be empty, and names with a slash
    let svd = names_svd();
    let e = ["{,A}", "{A,}", "{A,B,}", "{,1,B}", "{,{A,B}}", "{A,{B,}}", "{,?}", "{,*}", "{,}"];
    let mut ps: Vec<String> = ["", "A", "B", "?", "*"].iter().flat_map(|a| e.iter().flat_map(move |e| ["", "A", "1", "B2", "*", "{B,}"].map(|b| format!("{a}{e}{b}")))).collect();
    // a space is a character like any other
    for (a, b) in [("A", "B"), ("AA", "A1"), ("*", "A"), ("A?", "B"), ("[AB]", "B*")] {
        ps.extend([format!(" {a}"), format!("{a} "), format!("{a}, {b}"), format!("{a} ,{b}"), format!(" {a},{b} "), format!("{{{a}, {b}}}"), format!("{{{a} ,{b}}}"), format!("{{ {a},{b} }}"), format!(" {{{a},{b}}}"), format!("{a} {b}")]);
    }
    ctx.note("specs_with_empty_alternatives", ps.len());
    ctx.run(ps.iter().flat_map(|p| {
        let s = q(p);
        ["{_delete: #}", "{_modify: {#: {description: X}}}", "{#: {_modify: {'Z': {description: X}}}}", "{P: {_delete: #}}", "{P: {_modify: {_interrupts: {#: {value: 99}}}}}", "{Q: {_clusters: {#: {_delete: Z}}}}", "{R: {R: {_delete: #}}}", "{R: {R: {_merge: [#]}}}", "{R: {E: {#: [0, 3]}}}", "{P: {_strip: [#]}}", "{P: {_strip_end: #}}"].map(|d| case(&svd, &d.replace('#', &s), &cfg0()))
    }));
    let slash = svd.replace("<name>AA<", "<name>A/B<").replace("<name>A1<", "<name>/<");
    ctx.run(["*", "A*", "?", "A?B", "A/B", "*/*", "A/*", "[!A]", "A[/]B", "A*B", "{A,/}", "A/B,AB", "A[+-1]B"].iter().flat_map(|p| {
        let s = q(p);
        ["{_delete: #}", "{P: {_delete: #}}", "{P: {_modify: {#: {description: X}}}}", "{P: {_modify: {_interrupts: {#: {value: 99}}}}}", "{Q: {_clusters: {#: {_delete: Z}}}}", "{R: {R: {_delete: #}}}"].map(|d| case(&slash, &d.replace('#', &s), &cfg0()))
    }));
    // escapes, and brackets and braces that do not pair up
    let ps = words(&["A", "B", "\\", "*", "?", "[", "]", "{", "}", ",", "!", "-"], ctx.tier(3, 4));
    ctx.note("specs_of_single_characters", ps.len());
    ctx.run(ps.iter().flat_map(|p| {
        let s = q(p);
        [
            format!("{{P: {{_delete: {s}}}}}"),
            format!("{{{s}: {{_modify: {{'Z': {{description: X}}}}}}}}"),
            format!("{{Q: {{{s}: {{_delete: Z}}}}}}"),
            format!("{{R: {{E: {{{s}: {{V: [0, d]}}}}}}}}"),
            format!("{{P: {{_array: {{{s}: {{}}}}}}}}"),
            format!("{{P: {{_cluster: {{CL: {{{s}: {{}}}}}}}}}}"),
        ]
        .map(|d| case(&svd, &d, &cfg0()))
    }));
}

// ------------------------------------------------------------------ C02 required selectors
pub fn required(ctx: &Ctx) {
    crate::spaces12::process(ctx);
    let svd = names_svd();
    let base = [
        "A", "NOPE", "?~A", "?~NOPE", "A*", "NOPE*", "?~A*", "?~NOPE*", "A,NOPE", "NOPE,NOPE2", "?~NOPE,A", "?~NOPE,NOPE2", "[AB]", "[XY]",
        "?~[XY]", "{A,B}", "{X,Y}", "?~{X,Y}", "?", "???????", "?~???????", "*", "?~*", "?~?~A", "?~", "Z", "?~Z", "P", "?~P", "Q", "R", "?~F", "F",
        "~NOPE", "?NOPE",
    ];
    let rules: &[&str] = &[
        "{S: {}}", "{S: {_modify: {'Z': {description: X}}}}", "{_modify: {S: {description: X}}}", "{_delete: S}", "{_clear_fields: S}",
        "{P: {S: {}}}", "{P: {S: {F: [0, 1]}}}", "{P: {_modify: {S: {description: X}}}}", "{P: {_modify: {_registers: {S: {description: X}}}}}",
        "{P: {_modify: {_clusters: {S: {description: X}}}}}", "{P: {_delete: S}}", "{P: {_delete: {_registers: S}}}", "{P: {_delete: {_clusters: S}}}",
        "{P: {_delete: {_interrupts: S}}}", "{P: {_modify: {_interrupts: {S: {value: 3}}}}}", "{P: {_clusters: {S: {}}}}", "{P: {_array: {S: {}}}}",
        "{P: {_array: {S: {name: 'N%s'}}}}", "{P: {_cluster: {'CL%s': {S: {}}}}}", "{P: {_cluster: {CL: {S: {}}}}}", "{P: {_cluster: {CL: {S: {}, 'B': {}}}}}",
        "{P: {_expand_array: {S: {}}}}", "{P: {_expand_cluster: S}}", "{P: {_expand_cluster: {S: {}}}}", "{P: {_clear_fields: S}}",
        "{P: {_derive: {S: Z}}}", "{P: {_derive: {S: B}}}", "{P: {_derive: {S: {_from: B, addressOffset: 0x80}}}}",
        "{Q: {S: {}}}", "{Q: {S: {_delete: Z}}}", "{Q: {_clusters: {S: {}}}}", "{Q: {_modify: {S: {description: X}}}}",
        "{Q: {_modify: {_clusters: {S: {description: X}}}}}", "{Q: {_modify: {_registers: {S: {description: X}}}}}", "{Q: {_delete: {_clusters: S}}}",
        "{Q: {_delete: {_clusters: [S, A]}}}", "{Q: {A: {S: {}}}}", "{Q: {A: {_clusters: {S: {}}}}}", "{Q: {A: {_modify: {S: {description: X}}}}}",
        "{Q: {A: {_array: {S: {}}}}}", "{Q: {_expand_cluster: [S]}}",
        "{R: {R: {_modify: {S: {description: X}}}}}", "{R: {R: {_delete: S}}}", "{R: {R: {_clear: S}}}", "{R: {R: {_merge: S}}}", "{R: {R: {_merge: [S]}}}",
        "{R: {R: {_merge: {N: S}}}}", "{R: {R: {_merge: {N: [S, B2]}}}}", "{R: {R: {_split: S}}}", "{R: {R: {_split: [S]}}}", "{R: {R: {_split: {S: {}}}}}",
        "{R: {R: {_array: {S: {}}}}}", "{R: {R: {S: [0, 3]}}}", "{R: {E: {S: {V: [0, d]}}}}", "{R: {R: {S: {_replace_enum: {V: [0, d]}}}}}",
        "{R: {E: {S: {_read: {V: [0, d]}}}}}", "{R: {E: {S: {_W1C: {V: [0, d]}}}}}", "{R: {E: {S: {_W1C: {}}}}}", "{R: {E: {S: {_RM: {}}}}}",
        "{R: {R: {S: {_RC: {}}}}}", "{R: {R: {S: {_read: {}}}}}", "{R: {R: {S: {_write: {}, _read: {V: [0, d]}}}}}", "{R: {R: {S: {_W0C: {}, _RME: {}}}}}", "{R: {R: {S: [0, 3, 1]}}}", "{R: {R: {S: {}}}}",
        "{R: {E: {B: {V: [0, d]}, S: {_derivedFrom: B}}}}", "{R: {E: {S: {_derivedFrom: NOPE}}}}", "{R: {R: {_derive: {S: B}}}}",
        "{R: {R: {_derive: {S: {_from: B, bitOffset: 30, bitWidth: 1}}}}}", "{R: {S: {R: [0, 1]}}}", "{R: {S: {_delete: A}}}",
        "{_copy: {S: {from: A}}}", "{_derive: {S: A}}", "{_rebase: {S: A}}", "{_rebase: {A: S}}", "{_copy: {N: {from: S}}}", "{_derive: {N: S}}",
        "{P: {_copy: {N: {_from: S}}}}", "{P: {_derive: {N: S}}}", "{P: {_derive: {N: {_from: S}}}}",
    ];
    let mut docs = vec![];
    for r in rules {
        for b in base {
            docs.push(r.replace('S', "\u{1}").replace("\u{1}", &q(b)));
        }
    }
    // a satisfied rule beside an unsatisfied one, in both orders and at every level
    for (ok, s) in [("A: {}", "P: {NOPE: {}}"), ("'?~NOPE': {}", "Q: {_clusters: {NOPE: {}}}"), ("A: {}", "NOPE: {}"), ("'?~NOPE': {}", "'?~NOPE2': {}"), ("P: {A: {F: [0, 1]}}", "R: {R: {NOPE: [0, 1]}}"), ("P: {A: {F: [0, 1]}}", "R: {R: {'?~NOPE': [0, 1]}}")] {
        docs.push(format!("{{{ok}, {s}}}"));
        docs.push(format!("{{{s}, {ok}}}"));
    }
    for b1 in base {
        for b2 in base {
            docs.push(format!("{{{}: {{{}: {{}}}}}}", q(b1), q(b2)));
            if b1 != b2 {
                docs.push(format!("{{P: {{{}: {{}}, {}: {{}}}}}}", q(b1), q(b2)));
                docs.push(format!("{{R: {{E: {{{}: [0, 3], {}: [1, 2]}}}}}}", q(b1), q(b2)));
                docs.push(format!("{{P: {{_modify: {{{}: {{description: X}}, {}: {{size: 8}}}}}}}}", q(b1), q(b2)));
                docs.push(format!("{{Q: {{_delete: {{_clusters: [{}, {}]}}}}}}", q(b1), q(b2)));
            }
        }
    }
    bfs(ctx, &[&svd], &docs, 1, &cfg0());
    // the same selectors on elements that have no children at all
    let bare = dev(&(per("P", 0, "", "") + &per("R", 0x100, "", &reg("R", 0).x()) + &per_from("Q", "P", 0x200, "") + &per("A", 0x300, "", &clu("", "A", 0, ""))));
    bfs(ctx, &[&bare], &docs, 1, &cfg0());
    if ctx.thorough {
        let some: Vec<String> = docs.iter().step_by(5).cloned().collect();
        bfs(ctx, &[&svd], &some, 2, &cfg0());
    }
}

// ------------------------------------------------------------------ C09 register and field arrays
fn arr_texts(kind: usize, i: usize, idx: &str) -> Option<String> {
    match kind {
        0 => None,
        1 => Some("same".into()),
        2 => Some(format!("chan {idx} of it")),
        3 => Some(format!("chan {idx} of {idx}")),
        4 => Some(if i == 1 { "odd one".into() } else { "same".into() }),
        5 => {
            if i == 0 {
                None
            } else {
                Some("same".into())
            }
        }
        6 => Some(format!("chan {}", i * 7)),
        _ => Some(format!("{idx}{idx} x{idx}")),
    }
}
pub fn arrays(ctx: &Ctx) {
    crate::spaces12::arrays(ctx);
    crate::spaces11::arrays(ctx);
    let name_sets: &[(&str, &[&str], &[&str])] = &[
        // spec, names, index of each
        ("R*", &["R0", "R1", "R2"], &["0", "1", "2"]),
        ("R?", &["R1", "R2", "R3"], &["1", "2", "3"]),
        ("R[0-9]", &["R1", "R3", "R5"], &["1", "3", "5"]),
        ("R?X", &["RAX", "RBX", "RCX"], &["A", "B", "C"]),
        ("?R", &["AR", "BR", "CR"], &["A", "B", "C"]),
        ("R*", &["R8", "R9", "R10"], &["8", "9", "10"]),
        ("R[A-C]", &["RA", "RB", "RC"], &["A", "B", "C"]),
    ];
    let offs: &[[u64; 3]] = &[[0, 4, 8], [8, 0x10, 0x18], [0, 4, 12], [4, 4, 4], [0, 4, 4], [0x100, 0x102, 0x104]];
    let opts: &[&str] = &[
        "", "name: 'N%s'", "description: 'array %s'", "description: _original", "_start_from_zero: true", "_start_from_zero: ",
        "displayName: 'D%s'", "displayName: _original", "name: 'X%sY', description: 'd%s', displayName: 'e%s'", "dimIncrement: 0x40",
        "F: {V: [0, d]}", "_modify: {F: {name: G}}", "_add: {N: {bitOffset: 9, bitWidth: 1}}", "name: PLAIN", "_delete: F", "description: _original, _start_from_zero: true",
    ];
    let order = perms(&[0usize, 1, 2]);
    let field_kinds = 4;
    let mk = |ns: &(&str, &[&str], &[&str]), off: &[u64; 3], perm: &[usize], n: usize, dk: usize, nk: usize, fk: usize, pre: bool| {
        let mut rs = String::new();
        if pre {
            rs += &reg("HEAD", 0x200).x();
        }
        for &i in perm.iter().filter(|i| **i < n) {
            let mut r = reg(ns.1[i], off[i]);
            r.desc = arr_texts(dk, i, ns.2[i]);
            r.display = arr_texts(nk, i, ns.2[i]).map(|t| t.replace(' ', "_"));
            r = match fk {
                0 => r,
                1 => r.fields(&fld("F", 0, 2, "")),
                2 => r.fields(&fld("F", if i == 1 { 1 } else { 0 }, 2, "")),
                _ => r.fields(&(fld("F", 0, 1, "") + &fld(&format!("H{i}"), 1, 1, ""))),
            };
            rs += &r.x();
        }
        rs += &reg("TAIL", 0x300).x();
        rs += &reg("R%s", 0x400).dim(dim(2, 4, None)).x();
        dev(&per("P", 0, "", &rs))
    };
    let mut cases = vec![];
    for ns in name_sets {
        for (oi, off) in offs.iter().enumerate() {
            for (pi, perm) in order.iter().enumerate() {
                for n in [1usize, 2, 3] {
                    for dk in 0..8 {
                        for (ki, o) in opts.iter().enumerate() {
                            // the full product is cut on the axes that do not interact
                            if !ctx.thorough && ((oi > 1 && (dk > 2 || ki > 5)) || (pi % 5 != 0 && (ki > 2 || dk > 3))) {
                                continue;
                            }
                            let nk = (dk + ki) % 4;
                            let fk = (ki + oi + n) % field_kinds;
                            let svd = mk(ns, off, perm, n, dk, nk, fk, pi % 2 == 0);
                            let doc = format!("{{P: {{_array: {{{}: {{{o}}}}}}}}}", q(ns.0));
                            cases.push(Case::new("array", json!({"svd": svd, "doc": doc, "cfg": {}})));
                        }
                    }
                }
            }
        }
    }
    // spec spelling, optional specs, lists, several arrays
    let std = mk(&name_sets[0], &offs[0], &order[0], 3, 2, 1, 1, true);
    for s in ["R*", "?~R*", "R?", "R[012]", "R[0-2]", "R[0-1]", "R0,R1,R2", "R0", "NOPE*", "?~NOPE*", "*", "R[!1]", "R[02]", "{R0,R1}", "HEAD", "HEA?", "[A-Z]*", "R[0-1],R2", "R[0-9]*", "R?*"] {
        for o in opts {
            cases.push(Case::new("array", json!({"svd": std, "doc": format!("{{P: {{_array: {{{}: {{{o}}}}}}}}}", q(s)), "cfg": {}})));
        }
    }
    for d in ["{P: {_array: {'R[01]': {}, 'R2': {}}}}", "{P: {_array: {'R[0-1]': {name: 'A%s'}, 'R?': {name: 'B%s'}}}}", "{P: {_array: {'R*': {}, 'R?': {}}}}", "{P: {_array: {'R?': {}, '?~R*': {}}}}", "{P: {_array: {'R?': 5}}}", "{P: {_array: 5}}"] {
        cases.push(case(&std, d, &cfg0()));
    }
    // lists of specifications, whose parts have different texts around their tokens
    for names in [["A0", "A1", "B2", "B3"], ["A0", "A1", "BB2", "BB3"], ["A0X", "A1X", "A2Y", "A3Y"], ["A0X", "A1X", "B2Y", "B3Y"], ["AA0", "AA1", "A2", "A3"], ["A0", "A1", "A2X", "A3X"], ["A0", "A1", "A2", "A3"]] {
        let rs: String = names.iter().enumerate().map(|(i, n)| reg(n, 4 * i as u64).x()).collect();
        let fs: String = names.iter().enumerate().map(|(i, n)| fld(n, i as u32, 1, "")).collect();
        let (rs, fs) = (dev(&per("P", 0, "", &rs)), dev(&per("P", 0, "", &reg("REG", 0).fields(&fs).x())));
        for s in ["A?,B?", "A[01],B[23]", "A?,BB?", "A[0-1],BB[2-3]", "A?X,A?Y", "A[01]X,A[23]Y", "A?X,B?Y", "AA?,A?", "AA[0-1],A[2-3]", "A?,A?X", "A[01],A[23]X", "A[0-1],A[2-3]", "A[01],A?", "A?,NOPE?", "NOPE?,A?", "{A,B}?", "A{0,1}", "A[01]*,A[23]*", "[AB]?", "[A-B][0-3]", "A0,A[1-3]", "A[0-2],A3"] {
            for o in ["", "name: 'N%s'", "_start_from_zero: true"] {
                cases.push(Case::new("array", json!({"svd": rs, "doc": format!("{{P: {{_array: {{{}: {{{o}}}}}}}}}", q(s)), "cfg": {}})));
                cases.push(Case::new("array", json!({"svd": fs, "doc": format!("{{P: {{REG: {{_array: {{{}: {{{o}}}}}}}}}}}", q(s)), "cfg": {}})));
            }
        }
    }
    // in a cluster
    let c = dev(&per("P", 0, "", &clu("", "C", 0x40, &(0..3).map(|i| reg(&format!("R{i}"), 4 * i).desc(&format!("r {i}")).x()).collect::<String>())));
    for o in opts {
        for s in ["R?", "R[0-1]", "?~N?", "N?"] {
            for p in [&["P", "C"][..], &["P", "_clusters", "C"]] {
                cases.push(case(&c, &at(p, &format!("{{_array: {{{}: {{{o}}}}}}}", q(s))), &cfg0()));
            }
        }
    }
    // a single element: the increment comes from the rule or from the size
    for size in ["", "<size>8</size>", "<size>16</size>", "<size>64</size>", "<size>12</size>", "<size>4</size>", "<size>7</size>"] {
        for o in ["", "dimIncrement: 8", "dimIncrement: 0", "dimIncrement: 0x2, name: 'N%s'", "dimIncrement: 5, _start_from_zero: true", "description: 'd %s'"] {
            for (spec, n) in [("R?", 1), ("R[0]", 1), ("R[0]", 2), ("R?", 2), ("R1", 2), ("R[1]", 3)] {
                let rs: String = (0..n).map(|i| reg(&format!("R{i}"), 8 * i).desc(&format!("r {i}")).props(size).fields(&fld("F0", 0, 1, "")).x()).collect();
                let svd = dev(&per("P", 0, "", &rs));
                cases.push(case(&svd, &format!("{{P: {{_array: {{{}: {{{o}}}}}}}}}", q(spec)), &cfg0()));
                cases.push(case(&svd, &format!("{{P: {{R0: {{_array: {{'F?': {{{o}}}}}}}}}}}"), &cfg0()));
            }
        }
    }
    ctx.run(cases.into_iter());
    // four of them: every choice of offsets, evenly spaced or not
    let mut cases = vec![];
    let grid = [0u64, 2, 4, 6, 8, 12];
    let bits = [0u64, 1, 2, 3, 4, 6];
    for quad in product(&[6; 4]) {
        let sorted = quad.windows(2).all(|w| w[0] < w[1]);
        let weakly = quad.windows(2).all(|w| w[0] <= w[1]);
        if !weakly && !ctx.thorough && quad.iter().sum::<usize>() % 3 != 0 {
            continue;
        }
        let rs: String = quad.iter().enumerate().map(|(i, k)| reg(&format!("R{i}"), grid[*k]).desc(&format!("r {i}")).fields(&fld("F", 0, 2, "")).x()).collect();
        let fs: String = quad.iter().enumerate().map(|(i, k)| fldd("", &format!("R{i}"), Some(&format!("f {i}")), bits[*k] as u32, 1, "")).collect();
        let (rs, fs) = (dev(&per("P", 0, "", &(rs + &reg("TAIL", 0x100).x()))), dev(&per("P", 0, "", &reg("REG", 0).fields(&(fs + &fld("TAIL", 30, 1, ""))).x())));
        for spec in ["R*", "R[0-3]", "R?"].iter().take(if sorted { 3 } else { 1 }) {
            for o in ["", "description: 'array %s', name: 'N%s'"] {
                cases.push(Case::new("array", json!({"svd": rs, "doc": format!("{{P: {{_array: {{{}: {{{o}}}}}}}}}", q(spec)), "cfg": {}})));
                cases.push(Case::new("array", json!({"svd": fs, "doc": format!("{{P: {{REG: {{_array: {{{}: {{{o}}}}}}}}}}}", q(spec)), "cfg": {}})));
            }
        }
    }
    ctx.note("quadruples", cases.len());
    ctx.run(cases.into_iter());
    // fields
    let mut cases = vec![];
    let foffs: &[[u32; 3]] = &[[0, 1, 2], [0, 8, 16], [4, 8, 12], [0, 1, 4], [2, 2, 2], [0, 3, 6]];
    let fopts: &[&str] = &["", "name: 'N%s'", "description: 'array %s'", "description: _original", "_start_from_zero: true", "_start_from_zero: ", "name: 'X%sY', description: 'd%s'", "name: PLAIN"];
    for ns in name_sets {
        for off in foffs {
            for perm in &order {
                for n in [1usize, 2, 3] {
                    for dk in 0..8 {
                        for o in fopts {
                            let mut fs = fld("HEAD", 30, 1, "");
                            for &i in perm.iter().filter(|i| **i < n) {
                                fs += &fldd("", ns.1[i], arr_texts(dk, i, ns.2[i]).as_deref(), off[i], 1, "");
                            }
                            fs += &fldd(&dim(2, 1, None), "R%s", None, 20, 1, "");
                            if !ctx.thorough && dk > 3 && off[0] != 0 {
                                continue;
                            }
                            let svd = dev(&per("P", 0, "", &reg("REG", 0).fields(&fs).x()));
                            cases.push(Case::new("array", json!({"svd": svd, "doc": at(&["P", "REG"], &format!("{{_array: {{{}: {{{o}}}}}}}", q(ns.0))), "cfg": {}})));
                        }
                    }
                }
            }
        }
    }
    // fields of every width
    for n in [1usize, 2, 3] {
        for w in product(&[3; 3][..n]) {
            for off in [[0u32, 3, 6], [8, 16, 24], [0, 3, 8]] {
                for spec in ["F?", "F*", "F[0-1]", "?~F?", "F[12]"] {
                    for o in ["", "name: 'N%s'", "description: 'array %s'", "_start_from_zero: true"] {
                        let fs: String = w.iter().enumerate().map(|(i, w)| fldd("", &format!("F{i}"), Some(&format!("f {i}")), off[i], *w as u32 + 1, "")).collect();
                        let svd = dev(&per("P", 0, "", &reg("REG", 0).fields(&(fs + &fld("TAIL", 30, 1, ""))).x()));
                        cases.push(Case::new("array", json!({"svd": svd, "doc": at(&["P", "REG"], &format!("{{_array: {{{}: {{{o}}}}}}}", q(spec))), "cfg": {}})));
                    }
                }
            }
        }
    }
    ctx.run(cases.into_iter());
}

/// h_patch, plus: the array a rule collected expands to exactly the elements it replaced
pub fn h_array(c: &Case) -> Outcome {
    let o = h_patch(c);
    if o.fail.is_some() || o.class != "changed" {
        return o;
    }
    let doc = c.input["doc"].as_str().unwrap();
    let svd = c.input["svd"].as_str().unwrap();
    let Some(after) = &o.next else { return o };
    let (Ok(a), Ok(b)) = (parse_lax(&svd_text(svd)), parse_lax(after)) else { return o };
    let named = ["name:", "_start_from_zero"].iter().any(|k| doc.contains(k));
    if named || doc.contains("_add") || doc.contains("_delete") || doc.contains("_modify") {
        return o;
    }
    let mut x = flat(&a);
    let mut y = flat(&b);
    x.sort();
    y.sort();
    if x != y {
        let d: Vec<_> = x.iter().filter(|e| !y.contains(e)).chain(y.iter().filter(|e| !x.contains(e))).collect();
        return Outcome::fail(format!("{doc}\nthe collected array does not stand for the elements it replaced: {d:?}"));
    }
    o
}
/// h_patch, plus: the registers of the device are at the same places, with the
/// same effective properties and fields, as before
pub fn h_keep(c: &Case) -> Outcome {
    let o = h_patch(c);
    if o.fail.is_some() || o.class != "changed" {
        return o;
    }
    let Some(after) = &o.next else { return o };
    let (Ok(a), Ok(b)) = (parse_lax(&svd_text(c.input["svd"].as_str().unwrap())), parse_lax(after)) else { return o };
    let Ok(x) = crate::resolve::effective(&a) else { return o };
    match crate::resolve::effective(&b) {
        Err(e) => Outcome::fail(format!("{}\nthe result refers to something that is not there: {e}", c.input["doc"])),
        Ok(y) if x != y => {
            let d: Vec<_> = x.iter().filter(|e| !y.contains(e)).chain(y.iter().filter(|e| !x.contains(e))).collect();
            Outcome::fail(format!("{}\nregisters differ before and after: {d:?}", c.input["doc"]))
        }
        _ => o,
    }
}
/// names and places of all registers and fields with every array written out
pub fn flat(d: &svd_parser::svd::Device) -> Vec<(String, u32, u32)> {
    use svd_parser::svd::*;
    let mut out = vec![];
    fn fields(p: &str, r: &RegisterInfo, out: &mut Vec<(String, u32, u32)>) {
        for f in r.fields.iter().flatten() {
            match f {
                MaybeArray::Single(f) => out.push((format!("{p}:{}", f.name), f.bit_range.offset, f.bit_range.width)),
                MaybeArray::Array(f, d) => {
                    for x in svd_rs::field::expand(f, d) {
                        out.push((format!("{p}:{}", x.name), x.bit_range.offset, x.bit_range.width))
                    }
                }
            }
        }
    }
    fn kids(p: &str, base: u32, v: &[RegisterCluster], out: &mut Vec<(String, u32, u32)>) {
        for k in v {
            match k {
                RegisterCluster::Register(MaybeArray::Single(r)) => {
                    out.push((format!("{p}.{}", r.name), base + r.address_offset, 0));
                    // field names may legitimately come from the first member
                    let _ = fields;
                }
                RegisterCluster::Register(MaybeArray::Array(r, d)) => {
                    for x in svd_rs::register::expand(r, d) {
                        out.push((format!("{p}.{}", x.name), base + x.address_offset, 0));
                    }
                }
                RegisterCluster::Cluster(MaybeArray::Single(c)) => kids(&format!("{p}.{}", c.name), base + c.address_offset, &c.children, out),
                RegisterCluster::Cluster(MaybeArray::Array(c, d)) => {
                    for x in svd_rs::cluster::expand(c, d) {
                        kids(&format!("{p}.{}", x.name), base + x.address_offset, &x.children, out);
                    }
                }
            }
        }
    }
    for p in &d.peripherals {
        if let Some(r) = &p.registers {
            kids(&p.name, 0, r, &mut out);
            if p.name == "P" {
                for k in r {
                    if let RegisterCluster::Register(r) = k {
                        if r.name == "REG" {
                            fields("REG", r, &mut out);
                        }
                    }
                }
            }
        }
    }
    out
}

// ------------------------------------------------------------------ C10 clusters
pub fn collect_clusters(ctx: &Ctx) {
    crate::spaces12::clusters(ctx);
    crate::spaces11::clusters(ctx);
    let mut cases = vec![];
    let opts: &[&str] = &["", "description: 'my %s', ", "dimIncrement: 0x10, ", "dimIncrement: 0x4, ", "_modify: {X: {size: 8}}, ", "_delete: Y, ", "_strip: X, "];
    let rules: &[(&str, &str, &str)] = &[
        // cluster name, rule of group X, rule of group Y
        ("CH%s", "", ""),
        ("CH%s", "name: XN", ""),
        ("CH%s", "name: XN, description: xd", "name: YN"),
        ("CH[%s]", "", "description: yd"),
        ("CH%s", "_modify: {F: {name: G}}", "_delete: F"),
        ("CH%s", "F: {V: [0, d]}", "F: [0, 1]"),
        ("%s", "", ""),
        ("CH%s", "_add: {N: {bitOffset: 9, bitWidth: 1}}", "name: X"),
    ];
    let layouts: &[[[u64; 3]; 2]] = &[
        [[0, 8, 16], [4, 12, 20]],
        [[4, 12, 20], [0, 8, 16]],
        [[0, 4, 8], [0x20, 0x24, 0x28]],
        [[0, 8, 16], [4, 12, 24]],
        [[0, 8, 20], [4, 12, 24]],
        [[0, 8, 16], [4, 8, 12]],
        [[0, 0x10, 0x20], [4, 0x14, 0x24]],
        [[0x100, 0x110, 0x120], [0x10c, 0x11c, 0x12c]],
    ];
    let specs: &[(&str, &str, [&str; 3])] = &[
        ("X?", "Y?", ["0", "1", "2"]),
        ("X*", "Y[0-9]", ["1", "2", "3"]),
        ("X[A-C]", "Y[ABC]", ["A", "B", "C"]),
        ("?~X?", "?~Y?", ["0", "1", "2"]),
        ("X?", "?~NOPE?", ["0", "1", "2"]),
        ("X?", "NOPE?", ["0", "1", "2"]),
        ("X?,W?", "Y?", ["0", "1", "2"]),
    ];
    let combos = product(&[opts.len(), rules.len(), layouts.len(), specs.len(), 3, 3, 4]);
    let perms3 = perms(&[0usize, 1, 2]);
    for c in combos {
        let [o, r, l, s, n, dk, fk] = c[..] else { unreachable!() };
        if !ctx.thorough && ((o > 0) as u8 + (r > 0) as u8 + (s > 0) as u8 + (dk > 0) as u8 + (fk > 0) as u8) > 2 {
            continue;
        }
        let n = n + 1;
        let lay = &layouts[l];
        let sp = &specs[s];
        let perm = &perms3[(o + r + l + dk) % 6];
        let mut rs = reg("HEAD", 0x400).x();
        for &i in perm.iter().filter(|i| **i < n) {
            for (g, pre) in ["X", "Y"].iter().enumerate() {
                let idx = if dk == 2 && g == 1 && i == 1 { "9" } else { sp.2[i] };
                let mut r = reg(&format!("{pre}{idx}"), lay[g][i]).desc(&format!("{pre} {idx}"));
                r = match fk {
                    0 => r.fields(&fld("F", 0, 2, "")),
                    1 => r.fields(&fld("F", if i == 1 { 3 } else { 0 }, 2, "")),
                    2 => r,
                    _ => r.fields(&fld(&format!("F{i}"), 0, 2, "")),
                };
                if dk == 1 && g == 0 {
                    r = r.dim(dim(2, 2, None));
                    r.name = format!("{pre}{idx}_%s");
                }
                rs += &r.x();
            }
        }
        rs += &reg("W7", 0x300).x();
        let (cn, rx, ry) = rules[r];
        let svd = dev(&per("P", 0, "", &rs));
        let doc = format!("{{P: {{_cluster: {{{}: {{{}{}: {{{rx}}}, {}: {{{ry}}}}}}}}}}}", q(cn), opts[o], q(sp.0), q(sp.1));
        let plain = !opts[o].starts_with('_') && (rx.is_empty() || rx.starts_with("name")) && (ry.is_empty() || ry.starts_with("desc") || ry.starts_with("name"));
        cases.push(Case::new(if plain { "keep" } else { "patch" }, json!({"svd": svd, "doc": doc, "cfg": {}})));
    }
    // clusters without index, three groups, nested collecting
    let base: String = (0..3)
        .flat_map(|i| ["A", "B", "C"].iter().enumerate().map(move |(g, n)| reg(&format!("{n}{i}"), 0x10 * i + 4 * g as u64).desc(n).fields(&fld("F", 0, 1, "")).x()))
        .collect();
    let svd = dev(&per("P", 0, "", &(base.clone() + &reg("SOLO", 0x80).x() + &reg("DUO", 0x84).x())));
    let insub = dev(&per("P", 0, "", &clu("", "SUB", 0x100, &base)));
    let mut docs = vec![];
    for name in ["CL", "CL%s", "CL[%s]", "SOLO", "A0"] {
        for groups in [
            "SOLO: {}", "SOLO: {}, DUO: {}", "SOLO: {name: S2}, DUO: {description: d}", "'A?': {}", "'A?': {}, 'B?': {}, 'C?': {}", "'A?': {}, 'B[0-1]': {}", "'?~A?': {}, '?~Z?': {}",
            "'?~Z?': {}", "A0: {}, B0: {}", "'[AB]?': {}", "'A?': {}, 'B?': {name: A}", "'A?': {F: {V: [0, d]}}, 'B?': {_delete: F}", "'A?': {}, 'A0': {}", "", "description: x",
            "'A?': {}, _modify: {A: {description: z}}", "'A?': {}, 'B?': {}, _array: {'A': {}}", "'A?': 5", "dimIncrement: 8, 'A?': {}", "dimIncrement: 0x40, A0: {}, B0: {}",
            "dimIncrement: 4, 'A[0]': {}, 'B[0]': {}", "'A[1-2]': {}, 'B[1-2]': {}", "'A[0-1]': {}, 'B[1-2]': {}", "'DUO': {}, 'SOLO': {}, dimIncrement: 4", "'?UO': {}, dimIncrement: 4",
        ] {
            docs.push(format!("{{P: {{_cluster: {{{}: {{{groups}}}}}}}}}", q(name)));
            docs.push(format!("{{P: {{'?~SUB': {{_cluster: {{{}: {{{groups}}}}}}}}}}}", q(name)));
            docs.push(format!("{{P: {{_cluster: {{{}: {{{groups}}}, 'OTHER%s': {{'C?': {{}}}}}}}}}}", q(name)));
        }
    }
    // every mixture of registers and register arrays in the groups
    for c in product(&[3, 4, 4, 4, 2]) {
        let n = c[0] + 1;
        if c[1 + n..4].iter().any(|x| *x > 0) {
            continue;
        }
        let mut rs = String::new();
        for i in 0..n {
            let kind = |k: usize, nm: &str, off: u64| match k {
                0 => reg(nm, off).desc(nm).fields(&fld("F", 0, 2, "")).x(),
                1 => reg(&format!("{nm}_%s"), off).desc(nm).dim(dim(2, 4, None)).fields(&fld("F", 0, 2, "")).x(),
                2 => reg(&format!("{nm}_%s"), off).desc(nm).dim(dim(3, 4, None)).fields(&fld("F", 0, 2, "")).x(),
                _ => reg(&format!("{nm}_%s"), off).desc(nm).dim(dim(2, 4, Some("A,B"))).fields(&fld("F", 0, 2, "")).x(),
            };
            rs += &kind(c[1 + i], &format!("X{i}"), 0x20 * i as u64);
            rs += &kind(if c[4] == 1 { c[1] } else { 0 }, &format!("Y{i}"), 0x20 * i as u64 + 0x10);
        }
        let svd = dev(&per("P", 0, "", &(rs + &reg("TAIL", 0x200).x())));
        for b in ["'X*': {}, 'Y*': {}", "'X*': {}", "'Y*': {}, 'X*': {}", "'X*': {name: 'X%s', F: {A: [0, a]}}, 'Y?': {}, dimIncrement: 0x20", "'X*': {name: XN}, 'Y*': {name: YN, description: yd}, dimIncrement: 0x20"] {
            for n in ["CL%s", "CL[%s]", "CL"] {
                cases.push(Case::new("patch", json!({"svd": svd, "doc": format!("{{P: {{_cluster: {{{}: {{{b}}}}}}}}}", q(n)), "cfg": {}})));
            }
        }
    }
    // index in the middle of the names; rules inside a cluster without index
    let mid: String = (0..3)
        .flat_map(|i| [("PX", "_S", 0), ("", "_CFG", 4), ("Z", "END", 8)].iter().map(move |(a, b, o)| reg(&format!("{a}{i}{b}"), 0x10 * i + o).desc("d").fields(&fld("F", 0, 2, "")).x()).collect::<Vec<_>>())
        .collect();
    let mid = dev(&per("P", 0, "", &(mid + &reg("ONE_B", 0x94).fields(&fld("F", 0, 2, "")).x() + &reg("ONE_A", 0x90).fields(&(fld("F", 0, 2, "") + &fld("G", 4, 2, ""))).x())));
    for (a, b, z) in [("PX?_S", "?_CFG", "Z?END"), ("PX[0-2]_S", "[0-2]_CFG", "Z[012]END"), ("PX*", "*_CFG", "*END"), ("PX*_S", "?_C*", "Z*D"), ("P?[012]_S", "?_CFG", "Z?*"), ("PX[0-1]_S", "[0-1]_CFG", "Z[01]END"), ("PX?_S,QQ?", "QQ?_CFG,?_CFG", "Z?E?D,Z?END")] {
        for (ra, rb, rz) in [("", "", ""), ("name: A", "name: B", "name: C"), ("name: A, description: da", "", "description: dz"), ("F: {V: [0, d]}", "_delete: F", "_modify: {F: {name: G}}"), ("F: [0, 1]", "", "name: A"), ("'?~F': {V: [0, d]}", "NOPE: {V: [0, d]}", "")] {
            for n in ["CL%s", "CL[%s]", "%sCL"] {
                for w in [format!("{}: {{{ra}}}, {}: {{{rb}}}, {}: {{{rz}}}", q(a), q(b), q(z)), format!("{}: {{{rz}}}, {}: {{{ra}}}", q(z), q(a)), format!("{}: {{{rb}}}", q(b))] {
                    cases.push(Case::new("patch", json!({"svd": mid, "doc": format!("{{P: {{_cluster: {{{}: {{{w}}}}}}}}}", q(n)), "cfg": {}})));
                }
            }
        }
    }
    // lists of specifications
    let lists: String = ["A0X", "A1X", "A2Y", "B0", "B1", "BB2"].iter().enumerate().map(|(i, n)| reg(n, 0x10 * (i as u64 % 3) + 4 * (i as u64 / 3)).desc(n).fields(&fld("F", 0, 2, "")).x()).collect();
    let lists = dev(&per("P", 0, "", &lists));
    for a in ["A?X,A?Y", "A?Y,A?X", "A[01]X,A[2]Y", "A?*", "A[0-2]?", "A?X,A2Y", "A?X", "A?X,NOPE?", "NOPE?,A?X"] {
        for b in ["B?,BB?", "BB?,B?", "B[01],BB2", "B*", "B[01],BB[2]", "B?"] {
            for n in ["CL%s", "CL[%s]", "CL"] {
                for (ra, rb) in [("", ""), ("name: A", "name: B"), ("", "name: B"), ("description: d", "")] {
                    cases.push(Case::new("patch", json!({"svd": lists, "doc": format!("{{P: {{_cluster: {{{}: {{{}: {{{ra}}}, {}: {{{rb}}}}}}}}}}}", q(n), q(a), q(b)), "cfg": {}})));
                }
            }
        }
    }
    let one = ["", "name: N", "description: nd", "name: N, description: nd", "F: {V: [0, d]}", "F: [0, 1]", "_delete: F", "_modify: {F: {name: H}}", "_add: {W: {bitOffset: 9, bitWidth: 1}}", "_merge: [F, G]", "_strip: F", "_prefix: X_", "_clear: '*'", "_array: {F: {}}", "NOPE: {V: [0, d]}", "'?~NOPE': {V: [0, d]}", "_derive: {M: {_from: F, bitOffset: 20, bitWidth: 2}}", "_split: F", "addressOffset: 4"];
    for a in one {
        for b in one {
            cases.push(Case::new("patch", json!({"svd": mid, "doc": format!("{{P: {{_cluster: {{CL: {{ONE_A: {{{a}}}, ONE_B: {{{b}}}}}}}}}}}"), "cfg": {}})));
            cases.push(Case::new("patch", json!({"svd": mid, "doc": format!("{{P: {{_cluster: {{CL: {{ONE_B: {{{b}}}, ONE_A: {{{a}}}, description: cd}}}}}}}}"), "cfg": {"update_fields": false}})));
        }
    }
    ctx.run(cases.into_iter());
    bfs(ctx, &[&svd, &insub], &docs, ctx.tier(1, 2), &cfg0());
}

// ------------------------------------------------------------------ C11 expansion
pub fn expansion(ctx: &Ctx) {
    crate::spaces12::clusters(ctx);
    let mut cases = vec![];
    let dims = [(1, 8), (2, 8), (3, 0x10), (2, 0)];
    let idxs: &[Option<&str>] = &[None, Some("A,B,C"), Some("5-7"), Some("A,B"), Some("X"), Some("3-4")];
    let names = ["CL%s", "CL[%s]", "C%sD", "CL", "%s"];
    let bodies = [
        reg("R", 0).x() + &reg("S", 4).x(),
        reg("R", 0).x() + &clu("", "SUB", 4, &reg("T", 0).x()) + &reg("S", 2).x(),
        clu(&dim(2, 4, None), "SUB%s", 4, &reg("T", 0).x()) + &reg("R%s", 0).dim(dim(2, 1, None)).x(),
        String::new(),
        reg("R", 0).fields(&fld("F", 0, 1, "")).x() + &reg("R2", 4).from("R").x(),
        // derived from outside of the cluster
        reg("R", 0).x() + &reg("R2", 4).from("P.HEAD").x() + &reg("R3", 6).from("HEAD").fields(&fld("F", 0, 1, "")).x(),
        // what the children inherit from the cluster and from each other
        "<size>16</size><access>read-only</access><protection>s</protection><resetValue>5</resetValue><resetMask>0xF</resetMask>".to_string()
            + &reg("R", 0).fields(&fld("F", 0, 1, "")).x()
            + &reg("W", 2).props("<access>write-only</access><resetMask>0xFF</resetMask>").x()
            + &reg("R2", 4).from("R").x()
            + &reg("R3", 6).from("R2").props("<resetValue>9</resetValue>").x(),
        "<size>8</size><resetValue>3</resetValue>".to_string()
            + &clu("", "SUB", 4, &("<access>read-only</access>".to_string() + &reg("T", 0).x() + &reg("U", 1).from("T").x()))
            + &clu("", "SUC", 6, &("<size>16</size><resetValue>7</resetValue>".to_string() + &reg("T", 0).fields(&fld("F", 0, 1, "")).x()))
            + "<cluster derivedFrom=\"SUC\"><name>SUD</name><addressOffset>0</addressOffset></cluster>"
            + &reg("R", 2).x(),
    ];
    let rules = [
        "_expand_cluster: 'S'", "_expand_cluster: ['S']", "_expand_cluster: {'S': }", "_expand_cluster: {'S': {}}", "_expand_cluster: {'S': {_preindex: ''}}",
        "_expand_cluster: {'S': {_postindex: ''}}", "_expand_cluster: {'S': {_preindex: '', _postindex: ''}}", "_expand_cluster: {'S': {_preindex: X, _postindex: Y}}",
        "_expand_cluster: {'S': {_zeroindex: true}}", "_expand_cluster: {'S': {_zeroindex: 0}}", "_expand_cluster: {'S': {_noprefix: true}}",
        "_expand_cluster: {'S': {_noprefix: true, _zeroindex: true}}", "_expand_cluster: {'S': {_bad: 1}}", "_expand_cluster: {'?~S': {}}", "_expand_cluster: 5",
    ];
    let nspec = ["CL*", "*", "OTHER", "NOPE", "CL%s", "CL"];
    for c in product(&[dims.len(), idxs.len(), names.len(), bodies.len(), rules.len(), nspec.len()]) {
        let [d, i, n, b, r, s] = c[..] else { unreachable!() };
        if !ctx.thorough && s > 1 && (b + i + d) % 4 != 0 {
            continue;
        }
        let head = reg("HEAD", 0x200).x();
        let cl = clu(&dim(dims[d].0, dims[d].1, idxs[i]), names[n], 0x40, &bodies[b]);
        let other = clu("", "OTHER", 0x180, &reg("R", 0).x());
        let svd = dev(&per("P", 0, "", &(head + &cl + &other)));
        if parse_lax(&svd).is_err() {
            continue;
        }
        let doc = format!("{{P: {{{}}}}}", rules[r].replace('S', "\u{1}").replace("'\u{1}", &format!("'{}", nspec[s])).replace("'?~\u{1}", &format!("'?~{}", nspec[s])));
        cases.push(case(&svd, &doc, &cfg0()));
    }
    // register arrays
    for (n, inc) in [(1, 4), (2, 4), (3, 8), (2, 0)] {
        for idx in [None, Some("A,B,C"), Some("5-7"), Some("5-6"), Some("A,B")] {
            for name in ["R%s", "R[%s]", "R%sX", "%s"] {
                for (desc, disp) in [(None, None), (Some("d %s"), Some("D%s")), (Some("d"), None)] {
                    let mut r = reg(name, 0x10).dim(dim(n, inc, idx)).fields(&fldd(&dim(2, 1, None), "F%s", Some("f %s"), 0, 1, ""));
                    r.desc = desc.map(String::from);
                    r.display = disp.map(String::from);
                    let body = reg("RX", 0).x() + &r.x() + &reg("Q%s", 0x80).dim(dim(2, 4, None)).x() + &reg("TAIL", 0x90).x();
                    let svd = dev(&(per("P", 0, "", &body) + &per("PC", 0x1000, "", &clu("", "C", 0, &body))));
                    if parse_lax(&svd).is_err() {
                        continue;
                    }
                    for s in ["R*", "R%s", "?~R*", "NOPE", "?~NOPE", "Q%s", "*", "RX", "[RQ]*", "%s"] {
                        for o in ["{}", "{x: 1}", "5"] {
                            cases.push(case(&svd, &at(&["P"], &format!("{{_expand_array: {{{}: {o}}}}}", q(s))), &cfg0()));
                            cases.push(case(&svd, &at(&["PC", "C"], &format!("{{_expand_array: {{{}: {o}}}}}", q(s))), &cfg0()));
                        }
                        cases.push(case(&svd, &at(&["P"], &format!("{{_expand_array: [{}]}}", q(s))), &cfg0()));
                        cases.push(case(&svd, &at(&["P"], &format!("{{_expand_array: {{{}: {{}}, 'Q*': {{}}}}}}", q(s))), &cfg0()));
                        // collected again
                        cases.push(case(&svd, &at(&["P"], &format!("{{_expand_array: {{{}: {{}}}}, _array: {{'R[0-9A-F]': {{}}}}}}", q(s))), &cfg0()));
                    }
                }
            }
        }
    }
    // dimensions changed by the same patch, so that indices and number may differ
    let arr = |d: &str| per("P", 0, "", &(clu(d, "CL%s", 0x40, &(reg("R", 0).x() + &reg("S", 4).x())) + &reg("R%s", 0x10).dim(d.to_string()).fields(&fld("F", 0, 1, "")).x() + &reg("X", 0x300).x()));
    for (n, idx) in [(2, None), (2, Some("A,B")), (3, Some("4-6")), (1, None), (1, Some("Z"))] {
        let svd = dev(&arr(&dim(n, 0x10, idx)));
        for m in ["dim: 1", "dim: 2", "dim: 3", "dim: 4", "dimIndex: 'A,B'", "dimIndex: 'A,B,C'", "dimIndex: '7-9'", "dimIndex: [p, q]", "dim: 3, dimIndex: 'U,V,W'", "dimIncrement: 0x20", "dimIncrement: 0", "name: 'N%s'", "name: 'N[%s]'", "name: N", "dim: 2, dimIndex: ''", "dimIndex: 'A,A'", "dim: 2, dimIndex: 'x-y'"] {
            for e in ["_expand_cluster: '*L*'", "_expand_cluster: {'*': }", "_expand_cluster: {'CL*': {_preindex: ''}}", "_expand_cluster: {'*': {_postindex: _}}", "_expand_cluster: {'*': {_preindex: '', _postindex: X}}", "_expand_cluster: {'*': {_zeroindex: true}}", "_expand_cluster: {'*': {_noprefix: true}}", "_expand_array: {'R%s': {}}", "_expand_array: {'*': {}}", "_expand_cluster: '*', _expand_array: {'*': {}}"] {
                for k in ["CL%s", "R%s", "*"] {
                    cases.push(case(&svd, &format!("{{P: {{_modify: {{'{k}': {{{m}}}}}, {e}}}}}"), &cfg0()));
                }
            }
        }
    }
    // what a program sees of the device stays as it was
    for c in &mut cases {
        if !c.input["doc"].as_str().unwrap().contains("_modify") {
            c.kind = "keep";
        }
    }
    ctx.run(cases.into_iter());
}

// ------------------------------------------------------------------ C12 merge and split
pub fn merge_split(ctx: &Ctx) {
    crate::spaces12::split(ctx);
    crate::spaces11::merge_split(ctx);
    let mut cases = vec![];
    let names = [["AB0", "AB1", "AC2"], ["F0", "F1", "F2"], ["X", "XY", "Z"]];
    let lay: &[[(u32, u32); 3]] = &[[(0, 1), (1, 1), (2, 1)], [(4, 2), (6, 3), (9, 4)], [(8, 1), (4, 4), (0, 4)], [(0, 1), (4, 1), (8, 1)], [(31, 1), (0, 8), (16, 8)]];
    let acc = ["", "<access>read-only</access>", "<access>write-only</access>"];
    let enumd = evs("", "", &[("V", 0)]);
    let rules = |n: &[&str; 3]| {
        let (a, b, c) = (n[0], n[1], n[2]);
        vec![
            format!("{{_merge: ['{a},{b}']}}"), format!("{{_merge: '*'}}"), format!("{{_merge: ['*']}}"), format!("{{_merge: ['{}*']}}", &a[..1]), format!("{{_merge: ['{a}']}}"),
            format!("{{_merge: {{N: ['{a}', '{b}', '{c}']}}}}"), format!("{{_merge: {{N: ['{c}', '{a}']}}}}"), format!("{{_merge: {{N: '*'}}}}"), format!("{{_merge: {{{a}: '*'}}}}"),
            format!("{{_merge: {{N: ['{a}', 'NOPE']}}}}"), format!("{{_merge: {{N: 'NOPE'}}}}"), format!("{{_merge: NOPE}}"), format!("{{_merge: {{N: ['{a}', '{a}']}}}}"),
            format!("{{_merge: {{N: ['{a}'], M: ['{b}', '{c}']}}}}"), format!("{{_merge: ['{a},{b}', '{c}']}}"), format!("{{_merge: ['{b},{c}']}}"), format!("{{_merge: ['{c},{a}']}}"),
            format!("{{_merge: {{N: 5}}}}"), format!("{{_merge: {{N: []}}}}"), format!("{{_merge: []}}"), format!("{{_merge: {{}}}}"),
            format!("{{_split: {a}}}"), format!("{{_split: [{a}, {b}]}}"), format!("{{_split: '*'}}"), format!("{{_split: '?~NOPE'}}"), format!("{{_split: ['{b}']}}"),
            format!("{{_split: {{{b}: {{}}}}}}"), format!("{{_split: {{{b}: {{name: 'B%s', description: 'bit %s'}}}}}}"), format!("{{_split: {{{b}: {{name: 'B%sX'}}}}}}"),
            format!("{{_split: {{{b}: {{name: B}}}}}}"), format!("{{_split: {{{b}: {{description: 'bit %s of %s'}}}}}}"), format!("{{_split: {{{c}: {{description: none}}, {a}: {{}}}}}}"),
            format!("{{_split: NOPE}}"), format!("{{_split: {{'?~NOPE': {{}}}}}}"), format!("{{_split: {{{b}: 5}}}}"), format!("{{_merge: {{N: ['{a}', '{b}']}}, _split: N}}"),
            format!("{{_merge: {{N: ['{a}', '{b}']}}, _split: {{N: {{name: 'Q%s'}}}}}}"), format!("{{_split: {b}, _merge: {{N: '{b}*'}}}}"), format!("{{_split: {{}}}}"), format!("{{_split: []}}"),
            format!("{{_merge: ['?~{a},{b}']}}"), format!("{{_merge: {{N: '?~NOPE'}}}}"), format!("{{_merge: {{'?~N': '*'}}}}"),
        ]
    };
    for n in &names {
        for (li, l) in lay.iter().enumerate() {
            for perm in perms(&[0usize, 1, 2]) {
                for desc in 0..3 {
                    for ac in 0..4 {
                        if !ctx.thorough && desc + ac > 2 && li > 1 {
                            continue;
                        }
                        let mut fs = String::new();
                        for &i in &perm {
                            let d = match desc {
                                0 => Some(format!("{} d", n[i])),
                                1 => None,
                                _ => if i == perm[0] { None } else { Some("later".into()) },
                            };
                            let a = match ac {
                                0 => acc[0],
                                1 => acc[1],
                                2 => acc[i],
                                _ => acc[(i == 2) as usize],
                            };
                            let extra = format!("{a}{}", if desc == 2 && i == 1 { enumd.as_str() } else { "" });
                            fs += &fldd("", n[i], d.as_deref(), l[i].0, l[i].1, &extra);
                        }
                        fs += &fld("KEEP", 28, 2, "<access>read-write</access>");
                        let svd = dev(&(per("P", 0, "", &reg("R", 0).fields(&fs).x()) + &per("E", 0x100, "", &reg("R", 0).x())));
                        for r in rules(n) {
                            cases.push(case(&svd, &at(&["P", "R"], &r), &cfg0()));
                        }
                        if li == 0 && desc == 0 && ac == 0 {
                            for r in rules(n) {
                                cases.push(case(&svd, &at(&["E", "R"], &r), &cfg0()));
                            }
                        }
                    }
                }
            }
        }
    }
    // field arrays among the fields
    let fs = fldd(&dim(2, 2, None), "F%s", Some("a"), 0, 1, "") + &fld("F1", 4, 2, "") + &fld("G", 8, 3, "");
    let svd = dev(&per("P", 0, "", &reg("R", 0).fields(&fs).x()));
    for r in ["{_merge: ['F*']}", "{_merge: {N: ['F%s', G]}}", "{_split: 'F%s'}", "{_split: 'F?'}", "{_merge: {N: [F1, G]}}", "{_split: G}"] {
        cases.push(case(&svd, &at(&["P", "R"], r), &cfg0()));
    }
    ctx.run(cases.into_iter());
}

// ------------------------------------------------------------------ C13 strip, prefix, suffix
pub fn strip(ctx: &Ctx) {
    crate::spaces12::affixes(ctx);
    crate::spaces11::strip(ctx);
    let names = ["AB_X", "A_B_X", "X_AB", "AB", "B_A", "ABAB", "A", "BX_A", "AB1_AB"];
    let regs: String = names.iter().enumerate().map(|(i, n)| reg(n, 4 * i as u64).display(&format!("{n}D")).altreg(&format!("{n}")).fields(&fld("A", 0, 1, "")).x()).collect();
    let cs: String = names
        .iter()
        .enumerate()
        .map(|(i, n)| format!("<cluster><name>{n}</name><description>{n}</description><alternateCluster>{n}_A</alternateCluster><headerStructName>{n}_h</headerStructName><addressOffset>{}</addressOffset>{}</cluster>", 64 * i, reg(n, 0).x()))
        .collect();
    let fs: String = names.iter().enumerate().map(|(i, n)| fld(n, 2 * i as u32, 1, "")).collect();
    let svd = dev(&(per("P", 0, "", &(regs.clone() + &reg("AR%s", 0x100).dim(dim(2, 4, None)).display("AR%s").x())) + &per("Q", 0x1000, "", &cs) + &per("R", 0x2000, "", &reg("R", 0).fields(&fs).x()) + &per("M", 0x3000, "", &clu("", "M", 0, &(regs + &clu("", "AB_AB", 0x200, &reg("AB_A", 0).x()))))));
    let toks = ["A", "B", "_", "*", "?", "[AB]", ",", "{A,B}", "X"];
    let mut w = words(&toks, ctx.tier(3, 4));
    w.extend(v(&["AB_X", "A*_", "*_", "_*", "?~A", "AB_,A_", "{AB,A}_", "*", "1", "AB1_AB", "ABABAB"]));
    w.push(String::new());
    ctx.note("patterns", w.len());
    ctx.run(w.iter().flat_map(|p| {
        let s = q(p);
        let mut d = vec![];
        for path in [&["P"][..], &["Q"], &["R", "R"], &["M", "M"]] {
            if p.len() < 3 {
                for k in ["_strip", "_strip_end"] {
                    d.push(at(path, &format!("{{{k}: [{s}, 5]}}")));
                    d.push(at(path, &format!("{{{k}: [[{s}]]}}")));
                    d.push(at(path, &format!("{{{k}: {{{s}: A}}}}")));
                }
            }
            for k in ["_strip", "_strip_end"] {
                d.push(at(path, &format!("{{{k}: {s}}}")));
                d.push(at(path, &format!("{{{k}: [{s}, A]}}")));
            }
        }
        d.push(at(&["P"], &format!("{{_strip: {s}, _strip_end: {s}}}")));
        d.into_iter().map(|d| case(&svd, &d, &cfg0())).collect::<Vec<_>>()
    }));
    let fix = ["A", "A_", "_", "1", "", "AB", "%s"];
    let mut docs = vec![];
    for path in [&["P"][..], &["Q"], &["R", "R"], &["M", "M"], &["M", "_clusters", "M"], &["*"], &["Q", "AB"]] {
        for a in fix {
            for b in fix {
                docs.push(at(path, &format!("{{_prefix: {}, _suffix: {}}}", q(a), q(b))));
                docs.push(at(path, &format!("{{_strip: {}, _prefix: {}}}", q(a), q(b))));
                docs.push(at(path, &format!("{{_strip_end: {}, _suffix: {}}}", q(a), q(b))));
                docs.push(at(path, &format!("{{_prefix: {}, _strip: {}, _modify: {{'*': {{description: z}}}}}}", q(a), q(b))));
            }
            docs.push(at(path, &format!("{{_prefix: {}}}", q(a))));
            docs.push(at(path, &format!("{{_suffix: {}}}", q(a))));
        }
        docs.push(at(path, "{_prefix: 5}"));
        docs.push(at(path, "{_strip: 5}"));
        docs.push(at(path, "{_suffix: [A]}"));
    }
    bfs(ctx, &[&svd], &docs, ctx.tier(1, 2), &cfg0());
}

// ------------------------------------------------------------------ C14 enumerated values
pub fn enums(ctx: &Ctx) {
    crate::spaces12::enums(ctx);
    let accs = ["", "read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"];
    let a = |s: &str| if s.is_empty() { String::new() } else { format!("<access>{s}</access>") };
    let present = [
        String::new(),
        evs("OLD", "", &[("X", 0), ("Y", 1)]),
        evs("OLD", "read", &[("X", 0)]),
        evs("OLD", "write", &[("X", 0)]),
        evs("OLD", "read-write", &[("X", 0)]),
        evs("OLDR", "read", &[("X", 0)]) + &evs("OLDW", "write", &[("X", 1)]),
        evs("OLDW", "write", &[("X", 0)]) + &evs("OLDR", "read", &[("X", 1)]),
        evs("OLDW", "write", &[("X", 0)]) + &evs("OLD2", "write", &[("Z", 2)]),
        evs("OLD", "read", &[("X", 0)]) + &evs("OLD2", "read", &[("Z", 2)]),
        evs("", "", &[("X", 0)]) + &evs("OLD2", "write", &[("Z", 2)]),
    ];
    let vals = "V: [0, zero], W: [1, one]";
    let mut bodies: Vec<String> = vec![];
    for k in ["", "_read", "_write", "_RM", "_RS", "_RC", "_RME", "_WM", "_WS", "_WC", "_W1S", "_W0C", "_W1C", "_W0S", "_W1T", "_W0T"] {
        let wrap = |s: String| if k.is_empty() { s } else { format!("{{{k}: {s}}}") };
        bodies.push(wrap(format!("{{{vals}}}")));
        bodies.push(wrap(format!("{{_replace_enum: {{{vals}}}}}")));
        if !k.is_empty() {
            bodies.push(wrap("{}".into()));
        }
        if ["", "_read", "_write", "_W1C", "_RC"].contains(&k) {
            bodies.push(wrap("{_derivedFrom: SRC}".into()));
            bodies.push(wrap("{_name: MINE, V: [0, z]}".into()));
            bodies.push(wrap("{_replace_enum: {_name: MINE, V: [0, z]}}".into()));
        }
    }
    for s in [
        "{_read: {V: [0, z]}, _write: {W: [1, o]}}", "{_write: {V: [0, z]}, _read: {W: [1, o]}}", "{_read: {V: [0, z]}, _W1C: {W: [1, o]}}", "{_RC: {V: [0, z]}, _W1C: {}}",
        "{_read: {_replace_enum: {V: [0, z]}}, _write: {_replace_enum: {V: [1, z]}}}", "{}", "{_replace_enum: {}}", "{_name: N}", "{V: [0, z], _read: {V: [0, z]}}",
        "{B: [1, b], A: [0, a]}", "{A: [0, a], B: [0, b]}", "{A: [-1, default], B: [1, b]}", "{A: [-1, d], B: [-1, e]}", "{'1A': [0, a]}", "{'': [0, a]}", "{A: [0]}", "{A: 0}", "{A: ['0x2', a], B: ['0b01', b]}",
        "{A: ['#1x', a]}", "{A: [0, 5]}", "{A: [3, c], B: [1, b], C: [2, a], D: [0, z]}", "{_derivedFrom: NOPE}", "{_derivedFrom: OLD}", "{_read: {_derivedFrom: SRC}, _write: {V: [0, z]}}", "{A: [bad, d]}", "[0, 1]", "[1]", "5", "{_read: 5}",
        "{A: [-2, d], B: [1, b]}", "{A: [-1, d], B: ['-1', b]}", "{A: [0xFFFFFFFF, d]}", "{A: [0x100000000, d], B: [0, b]}", "{B: [1, b], A: [-1, d], C: [0, c]}", "{A: [-1, d]}", "{A: [0, a, x]}", "{A: []}", "{A: [0, '']}",
    ] {
        bodies.push(s.into());
    }
    // values and effects given apart
    for r in ["_RM", "_RS", "_RC", "_RME"] {
        bodies.push(format!("{{_read: {{V: [0, z]}}, {r}: {{}}}}"));
        bodies.push(format!("{{{r}: {{}}, _read: {{_replace_enum: {{V: [0, z]}}}}, _write: {{W: [1, o]}}, _W1C: {{}}}}"));
    }
    for w in ["_WM", "_WS", "_WC", "_W1S", "_W0C", "_W1C", "_W0S", "_W1T", "_W0T"] {
        bodies.push(format!("{{_write: {{V: [0, z]}}, {w}: {{}}}}"));
        bodies.push(format!("{{{w}: {{}}, _RC: {{}}, _read: {{V: [0, z]}}}}"));
    }
    for s in ["{_name: 1N, V: [0, z]}", "{_name: '', V: [0, z]}", "{_name: 7, V: [0, z]}", "{_read: {_name: 1N, V: [0, z]}}", "{_write: {_name: _N, V: [0, z]}}", "{_name: N, _usage: read, V: [0, z]}"] {
        bodies.push(s.into());
    }
    let mut cases = vec![];
    let eds = [json!({"ed": "enum"}), json!({"ed": "field"}), json!({"ed": "none"}), json!({"uf": false})];
    // one field: every access of register and field, every existing enumeration
    for ra in accs {
        for fa in accs {
            for (pi, p) in present.iter().enumerate() {
                if !ctx.thorough && !ra.is_empty() && !fa.is_empty() && pi > 2 {
                    continue;
                }
                let src = fld("S", 20, 2, &(a(fa) + &evs("SRC", if (pi + fa.len()) % 2 == 0 { "" } else { "read" }, &[("K", 0)])));
                let f = fld("F", 4, 2, &(a(fa) + p));
                let svd = dev(&per("P", 0, "", &reg("R", 0).props(&a(ra)).fields(&(f + &src)).x()));
                for b in &bodies {
                    cases.push(case(&svd, &at(&["P", "R"], &format!("{{F: {b}}}")), &eds[0]));
                }
            }
        }
    }
    // several fields at once
    let lay: &[[u32; 3]] = &[[0, 4, 8], [8, 4, 0], [4, 0, 8], [4, 8, 0]];
    for fa in ["", "read-only", "write-only"] {
        for l in lay {
            for (w2, pi, dimd) in [(2, 0, false), (3, 0, false), (2, 1, false), (2, 2, false), (2, 5, false), (2, 0, true), (2, 1, true)] {
                let fs: String = (0..3)
                    .map(|i| {
                        let w = if i == 2 { w2 } else { 2 };
                        let e = if i == 1 { present[pi].clone() } else { String::new() };
                        if dimd && i == 0 {
                            fldd(&dim(2, 12, None), "F%s", None, l[i], w, &(a(fa) + &e))
                        } else {
                            fld(&format!("F{i}"), l[i], w, &(a(fa) + &e))
                        }
                    })
                    .collect();
                let src = fld("SF", 28, 2, &(a(fa) + &evs("SRC", "", &[("K", 0)])));
                let svd = dev(&per("P", 0, "", &(reg("R", 0).fields(&(fs.clone() + &src)).x() + &reg("R2", 4).fields(&(fs + &src)).x())));
                for b in &bodies {
                    for s in ["F*", "F0,F2", "F[12]", "?~F*", "?~N*", "F?"] {
                        for (ei, ed) in eds.iter().enumerate() {
                            if ei > 0 && s != "F*" && !ctx.thorough {
                                continue;
                            }
                            let path: &[&str] = if s == "F?" { &["P", "R*"] } else { &["P", "R"] };
                            cases.push(case(&svd, &at(path, &format!("{{{}: {b}}}", q(s))), ed));
                        }
                    }
                }
            }
        }
    }
    // names that give unusual names to the values
    for n in ["0F", "1", "_F", "F%s", "F[%s]", "Fx", "%sF", "9%s"] {
        let f = |o| if n.contains("%s") { fldd(&dim(2, 2, None), n, None, o, 2, "") } else { fld(n, o, 2, "") };
        let svd = dev(&per("P", 0, "", &(reg("R", 0).fields(&f(4)).x() + &reg("R2", 4).fields(&f(0)).x())));
        for b in &bodies {
            for (r, s) in [("R", "*"), ("R*", "*[0-9Fx%s_]")] {
                cases.push(case(&svd, &at(&["P", r], &format!("{{{}: {b}}}", q(s))), &eds[cases.len() % 4]));
            }
        }
    }
    // sequences: two rules on overlapping fields in one document
    let fs: String = (0..3).map(|i| fld(&format!("F{i}"), 4 * i, 2, "")).collect();
    let svd = dev(&per("P", 0, "", &reg("R", 0).fields(&fs).x()));
    let short: Vec<&String> = bodies.iter().filter(|b| !b.contains("_RM") && !b.contains("_WS") && !b.contains("_W0") && !b.contains("_WM") && !b.contains("_RS")).collect();
    for b1 in &short {
        for b2 in &short {
            let b2 = b2.replace("SRC", "F0");
            for (s1, s2) in [("F0", "F*"), ("F0", "F1"), ("F*", "F?"), ("F1,F2", "F0,F1"), ("F*", "F1"), ("F0,F1", "F1,F2"), ("F1", "F*"), ("F2", "F*")] {
                for ed in &eds[..3] {
                    cases.push(case(&svd, &at(&["P", "R"], &format!("{{{}: {b1}, {}: {b2}}}", q(s1), q(s2))), ed));
                }
            }
        }
    }
    // whether a field that becomes a derived one keeps an effect of its own depends on the order in
    // which values and effect are given, not what the field does
    let apart = |d: &str| d.contains("_write: {") && ["_WM: {}", "_WS: {}", "_WC: {}", "_W1S: {}", "_W0C: {}", "_W1C: {}", "_W0S: {}", "_W1T: {}", "_W0T: {}"].iter().any(|w| d.contains(w));
    cases.retain(|c| c.input["cfg"]["ed"] != "field" || !apart(c.input["doc"].as_str().unwrap()));
    ctx.run(cases.into_iter());
}

// ------------------------------------------------------------------ C15 constraints, actions, clearing
pub fn constraints(ctx: &Ctx) {
    crate::spaces12::constraints(ctx);
    let enumd = evs("E", "", &[("X", 0)]);
    let wc = "<writeConstraint><range><minimum>0</minimum><maximum>3</maximum></range></writeConstraint>";
    let wu = "<writeConstraint><useEnumeratedValues>true</useEnumeratedValues></writeConstraint>";
    let all = format!("<modifiedWriteValues>set</modifiedWriteValues>{wc}<readAction>set</readAction>{enumd}");
    let fs = fld("A", 0, 2, "") + &fld("B", 2, 2, wc) + &fld("C", 4, 2, &enumd) + &fld("D", 6, 2, &all) + &fld("E", 8, 2, wu)
        + "<field derivedFrom=\"D\"><name>DD</name><bitOffset>10</bitOffset><bitWidth>2</bitWidth><writeConstraint><range><minimum>0</minimum><maximum>1</maximum></range></writeConstraint></field>"
        + &fldd(&dim(2, 2, None), "AR%s", None, 12, 2, &all);
    let r = |n: &str, o| reg(n, o).fields(&fs).x();
    let body = r("R", 0) + &r("S", 4) + &reg("T", 8).from("R").fields(&fld("A", 0, 2, wc)).x() + &clu("", "C", 0x20, &(r("R", 0) + &clu("", "CC", 0x20, &r("Q", 0))));
    let svd = dev(&(per("P", 0, "", &body) + &per_from("PD", "P", 0x100, "") + &per("O", 0x200, "", &r("R", 0)) + &per("N", 0x300, "", "")));
    let mut d = vec![];
    let sel = ["A", "B", "C", "D", "E", "DD", "AR*", "*", "A,D", "[BCD]", "NOPE", "?~NOPE"];
    for s in ["P", "O", "P*", "*", "N", "NOPE", "?~NOPE", "P,O"] {
        d.push(format!("{{_clear_fields: {}}}", q(s)));
        d.push(format!("{{_clear_fields: [{}, O]}}", q(s)));
    }
    for p in [&["P"][..], &["P", "C"], &["*"], &["P", "C", "CC"], &["PD"], &["N"]] {
        for s in ["R", "S", "T", "Q", "*", "[RQ]", "R,S", "NOPE", "C", "?~R"] {
            d.push(at(p, &format!("{{_clear_fields: {}}}", q(s))));
            d.push(at(p, &format!("{{_clear_fields: [{}]}}", q(s))));
            d.push(at(p, &format!("{{_clear_fields: [{}, 5]}}", q(s))));
        }
    }
    for p in [&["P", "R"][..], &["P", "T"], &["P", "C", "R"], &["O", "*"], &["PD", "R"]] {
        for s in sel {
            let k = q(s);
            d.push(at(p, &format!("{{_clear: {k}}}")));
            d.push(at(p, &format!("{{_clear: [{k}, C]}}")));
            d.push(at(p, &format!("{{_clear: [{k}, 5]}}")));
            for r in ["[0, 3]", "[1, 2]", "['0x1', '0b11']", "[3, 0]", "[0]", "[0, 1, 2]", "[]", "[a, b]", "none", "5"] {
                d.push(at(p, &format!("{{{k}: {r}}}")));
            }
            for m in [
                "_write_constraint: none", "_write_constraint: enum", "_write_constraint: [0, 2]", "_write_constraint: ['0x0', '3']", "_write_constraint: bad", "_write_constraint: [1]", "_write_constraint: 5",
                "writeConstraint: none", "writeConstraint: enum", "writeConstraint: [0, 2]", "_write_constraint: none, writeConstraint: [0, 1]",
                "readAction: clear", "readAction: set", "readAction: modify", "readAction: modifyExternal", "readAction: bad", "modifiedWriteValues: oneToClear", "modifiedWriteValues: oneToSet",
                "modifiedWriteValues: oneToToggle", "modifiedWriteValues: zeroToClear", "modifiedWriteValues: zeroToSet", "modifiedWriteValues: zeroToToggle", "modifiedWriteValues: clear",
                "modifiedWriteValues: set", "modifiedWriteValues: modify", "modifiedWriteValues: bad", "access: read-only, readAction: clear", "access: ''", "access: read-writeOnce",
            ] {
                d.push(at(p, &format!("{{_modify: {{{k}: {{{m}}}}}}}")));
            }
            for m in ["{_RM: {}}", "{_RS: {}}", "{_RC: {}}", "{_RME: {}}", "{_WM: {}}", "{_WS: {}}", "{_WC: {}}", "{_W1S: {}}", "{_W0C: {}}", "{_W1C: {}}", "{_W0S: {}}", "{_W1T: {}}", "{_W0T: {}}", "{_read: {}}", "{_write: {}}", "{_RC: {}, _W1C: {}}", "{_W1C: }", "{_W1C: 5}"] {
                d.push(at(p, &format!("{{{k}: {m}}}")));
            }
        }
    }
    bfs(ctx, &[&svd], &d, 1, &cfg0());
    let few: Vec<String> = d.iter().filter(|x| x.contains("'D'") || x.contains("'*'") || x.contains("_clear_fields")).step_by(ctx.tier(7, 1)).cloned().collect();
    bfs(ctx, &[&svd], &few, 2, &cfg0());
}

// ------------------------------------------------------------------ C16 derived elements
pub fn derived(ctx: &Ctx) {
    let enumd = evs("E", "", &[("X", 0)]);
    let fs = fld("F", 0, 1, &enumd) + &fld("G", 1, 1, "");
    let body = reg("R", 0).fields(&fs).x() + &reg("S", 4).from("R").x() + &reg("T0", 8).x() + &reg("T1", 12).x() + &reg("U", 0x10).from("R").fields(&fld("H", 3, 2, "")).x() + &clu(&dim(2, 0x10, None), "C%s", 0x20, &(reg("R", 0).fields(&fs).x() + &reg("S", 4).from("R").x()));
    let ints = int("I0", 1, "i") + &int("I1", 2, "");
    let svd = dev(&(per("P", 0, &ints, &body) + &per_from("Q", "P", 0x100, &ints.replace('I', "J"))
        + &format!("<peripheral derivedFrom=\"P\"><name>QQ</name><baseAddress>512</baseAddress><registers>{}</registers></peripheral>", reg("OWN", 0x40).fields(&fs).x())));
    let mut d = vec![];
    let rules = [
        "{_delete: R}", "{_delete: '*'}", "{_delete: {_registers: R}}", "{_delete: {_interrupts: '?0'}}", "{_delete: {_interrupts: '*', _registers: '*'}}", "{_delete: {_clusters: 'C*'}}", "{_modify: {R: {description: x}}}",
        "{_modify: {NOPE: {description: x}}}", "{_modify: {_interrupts: {'?1': {value: 9}}}}", "{_modify: {_interrupts: {'*': {description: z}}, R: {size: 8}}}", "{_modify: {_registers: {R: {size: 8}}}}",
        "{_add: {N: {addressOffset: 0x50}}}", "{_add: {_interrupts: {K: {value: 8}}}}", "{_add: {_interrupts: {J0: {value: 8}}}}", "{_add: {_interrupts: {I0: {value: 8}}}}", "{_add: {_registers: {N: {addressOffset: 0x50}}}}",
        "{_add: {_clusters: {N: {addressOffset: 0x50}}}}", "{_copy: {N: {_from: R}}}", "{_derive: {N: R}}", "{_strip: R}", "{_strip_end: R}", "{_prefix: X}", "{_suffix: X}", "{_clear_fields: '*'}", "{_array: {'T?': {}}}",
        "{_cluster: {'CL%s': {'T?': {}}}}", "{_expand_cluster: 'C%s'}", "{_clusters: {'C%s': {_delete: R}}}", "{R: {F: {V: [0, d]}}}", "{R: {_delete: F}}", "{S: {_delete: F}}", "{S: {F: {V: [0, d]}}}", "{S: {NOPE: {V: [0, d]}}}",
        "{S: {_add: {N: {bitOffset: 9, bitWidth: 1}}}}", "{U: {_delete: H}}", "{U: {_modify: {H: {name: I}}}}", "{U: {H: [0, 1]}}", "{U: {_merge: H}}", "{U: {_split: H}}", "{U: {_array: {'H?': {}}}}", "{U: {_clear: '*'}}",
        "{U: {_derive: {H: F}}}", "{U: {_strip: H}}", "{U: {_prefix: H}}", "{'?~NOPE': {}}", "{NOPE: {}}", "{OWN: {_delete: F}}", "{'C*': {S: {_delete: F}}}", "{'C*': {R: {_delete: F}}}", "{'C*': {S: {_add: {N: {bitOffset: 9, bitWidth: 1}}}}}",
        "{'C*': {_delete: S}}", "{'[RSU]': {_prefix: Z}}", "{'*': {_add: {N: {bitOffset: 9, bitWidth: 1}}}}", "{_modify: {S: {description: x}}}", "{_modify: {'[RSU]': {size: 8}}}", "{_delete: S}",
        "{_modify: {_interrupts: {NOPE: {value: 1}}}}", "{_delete: 5}", "{_add: {_interrupts: {K: {description: z}}}}", "{_delete: {_interrupts: I0}, _modify: {_interrupts: {I1: {value: 7}}}, _add: {_interrupts: {I0: {value: 7}}}}",
        "{_interrupts: {X: {}}}", "{_modify: {_interrupts: {'?0': {name: NEW}}}}",
    ];
    for r in rules {
        for p in ["P", "Q", "QQ", "*", "Q*", "P,Q", "?~Q", "Q,NOPE"] {
            d.push(at(&[p], r));
        }
    }
    for m in ["description: x", "baseAddress: 5", "size: 8, resetValue: 4", "interrupts: {J0: {value: 66}}", "addressBlock: {offset: 0, size: 4, usage: registers}", "registers: {X: {addressOffset: 0}}", "name: Z", "groupName: GG", "access: read-only", "displayName: DN"] {
        for p in ["Q", "QQ", "P", "*"] {
            d.push(format!("{{_modify: {{{}: {{{m}}}}}}}", q(p)));
        }
    }
    d.push("{_clear_fields: '*'}".into());
    d.push("{_clear_fields: 'Q*'}".into());
    bfs(ctx, &[&svd], &d, 2, &cfg0());
}

// ------------------------------------------------------------------ C17 rule phases
pub fn phases(ctx: &Ctx) {
    crate::spaces12::phases(ctx);
    // every subset of <= k rules in every order of writing: same result
    let per_rules = [
        "_delete: D*", "_copy: {CPY: {_from: A0, addressOffset: 0x60}}", "_strip: X_", "_strip_end: _Y", "_prefix: P", "_suffix: S", "_modify: {'*A0*': {description: m}}", "_clear_fields: '*'",
        "_add: {NEW: {addressOffset: 0x70}}", "_derive: {DRV: {_from: '*', addressOffset: 0x80}}", "'*A0*': {_modify: {F: {description: r}}}", "_expand_array: {'*E%s*': {}}", "_array: {'*T[0-1]': {}}",
        "_cluster: {'CL%s': {'*U[0-1]': {}}}", "_clusters: {'*': {_modify: {Z: {description: z}}}}", "_expand_cluster: {'K*': {_preindex: ''}}", "_array: {'*[0-1]': {}}", "_modify: {DEL: {name: KEPT}}",
        "_derive: {DRV: A0}", "_add: {T2: {addressOffset: 0x98}}", "_cluster: {'K%s': {'*T[0-1]': {}}}", "'?~*T*': {_add: {W: {bitOffset: 20, bitWidth: 1}}}",
    ];
    let body = reg("A0", 0).desc("a").fields(&fld("F", 0, 1, &evs("", "", &[("V", 0)]))).x() + &reg("DEL", 4).x() + &reg("X_B", 8).x() + &reg("C_Y", 12).x() + &reg("E%s", 0x10).dim(dim(2, 4, None)).x()
        + &reg("T0", 0x90).x() + &reg("T1", 0x94).x() + &reg("U0", 0xa0).x() + &reg("U1", 0xa4).x() + &clu(&dim(2, 0x10, None), "K%s", 0x100, &reg("Z", 0).x());
    let svd = dev(&(per("P", 0, "", &body) + &per("Q", 0x1000, "", &clu("", "CC", 0, &body))));
    let mut docs = vec![];
    let kk = ctx.tier(3, 4);
    let mut subsets: Vec<Vec<usize>> = vec![];
    fn rec(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() >= 2 {
            out.push(cur.clone());
        }
        if cur.len() == k {
            return;
        }
        for i in from..n {
            cur.push(i);
            rec(n, k, i + 1, cur, out);
            cur.pop();
        }
    }
    rec(per_rules.len(), kk, 0, &mut vec![], &mut subsets);
    let key = |r: &str| r.split(':').next().unwrap().to_string();
    for s in &subsets {
        let rules: Vec<&str> = s.iter().map(|i| per_rules[*i]).collect();
        let mut keys: Vec<String> = rules.iter().map(|r| key(r)).collect();
        keys.sort();
        keys.dedup();
        if keys.len() < rules.len() {
            continue;
        }
        // at most one child rule per document, so that only phases are reordered
        if rules.iter().filter(|r| r.starts_with('\'')).count() > 1 {
            continue;
        }
        for p in perms(&rules) {
            docs.push(format!("{{P: {{{}}}}}", p.join(", ")));
            if !rules.iter().any(|r| r.starts_with("_expand_cluster")) {
                docs.push(format!("{{Q: {{CC: {{{}}}}}}}", p.join(", ")));
            }
        }
    }
    ctx.note("peripheral_and_cluster_orders", docs.len());
    bfs(ctx, &[&svd], &docs, 1, &cfg0());
    // device
    let dev_rules = [
        "_delete: B", "_copy: {N: {from: A}}", "_modify: {A: {description: m}}", "_clear_fields: '*'", "_add: {M: {baseAddress: 0x5000}}", "_derive: {C: A}", "_rebase: {C: D}", "'*': {'?~R': {_modify: {F: {description: x}}}}",
        "_modify: {name: NN}", "_modify: {B: {name: BB}}", "_copy: {C: {from: B}}", "_derive: {B: C}", "_rebase: {A: C}", "_add: {B: {baseAddress: 1}}", "_derive: {M: N}",
    ];
    let f = fld("F", 0, 1, &evs("", "", &[("V", 0)]));
    let ps: String = ["A", "B", "C", "D"].iter().enumerate().map(|(i, n)| per(n, 0x1000 * i as u64, &int(&format!("I{n}"), i as u32, ""), &reg("R", 0).desc(n).fields(&f).x())).collect();
    let svd = dev(&ps);
    let mut subsets = vec![];
    rec(dev_rules.len(), ctx.tier(4, 5), 0, &mut vec![], &mut subsets);
    let mut docs = vec![];
    for s in &subsets {
        let rules: Vec<&str> = s.iter().map(|i| dev_rules[*i]).collect();
        let mut keys: Vec<String> = rules.iter().map(|r| key(r)).collect();
        keys.sort();
        keys.dedup();
        if keys.len() < rules.len() {
            continue;
        }
        for p in perms(&rules) {
            docs.push(format!("{{{}}}", p.join(", ")));
        }
    }
    ctx.note("device_orders", docs.len());
    bfs(ctx, &[&svd], &docs, 1, &cfg0());
    // register
    let reg_rules = [
        "_delete: D", "_strip: X_", "_strip_end: _Y", "_prefix: P", "_suffix: S", "_clear: '*'", "_modify: {'*F*': {description: m}}", "_add: {N: {bitOffset: 20, bitWidth: 2}}", "_derive: {M: {_from: '*', bitOffset: 24, bitWidth: 1}}",
        "_merge: {G: ['*A0*', '*A1*']}", "_split: '*W*'", "'*F*': {V: [0, d]}", "_array: {'*B[0-1]*': {}}", "_modify: {D: {name: KEPT}}", "_derive: {M: {_from: F, bitOffset: 24, bitWidth: 1}}", "_merge: {G: 'N*'}", "_array: {'W[0-1]': {}}", "'*[AB]0*': [0, 1]",
    ];
    let fs = fld("F", 0, 1, "") + &fld("D", 1, 1, "") + &fld("X_E", 2, 1, &evs("", "", &[("V", 0)])) + &fld("E_Y", 3, 1, "") + &fld("A0", 4, 1, "") + &fld("A1", 5, 1, "") + &fld("W", 6, 2, "") + &fld("B0", 8, 1, "") + &fld("B1", 9, 1, "");
    let svd = dev(&per("P", 0, "", &reg("R", 0).fields(&fs).x()));
    let mut subsets = vec![];
    rec(reg_rules.len(), kk, 0, &mut vec![], &mut subsets);
    let mut docs = vec![];
    for s in &subsets {
        let rules: Vec<&str> = s.iter().map(|i| reg_rules[*i]).collect();
        let mut keys: Vec<String> = rules.iter().map(|r| key(r)).collect();
        keys.sort();
        keys.dedup();
        if keys.len() < rules.len() || rules.iter().filter(|r| r.starts_with('\'')).count() > 1 {
            continue;
        }
        for p in perms(&rules) {
            docs.push(format!("{{P: {{R: {{{}}}}}}}", p.join(", ")));
        }
    }
    ctx.note("register_orders", docs.len());
    bfs(ctx, &[&svd], &docs, 1, &cfg0());
}

// ------------------------------------------------------------------ C22 literals
pub fn literals(ctx: &Ctx) {
    let svd = dev(&per("P", 0, "", &(reg("R", 0).fields(&fld("F", 0, 4, "")).x() + &reg("S", 4).x())));
    let toks = ["0x", "0X", "0b", "#", "_", "1", "0", "7", "9", "f", "A", "x"];
    let w = words(&toks, ctx.tier(3, 4));
    let mut docs = vec![];
    for s in &w {
        for quoted in [q(s), s.to_string()] {
            if quoted.starts_with(['#', '_']) || load(&format!("{{a: {quoted}}}")).is_none() {
                continue;
            }
            // small enough for every place it is used in
            docs.push(format!("{{_modify: {{P: {{baseAddress: {quoted}}}}}}}"));
            docs.push(format!("{{P: {{_modify: {{S: {{resetValue: {quoted}}}}}}}}}"));
            docs.push(format!("{{P: {{R: {{F: {{V: [{quoted}, d]}}}}}}}}"));
            if s.len() <= 6 {
                docs.push(format!("{{P: {{_add: {{N: {{addressOffset: {quoted}, size: 32}}}}}}}}"));
                docs.push(format!("{{P: {{R: {{F: [0, {quoted}]}}}}}}"));
            }
        }
        if s.starts_with(['#', '_']) {
            docs.push(format!("{{_modify: {{P: {{baseAddress: {}}}}}}}", q(s)));
            docs.push(format!("{{P: {{R: {{F: {{V: [{}, d]}}}}}}}}", q(s)));
        }
    }
    for b in ["true", "false", "True", "False", "TRUE", "FALSE", "yes", "no", "1", "0", "'1'", "'0'", "'true'", "'false'", "'True'", "'False'", "2", "'2'", "maybe", "1.0", "[true]", "{}", "", "~", "-1", "0x1", "0x0"] {
        for k in ["mpuPresent", "fpuPresent", "vendorSystickConfig", "dspPresent", "fpuDP", "icachePresent"] {
            docs.push(format!("{{_modify: {{cpu: {{name: CM4, revision: r, endian: little, mpuPresent: false, fpuPresent: false, nvicPrioBits: 3, vendorSystickConfig: false, {k}: {b}}}}}}}").replacen(&format!("{k}: false, "), "", 1));
        }
        docs.push(format!("{{P: {{_expand_cluster: {{'?~X': {{_zeroindex: {b}}}}}}}}}"));
    }
    for (k, ok) in [("size", ["8", "16", "0x20"]), ("resetMask", ["0xFFFF_FFFF", "'0b1111'", "#"]), ("addressUnitBits", ["8", "'0x8'", "1_6"]), ("width", ["32", "'0b100000'", "0x4_0"])] {
        for o in ok {
            docs.push(format!("{{_modify: {{{k}: {o}}}}}").replace("#}", "'#1'}"));
        }
    }
    ctx.note("literals", w.len());
    bfs(ctx, &[&svd], &docs, 1, &cfg0());
    // numbers at and around every size that some attribute has, in every notation, at every
    // place that takes a number
    let mut docs = vec![];
    let mut nums: Vec<i128> = vec![0, 1, 7, 8, 9, 10, 31, 32, 64, 99, 0xab, 0xff, 0x100, 0xffff, 0x10000, 0xdeadbeef, 0x8765_4321_0fed_cba9 >> 1, -1, -2, -(1 << 31), -(1 << 32), i64::MIN as i128];
    for b in [31, 32, 33, 52, 63, 64] {
        nums.extend([(1i128 << b) - 1, 1 << b, (1 << b) + 1]);
    }
    let places = [
        "{_modify: {resetValue: #}}", "{_modify: {resetMask: #}}", "{_modify: {size: #}}", "{_modify: {width: #}}", "{_modify: {addressUnitBits: #}}",
        "{_modify: {P: {baseAddress: #}}}", "{_modify: {P: {size: #}}}", "{_modify: {P: {resetValue: #, size: 64}}}", "{_modify: {P: {addressBlock: {offset: #, size: 4, usage: registers}}}}", "{_modify: {P: {addressBlocks: [{offset: 4, size: #, usage: registers}]}}}",
        "{_modify: {P: {interrupts: {I: {value: #}}}}}", "{P: {_add: {_interrupts: {N: {value: #}}}}}", "{P: {_modify: {_interrupts: {I: {value: #}}}}}", "{_add: {N: {baseAddress: #}}}",
        "{_modify: {cpu: {nvicPrioBits: #}}}", "{_modify: {cpu: {deviceNumInterrupts: #}}}", "{_modify: {cpu: {sauNumRegions: #}}}",
        "{P: {_modify: {R: {addressOffset: #}}}}", "{P: {_modify: {R: {size: #}}}}", "{P: {_modify: {R: {resetValue: #, size: 64}}}}", "{P: {_modify: {R: {resetMask: #, size: 64}}}}", "{P: {_modify: {R: {dim: #, dimIncrement: 4, name: 'R%s'}}}}", "{P: {_modify: {R: {dim: 2, dimIncrement: #, name: 'R%s'}}}}",
        "{P: {_modify: {C: {addressOffset: #}}}}", "{P: {_add: {N: {addressOffset: #}}}}", "{P: {_add: {_clusters: {N: {addressOffset: #}}}}}", "{P: {_copy: {N: {_from: R, addressOffset: #}}}}", "{P: {_derive: {N: {_from: R, addressOffset: #}}}}", "{P: {_array: {'R': {dimIncrement: #, name: 'R%s'}}}}", "{P: {_cluster: {'K%s': {dimIncrement: #, R: {}}}}}",
        "{P: {R: {_modify: {F: {bitOffset: #}}}}}", "{P: {R: {_modify: {F: {bitWidth: #}}}}}", "{P: {R: {_modify: {F: {msb: #, lsb: 3}}}}}", "{P: {R: {_modify: {F: {msb: 31, lsb: #}}}}}", "{P: {R: {_add: {N: {bitOffset: #, bitWidth: 1}}}}}",
        "{P: {R: {F: [0, #]}}}", "{P: {R: {F: [#, 0xffffffff]}}}", "{P: {R: {F: {V: [#, d]}}}}", "{P: {R: {F: {_read: {V: [#, d]}}}}}", "{P: {R: {F: {V: [0, d], W: [#, e]}}}}", "{P: {R: {_modify: {F: {_write_constraint: [0, #]}}}}}", "{P: {R: {_modify: {F: {writeConstraint: [#, 9]}}}}}",
        "{P: {R: {_modify: {F: {dim: #, dimIncrement: 1, name: 'F%s'}}}}}",
    ];
    let cpu = "<cpu><name>CM4</name><revision>r</revision><endian>little</endian><mpuPresent>false</mpuPresent><fpuPresent>false</fpuPresent><nvicPrioBits>3</nvicPrioBits><vendorSystickConfig>false</vendorSystickConfig></cpu><addressUnitBits>";
    let wide = dev(&per("P", 0, &int("I", 1, "d"), &(reg("R", 0).fields(&fld("F", 0, 32, "")).x() + &clu("", "C", 0x40, &reg("X", 0).x())))).replacen("<addressUnitBits>", cpu, 1);
    for n in nums {
        let (sign, a) = (if n < 0 { "-" } else { "" }, n.unsigned_abs());
        let dec: String = a.to_string();
        let grouped = |s: &str| s.bytes().rev().enumerate().fold(String::new(), |t, (i, b)| format!("{}{}{t}", b as char, if i > 0 && i % 4 == 0 { "_" } else { "" }));
        let bin = format!("{a:b}");
        let mut forms = vec![dec.clone(), grouped(&dec), format!("0x{a:x}"), format!("0x{a:X}"), format!("0X{a:X}"), format!("0x{}", grouped(&format!("{a:x}"))), format!("0x000000000000000000{a:x}"), format!("0b{bin}"), format!("0b{}", grouped(&bin)), format!("#{bin}"), format!("#{}", bin.replace('0', "x")), format!("0b{}", bin.replace('0', "x"))];
        forms.dedup();
        for f in forms {
            for t in [format!("{sign}{f}"), format!("'{sign}{f}'")] {
                if t.starts_with('#') {
                    continue;
                }
                docs.extend(places.iter().map(|p| p.replace('#', &t)));
            }
        }
    }
    ctx.note("wide_literals", docs.len());
    bfs(ctx, &[&wide], &docs, 1, &cfg0());
}

// ------------------------------------------------------------------ C28 path interpolation
pub fn interpolation(ctx: &Ctx) {
    let body = |d: u64| reg("R", d).fields(&fld("F", 0, 1, "")).x() + &reg("T0", d + 4).x() + &reg("T1", d + 8).x();
    let svd = dev(&(per("P", 0, "", &(body(0) + &clu("", "C", 0x40, &(body(0) + &clu("", "CC", 0x40, &body(0)))))) + &per("Q", 0x1000, "", &body(0))));
    let toks = ["`peripheral`", "`block_path`", "`register`", "`register_path`", "x", ".", "`", "`nope`"];
    let mut docs = vec![];
    for t in words(&toks, ctx.tier(2, 3)) {
        let t = q(&t);
        for p in [
            &["P"][..], &["P", "C"], &["P", "C", "CC"], &["*"], &["P", "_clusters", "C"], &["P", "_clusters", "C", "CC"], &["P", "C", "_clusters", "CC"],
            &["P", "_clusters", "C*", "_clusters", "C*"],
        ] {
            docs.push(at(p, &format!("{{_modify: {{R: {{description: {t}}}}}}}")));
            docs.push(at(p, &format!("{{_modify: {{'?~C*': {{description: {t}}}}}}}")));
            docs.push(at(p, &format!("{{_add: {{N: {{addressOffset: 0x20, description: {t}, derivedFrom: R}}}}}}")));
            docs.push(at(p, &format!("{{_add: {{_clusters: {{N: {{addressOffset: 0x200, description: {t}}}}}}}}}")));
            docs.push(at(p, &format!("{{_copy: {{N: {{_from: R, addressOffset: 0x20, description: {t}}}}}}}")));
            docs.push(at(p, &format!("{{_derive: {{N: {{_from: R, addressOffset: 0x20, description: {t}}}}}}}")));
            docs.push(at(p, &format!("{{R: {{_modify: {{F: {{description: {t}}}}}}}}}")));
            docs.push(at(p, &format!("{{R: {{_modify: {{F: {{derivedFrom: {t}}}}}}}}}")));
            docs.push(at(p, &format!("{{R: {{_add: {{N: {{bitOffset: 4, bitWidth: 1, description: {t}}}}}}}}}")));
            docs.push(at(p, &format!("{{R: {{_derive: {{N: {{_from: F, bitOffset: 4, bitWidth: 1, description: {t}}}}}}}}}")));
            docs.push(at(p, &format!("{{_array: {{'T?': {{_modify: {{'?~F': {{description: {t}}}}}, _add: {{N: {{bitOffset: 4, bitWidth: 1, description: {t}}}}}}}}}}}")));
            docs.push(at(p, &format!("{{_cluster: {{'CL%s': {{'T?': {{_add: {{N: {{bitOffset: 4, bitWidth: 1, description: {t}}}}}}}}}}}}}")));
            docs.push(at(p, &format!("{{_modify: {{R: {{derivedFrom: {t}}}}}}}")));
        }
        docs.push(format!("{{_modify: {{P: {{description: {t}}}}}}}"));
        docs.push(format!("{{_modify: {{description: {t}}}}}"));
        docs.push(format!("{{_add: {{N: {{baseAddress: 5, description: {t}}}}}}}"));
    }
    bfs(ctx, &[&svd], &docs, 1, &cfg0());
}
