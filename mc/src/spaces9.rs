//! The listings and dependencies of the Python implementation.
use crate::engine::*;
use crate::files::*;
use crate::patchx::*;
use crate::pyx::py;
use crate::spaces2::product;
use crate::spaces5::{mmap_lines, DESCS};
use crate::svd::*;
use serde_json::{json, Map};
use std::collections::BTreeSet;

/// kind "pyints": {svd}
pub fn h_pyints(c: &Case) -> Outcome {
    let d = fresh();
    let svd = svd_text(c.input["svd"].as_str().unwrap());
    std::fs::write(d.join("in.svd"), &svd).unwrap();
    let device = parse_lax(&svd).expect("alphabet");
    let mut want: Vec<(u32, String)> = vec![];
    for p in &device.peripherals {
        for i in &p.interrupt {
            want.push((i.value, format!("{} {}: {} (in {})", i.value, i.name, i.description.as_deref().unwrap_or("").replace("\r\n", " ").replace('\n', " "), p.name)));
        }
    }
    want.sort_by_key(|w| w.0);
    let mut gaps = vec![];
    let mut next = 0;
    for (v, _) in &want {
        gaps.extend((next..*v).map(|g| g.to_string()));
        next = v + 1;
    }
    let mut lines: Vec<String> = want.into_iter().map(|w| w.1).collect();
    let mut o = Outcome { transitions: 2, nontrivial: !lines.is_empty(), class: format!("{} interrupts", lines.len().min(4)), ..Default::default() };
    for g in [false, true] {
        if g {
            lines.push(format!("Gaps: {}", gaps.join(", ")));
        }
        let got = match py("interrupts", json!([d.join("in.svd"), g])) {
            Ok(v) => v.as_str().unwrap_or("").to_string(),
            Err(e) => return Outcome::fail(format!("failed: {e}\n{svd}")),
        };
        if got != lines.join("\n") {
            return Outcome::fail(format!("gaps {g}\n{svd}\n{}", first_diff(&lines.join("\n"), &got)));
        }
        o.states.push(fnv(got.as_bytes()));
        // and from the command line, where gaps are the default
        for a in [vec!["interrupts"], vec!["interrupts", "--gaps"], vec!["interrupts", "--no-gaps"]] {
            if g == (a.last() != Some(&"--no-gaps")) {
                let mut a: Vec<String> = a.into_iter().map(|s| s.into()).collect();
                a.push(d.join("in.svd").to_string_lossy().into());
                let out = py("cli", json!(a));
                if out != Ok(json!(format!("{got}\n"))) {
                    return Outcome::fail(format!("the command {a:?} prints {out:?} but not\n{got}\n{svd}"));
                }
            }
        }
    }
    o
}
/// kind "pymmap": {svd}
pub fn h_pymmap(c: &Case) -> Outcome {
    let d = fresh();
    let svd = svd_text(c.input["svd"].as_str().unwrap());
    std::fs::write(d.join("in.svd"), &svd).unwrap();
    let dev = parse_lax(&svd).expect("alphabet");
    // addresses have eight digits here
    let mut want: Vec<String> = mmap_lines(&dev)
        .into_iter()
        .map(|l| match l.strip_prefix("0x").and_then(|t| t.split_once(' ')) {
            Some((a, t)) => format!("0x{a:0>8} {t}"),
            None => l,
        })
        // the long forms
        .map(|l| l.replace(" (wonce): ", " (writeOnce): ").replace(" (rwonce): ", " (read-writeOnce): "))
        .collect();
    want.sort();
    let got = match py("mmap", json!([d.join("in.svd")])) {
        Ok(v) => v.as_str().unwrap_or("").to_string(),
        Err(e) => return Outcome::fail(format!("failed: {e}\n{svd}")),
    };
    if got != want.join("\n") {
        return Outcome::fail(format!("{svd}\n{}", first_diff(&want.join("\n"), &got)));
    }
    let out = py("cli", json!(["mmap", d.join("in.svd")]));
    if out != Ok(json!(format!("{got}\n"))) {
        return Outcome::fail(format!("the command prints {out:?}\n{svd}"));
    }
    Outcome { transitions: 1, class: "listed".into(), nontrivial: want.len() > 1, states: vec![fnv(got.as_bytes())], ..Default::default() }
}
/// kind "pydeps": {files}
pub fn h_pydeps(c: &Case) -> Outcome {
    let d = fresh();
    let files = &c.input["files"];
    write_tree(&d, files);
    let mut inc = Includes { files, read: Default::default() };
    let want = oracle(&c.input, || inc.load("main.yaml"));
    let target = d.join("x.d");
    let r = if fnv(files.to_string().as_bytes()) % 2 == 0 { py("cli", json!(["makedeps", d.join("main.yaml"), target])) } else { py("makedeps", json!([d.join("main.yaml"), target])) };
    let mut o = Outcome { transitions: 1, ..Default::default() };
    match (want, r) {
        (Err(_), Err(_)) => o.class = "rejected".into(),
        (Err(e), Ok(_)) => return Outcome::fail(format!("accepted includes that must be rejected ({e})\n{files}")),
        (Ok(_), Err(e)) => return Outcome::fail(format!("rejected valid includes: {e}\n{files}")),
        (Ok(_), Ok(_)) => {
            let text = std::fs::read_to_string(&target).unwrap_or_default();
            let Some((t, deps)) = text.split_once(':') else { return Outcome::fail(format!("no rule: {text}")) };
            let base = d.canonicalize().unwrap();
            let got: BTreeSet<String> = deps.split_whitespace().map(|s| s.to_string()).collect();
            let want: BTreeSet<String> = inc.read.iter().map(|s| base.join(s).to_string_lossy().to_string()).collect();
            if t != target.to_string_lossy() || got != want || !text.ends_with('\n') || text.matches('\n').count() != 1 {
                return Outcome::fail(format!("{files}\n expected {want:?}\n actual {text}"));
            }
            o.class = format!("{} dependencies", want.len());
            o.nontrivial = !want.is_empty();
            o.states.push(fnv(text.replace(&*base.to_string_lossy(), "").as_bytes()));
        }
    }
    o
}
pub fn py_listings(ctx: &Ctx) {
    let mut cases = vec![];
    // interrupts: every assignment of the numbers to two peripherals or none
    let ds = ["", "<description/>", "<description>a\n b</description>", "<description>x &lt; y</description>"];
    for m in 0..3u32.pow(ctx.tier(5, 7)) {
        let mut h = [String::new(), String::new()];
        let mut k = m;
        for v in 0..7 {
            if v == 5 && !ctx.thorough {
                break;
            }
            if k % 3 < 2 {
                h[(k % 3) as usize] += &format!("<interrupt><name>I{v}</name>{}<value>{v}</value></interrupt>", ds[(m as usize + v) % 4]);
            }
            k /= 3;
        }
        for sw in [false, true] {
            let (a, b) = (per("PA", 0, &h[0], ""), per("PB", 0, &h[1], ""));
            cases.push(Case::new("pyints", json!({"svd": dev(&if sw { b + &a } else { a + &b })})));
        }
    }
    for vals in product(&[6, 6, 6]) {
        let v: Vec<u32> = vals.iter().map(|i| [0u32, 3, 9, 10, 100, 250][*i]).collect();
        if v[0] != v[1] && v[1] != v[2] && v[0] != v[2] {
            let i = |n: usize| int(&format!("N{n}"), v[n], &format!("d {n}"));
            cases.push(Case::new("pyints", json!({"svd": dev(&(per("P", 0, &(i(0) + &i(1)), &reg("A", 0).x()) + &per_from("Q", "P", 8, &i(2))))})));
        }
    }
    // memory map: direct registers, arrays and fields, with descriptions
    let mut svds = vec![];
    let bases = [0u64, 1, 9, 10, 0xF, 0xABC, 0xDEADBEEF, 0xFFFF_FFFF, 0x1_0000_0000];
    for b in bases {
        for o in [0u64, 4, 0xA, 0x10, 0xBE, 0xFF0] {
            let r = reg("A", o).desc("r").fields(&fld("F", 3, 2, "")).x();
            svds.push(dev(&per("P", b, "", &(r + &reg("B", o + 4).desc("b").x()))));
            svds.push(dev(&(per("P", b, "", &reg("A", o).desc("r").x()) + &per_from("Q", "P", b + 0x1000, ""))));
            for (n, inc, idx) in [(2, 4, None), (3, 8, Some("A,B,C")), (3, 4, Some("2-4")), (11, 4, None), (1, 4, None)] {
                svds.push(dev(&per("P", b, "", &reg("X%s", o).dim(dim(n, inc, idx)).desc("d %s").fields(&fldd(&dim(n.min(3), 5, if n == 3 { idx } else { None }), "F%s", Some("f %s"), 1, 2, "")).x())));
                let c = clu(&dim(n, 0x40, idx), "C%s", o, &(reg("A", 4).desc("a").fields(&fld("F", 3, 2, "")).x() + &reg("B", 8).desc("b").x()));
                svds.push(dev(&per("P", b, "", &c)));
                svds.push(dev(&(per("P", b, "", &c) + &per("Q", b + 0x2000, "", &reg("A", 0).desc("q").x()))));
            }
        }
    }
    for w in [1u32, 2, 9, 10, 31, 32] {
        for o in [0u32, 1, 9, 10, 31] {
            if o + w <= 32 {
                let m = o + w - 1;
                for n in [format!("<bitOffset>{o}</bitOffset><bitWidth>{w}</bitWidth>"), format!("<bitOffset>0x{o:X}</bitOffset><bitWidth>{w}</bitWidth>"), format!("<bitRange>[{m}:{o}]</bitRange>"), format!("<lsb>{o}</lsb><msb>{m}</msb>")] {
                    svds.push(dev(&per("P", 0, "", &reg("A", 0).desc("r").fields(&format!("<field><name>F</name><description>f</description>{n}</field>")).x())));
                }
            }
        }
    }
    // arrays of fields given in each notation, with each kind of index
    for (o, w) in [(0u32, 1u32), (3, 2), (10, 4)] {
        let m = o + w - 1;
        for n in [format!("<bitOffset>{o}</bitOffset><bitWidth>{w}</bitWidth>"), format!("<bitRange>[{m}:{o}]</bitRange>"), format!("<lsb>{o}</lsb><msb>{m}</msb>"), format!("<msb>{m}</msb><lsb>{o}</lsb>")] {
            for (k, idx) in [(1, None), (1, Some("7")), (2, None), (3, Some("A,B,C")), (3, Some("A-C")), (2, Some("x-y")), (3, Some("9-11")), (2, Some("5,10"))] {
                for inc in [w, w + 1, 5] {
                    svds.push(dev(&per("P", 0, "", &reg("A", 0).desc("r").fields(&format!("<field>{}<name>F%s</name><description>f %s</description>{n}</field>", dim(k, inc, idx))).x())));
                }
                svds.push(dev(&per("P", 0, "", &reg("A%s", o as u64).desc("r %s").dim(dim(k, 4, idx)).fields(&format!("<field><name>F</name><description>f</description>{n}</field>")).x())));
                svds.push(dev(&per("P", 0, "", &clu(&dim(k, 0x10, idx), "C%s", o as u64, &reg("A", 4).desc("a").fields(&format!("<field><name>F</name><description>f</description>{n}</field>")).x()))));
            }
        }
    }
    for a in ["", "read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"] {
        for b in ["", "read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"] {
            let x = |a: &str| if a.is_empty() { String::new() } else { format!("<access>{a}</access>") };
            svds.push(dev(&per("P", 0, "", &reg("A", 0).desc("r").props(&x(a)).fields(&fld("F", 0, 1, &x(b))).x())));
        }
    }
    for t in DESCS.iter().filter(|t| !t.is_empty()) {
        for i in [0, 7, 10, 99, 100, 1000] {
            svds.push(dev(&per("P", 0, &int("I", i, t), "")));
        }
        svds.push(dev(&per("P", 0, "", &reg("A", 0).desc(t).fields(&fldd("", "F", Some(t), 0, 1, "")).x())));
        svds.push(dev(&per("P", 0, "", &reg("A%s", 0).desc(t).dim(dim(2, 4, Some("5,x"))).fields(&fldd(&dim(2, 2, None), "F%s", Some(t), 0, 1, "")).x())));
        svds.push(dev(&per("P", 0, "", &clu(&dim(2, 8, None), "C%s", 0, &reg("A", 0).desc(t).x()).replace("C%s desc", t))));
    }
    let rs = [reg("A", 0x10).desc("a").x(), reg("B", 4).desc("b").x(), reg("C", 0x10).desc("c").x(), reg("D%s", 4).dim(dim(2, 6, None)).desc("d").x()];
    let fs = [fld("A", 10, 1, ""), fld("B", 2, 1, ""), fld("C", 2, 3, ""), fld("a", 9, 1, "")];
    let ps = [per("A", 0x100, &int("I", 10, "i"), &rs[0]), per("B", 0x20, &int("J", 9, "j"), ""), per("C", 0x20, &int("A", 8, "k"), &rs[1]), per("D", 0xA, &int("L", 1000, "l"), "")];
    for i in product(&[4, 4, 4]) {
        if i[0] != i[1] && i[1] != i[2] && i[0] != i[2] {
            svds.push(dev(&per("P", 0, "", &format!("{}{}{}", rs[i[0]], rs[i[1]], rs[i[2]]))));
            svds.push(dev(&per("P", 0, "", &reg("R", 0).desc("r").fields(&format!("{}{}{}", fs[i[0]], fs[i[1]], fs[i[2]])).x())));
            svds.push(dev(&format!("{}{}{}", ps[i[0]], ps[i[1]], ps[i[2]])));
        }
    }
    // a peripheral, register or field taking over from another one
    for (a, b) in [(0x10, 0x2000), (0x2000, 0x10)] {
        let p = per("PA", a, &int("I", 1, "i"), &(reg("A", 0).desc("a").fields(&fld("F", 0, 1, "")).x() + &reg("B", 4).desc("b").from("A").x()));
        svds.push(dev(&(p.clone() + &per_from("PB", "PA", b, &int("J", 2, "j")) + &per_from("PC", "PA", 0x5000, ""))));
        svds.push(dev(&(per_from("PB", "PA", b, &int("J", 2, "j")) + &p)));
    }
    svds.push(crate::spaces8::common_device());
    ctx.note("devices", svds.len() + cases.len());
    cases.extend(svds.into_iter().map(|s| Case::new("pymmap", json!({"svd": s}))));
    // dependencies: every include graph without circles on main and n files
    let n = ctx.tier(4, 5);
    let names = ["main", "a", "b", "c", "d"];
    let edges: Vec<(usize, usize)> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect();
    for bits in 0..1u64 << edges.len() {
        for lvl in 0..3usize {
            let mut f = Map::new();
            for i in 0..n {
                let mut out: Vec<String> = edges.iter().enumerate().filter(|(e, (a, _))| bits >> e & 1 == 1 && *a == i).map(|(_, (_, b))| if *b == 2 { "sub/../b.yaml".into() } else { format!("{}.yaml", names[*b]) }).collect();
                if lvl == 2 {
                    out.reverse();
                }
                let (list, nm) = (out.join(", "), names[i]);
                let t = if out.is_empty() {
                    format!("K{nm}: {{}}\n")
                } else if lvl == 1 && i % 2 == 0 {
                    format!("P: {{_include: [{list}]}}\n")
                } else {
                    format!("_include: [{list}]\nK{nm}: {{}}\n")
                };
                f.insert(format!("{nm}.yaml"), json!(t));
            }
            f.insert("sub".into(), json!({"dir": true}));
            cases.push(Case::new("pydeps", json!({ "files": f })));
        }
    }
    for (m, a, b) in [("_include: a.yaml", "_include: sub/b.yaml", "K: {}"), ("_include: [a.yaml]", "P: {_include: sub/b.yaml}", "K: {}"), ("_include: nope.yaml", "", ""), ("_include: [a.yaml]", "_include: nope.yaml", ""), ("P: {_include: nope.yaml}", "", ""), ("P: {_include: sub/b.yaml}", "K: {}", "_include: ../a.yaml"), ("_include: sub/b.yaml", "K: {}", "_include: a.yaml"), ("_include: sub/b.yaml", "K: {}", "_include: [c.yaml, ../a.yaml]")] {
        let mut f = Map::new();
        for (n, t) in [("main.yaml", m), ("a.yaml", a), ("sub/b.yaml", b), ("sub/c.yaml", "K: {}")] {
            if !t.is_empty() {
                f.insert(n.into(), json!(format!("{t}\n")));
            }
        }
        cases.push(Case::new("pydeps", json!({ "files": f })));
    }
    ctx.run(cases.into_iter());
}
