//! Listings: memory map and interrupts.
use crate::engine::*;
use crate::files::*;
use crate::patchx::*;
use crate::spaces3::small_svd;
use crate::spaces4::micro;
use crate::svd::*;
use serde_json::json;
use svd_parser::svd::{Access, Cluster, Device, DimElement, Field, Peripheral, PeripheralInfo, Register, RegisterCluster};

/// (index, name, description) of every element of an array
pub fn elements(name: &str, desc: &Option<String>, d: &DimElement) -> Vec<(String, String, Option<String>)> {
    (0..d.dim)
        .map(|i| {
            let idx = d.dim_index.as_ref().map(|v| v[i as usize].clone()).unwrap_or(i.to_string());
            let named = d.dim_array_index.as_ref().and_then(|a| a.values.iter().find(|v| v.value.map(|x| x.to_string()) == Some(idx.clone())));
            let sub = |s: &str| s.replace("[%s]", &idx).replace("%s", &idx);
            let n = named.map(|v| v.name.clone()).unwrap_or(sub(name));
            let t = named.and_then(|v| v.description.clone()).or(desc.as_deref().map(sub));
            (idx, n, t)
        })
        .collect()
}
fn words(d: &Option<String>) -> String {
    d.as_deref().unwrap_or("").split_whitespace().collect::<Vec<_>>().join(" ")
}
fn acc(a: Option<Access>) -> &'static str {
    match a {
        None => "",
        Some(Access::ReadOnly) => " (ro)",
        Some(Access::ReadWrite) => " (rw)",
        Some(Access::ReadWriteOnce) => " (rwonce)",
        Some(Access::WriteOnce) => " (wonce)",
        Some(Access::WriteOnly) => " (wo)",
    }
}
fn der(d: &Option<String>) -> String {
    d.as_ref().map(|d| format!(" (={d})")).unwrap_or_default()
}
/// the memory map as a list of lines, in document order
pub fn mmap_lines(dev: &Device) -> Vec<String> {
    let mut out = vec![];
    for p in &dev.peripherals {
        let all: Vec<(String, u64)> = match p {
            Peripheral::Single(p) => vec![(p.name.clone(), p.base_address)],
            Peripheral::Array(p, d) => elements(&p.name, &p.description, d).into_iter().enumerate().map(|(i, e)| (e.1, p.base_address + i as u64 * d.dim_increment as u64)).collect(),
        };
        // own registers or those of the nearest ancestor with registers
        let mut cur: &PeripheralInfo = p;
        let mut seen = vec![];
        let regs = loop {
            if let Some(r) = &cur.registers {
                break Some(r);
            }
            let Some(f) = &cur.derived_from else { break None };
            if seen.contains(f) {
                break None;
            }
            seen.push(f.clone());
            match dev.peripherals.iter().find(|x| &x.name == f) {
                Some(x) => cur = x,
                None => break None,
            }
        };
        for (name, base) in all {
            out.push(format!("0x{base:X} A PERIPHERAL {name}"));
            for i in &p.interrupt {
                out.push(format!("INTERRUPT {:03}: {} ({name}): {}", i.value, i.name, words(&i.description)));
            }
            for r in regs.into_iter().flatten() {
                block(r, base, "", &mut out);
            }
        }
    }
    out
}
/// `idx`: index of the cluster in its array
fn block(r: &RegisterCluster, base: u64, idx: &str, out: &mut Vec<String>) {
    match r {
        RegisterCluster::Register(r) => {
            let all = match r {
                Register::Single(i) => vec![(i.address_offset, format!("{}{idx}", i.name), i.description.clone())],
                Register::Array(i, d) => elements(&i.name, &i.description, d).into_iter().enumerate().map(|(k, e)| (i.address_offset + k as u32 * d.dim_increment, e.1, e.2)).collect(),
            };
            for (off, n, t) in all {
                let a = format!("0x{:X}", base + off as u64);
                out.push(format!("{a} B  REGISTER {n}{}{}: {}", der(&r.derived_from), acc(r.properties.access), words(&t)));
                for f in r.fields.iter().flatten() {
                    let all = match f {
                        Field::Single(i) => vec![(i.bit_offset(), i.name.clone(), i.description.clone())],
                        Field::Array(i, d) => elements(&i.name, &i.description, d).into_iter().enumerate().map(|(k, e)| (i.bit_offset() + k as u32 * d.dim_increment, e.1, e.2)).collect(),
                    };
                    for (o, n, t) in all {
                        out.push(format!("{a} C   FIELD {o:02}w{:02} {n}{}{}: {}", f.bit_width(), der(&f.derived_from), acc(f.access), words(&t)));
                    }
                }
            }
        }
        RegisterCluster::Cluster(c) => {
            let all = match c {
                Cluster::Single(i) => vec![(i.address_offset, String::new(), i.name.clone(), i.description.clone())],
                Cluster::Array(i, d) => elements(&i.name, &i.description, d).into_iter().enumerate().map(|(k, e)| (i.address_offset + k as u32 * d.dim_increment, e.0, e.1, e.2)).collect(),
            };
            for (off, idx, n, t) in all {
                let a = base + off as u64;
                out.push(format!("0x{a:X} B  CLUSTER {n}{}: {}", der(&c.derived_from), words(&t)));
                for x in &c.children {
                    block(x, a, &idx, out);
                }
            }
        }
    }
}
/// kind "mmap": {svd}
pub fn h_mmap(c: &Case) -> Outcome {
    let d = fresh();
    let svd = svd_text(c.input["svd"].as_str().unwrap());
    std::fs::write(d.join("in.svd"), &svd).unwrap();
    let r = cli(&d, &["mmap", "in.svd"]);
    let mut o = Outcome { transitions: 1, ..Default::default() };
    let Ok(dev) = svd_parser::parse(&svd) else {
        if r.ok() {
            return Outcome::fail(format!("accepted\n{svd}"));
        }
        o.class = "rejected".into();
        return o;
    };
    let mut want = oracle(&c.input, || mmap_lines(&dev));
    want.sort();
    if !r.ok() {
        return Outcome::fail(format!("failed: {}\n{svd}", r.err));
    }
    let w = want.join("\n") + "\n";
    if r.out != w {
        return Outcome::fail(format!("{svd}\n{}", first_diff(&w, &r.out)));
    }
    o.class = "listed".into();
    o.nontrivial = want.len() > 1;
    o.states.push(fnv(r.out.as_bytes()));
    o
}
/// every partial function "derived from" over n peripherals times which of them
/// have registers
pub fn derivations(n: usize) -> Vec<String> {
    let names = ["PA", "PB", "PC", "PD"];
    let mut v = vec![];
    for m in 0..(n + 1).pow(n as u32) {
        for regs in 0..1u32 << n {
            let mut k = m;
            let mut t = String::new();
            for i in 0..n {
                let f = k % (n + 1);
                k /= n + 1;
                let body = if regs >> i & 1 == 1 { reg(&format!("R{i}"), 4 * i as u64).fields(&fld("F", i as u32, 1, "")).x() } else { String::new() };
                let mut p = per(names[i], 0x1000 * (i as u64 + 1), &int(&format!("I{i}"), i as u32, ""), &body);
                if f < n {
                    p = p.replacen("<peripheral>", &format!("<peripheral derivedFrom=\"{}\">", names[f]), 1);
                }
                t += &p;
            }
            v.push(dev(&t));
        }
    }
    v
}
pub const DESCS: [&str; 11] = ["", "a\u{a0}\u{a0}b \u{2003}c", "one", "two  words", " lead", "trail ", "a\n   b", "a\r\nb", "tab\there", "&lt;&amp;&gt; : =", "é  %s"];
pub fn mmap(ctx: &Ctx) {
    let mut svds = micro();
    svds.extend(["@dev", "@nest", "@chain", "@full", "@wide"].map(String::from));
    svds.push(small_svd());
    // addresses
    let bases = [0u64, 1, 9, 10, 0xF, 0x10, 0xABC, 0xDEADBEEF, 0xFFFF_FFFF, 0x1_0000_0000, 0xFEDC_BA98_7654_3210];
    let offs = [0u64, 4, 0xA, 0x10, 0xBE, 0xFFFF_FFF0];
    for b in bases {
        for o in offs {
            let r = reg("A", o).fields(&fld("F", 3, 2, "")).x();
            let ra = reg("B%s", o).dim(dim(3, 5, None)).fields(&fldd(&dim(2, 9, None), "G%s", None, 1, 3, "")).x();
            svds.push(dev(&per("P", b, "", &r)));
            svds.push(dev(&per("P", b, "", &clu("", "C", o, &reg("A", 0xA).x()))));
            if o < 0x1000 {
                svds.push(dev(&per("P", b, "", &ra)));
                svds.push(dev(&per("P", b, "", &clu(&dim(2, 0x10, Some("x,y")), "C%s", o, &(reg("A", 0xA).x() + &ra)))));
                svds.push(dev(&per("P", b, "", &clu(&dim(2, 0x100, None), "C[%s]", o, &(reg("A", 1).x() + &clu("", "E", 3, &reg("A", 0).x()) + &clu(&dim(2, 8, Some("3-4")), "S%s", 0x20, &(reg("A", 0).x() + &ra)))))));
            }
        }
        svds.push(dev(&per("P%s", b, &int("I", 5, ""), &reg("A", 4).x()).replace("<peripheral>", &format!("<peripheral>{}", dim(3, 0x400, None)))));
    }
    // bit ranges
    for w in [1u32, 2, 9, 10, 31, 32, 64] {
        for o in [0u32, 1, 9, 10, 31, 63] {
            if o + w <= 64 {
                svds.push(dev(&per("P", 0, "", &reg("A", 0).props("<size>64</size>").fields(&fld("F", o, w, "")).x())));
                let m = o + w - 1;
                for n in [format!("<bitRange>[{m}:{o}]</bitRange>"), format!("<lsb>{o}</lsb><msb>{m}</msb>")] {
                    svds.push(dev(&per("P", 0, "", &reg("A", 0).props("<size>64</size>").fields(&format!("<field><name>F</name>{n}</field>")).x())));
                }
            }
        }
    }
    // access of the device, the peripheral, a register and a field
    let accs = ["", "<access>read-only</access>", "<access>write-only</access>", "<access>read-write</access>", "<access>writeOnce</access>", "<access>read-writeOnce</access>"];
    for a in accs {
        for b in accs {
            svds.push(dev(&per("P", 0, "", &reg("A", 0).props(a).fields(&fld("F", 0, 1, b)).x())));
            svds.push(dev(&per("P", 0, a, &clu("", "C", 0, &format!("{b}{}", reg("A", 0).fields(&fld("F", 0, 1, "")).x())))));
        }
    }
    // descriptions
    for t in DESCS {
        let e = format!("<description>{t}</description>");
        for i in [0, 7, 10, 99, 100, 1000] {
            svds.push(dev(&per("P", 0, &int("I", i, t), "")));
        }
        svds.push(dev(&per("P", 0, &e, &reg("A", 0).desc(t).fields(&fldd("", "F", Some(t), 0, 1, "")).x())));
        svds.push(dev(&per("P", 0, "", &reg("A[%s]", 0).desc(t).dim(dim(2, 4, Some("5,x"))).fields(&fldd(&dim(2, 2, None), "F%s", Some(t), 0, 1, "")).x())));
        svds.push(dev(&per("P", 0, "", &clu("", "C", 0, &reg("A", 0).x()).replace("C desc", t))));
        svds.push(dev(&per("P", 0, "", &clu(&dim(2, 8, None), "C%s", 0, &reg("A", 0).x()).replace("C%s desc", t))));
    }
    // derivation
    for n in 1..=ctx.tier(3, 4) {
        svds.extend(derivations(n));
    }
    let r = reg("A", 0).fields(&fld("F", 0, 1, "")).x();
    for (p, q) in [("PA", "PB"), ("PB", "PA"), ("PA", "PA")] {
        for body in ["".to_string(), reg("Z", 8).x()] {
            svds.push(dev(&(per(p, 0, "", &r) + &per(q, 8, "", &body).replace("<peripheral>", &format!("<peripheral derivedFrom=\"{p}\">")))));
            svds.push(dev(&(per_from(q, "T%s", 8, "") + &per("T%s", 0x100, "", &body).replace("<peripheral>", &format!("<peripheral>{}", dim(2, 0x10, None))))));
            svds.push(dev(&(per("T%s", 0x100, "", &body).replace("<peripheral>", &format!("<peripheral derivedFrom=\"{p}\">{}", dim(2, 0x10, Some("A,B")))) + &per(p, 0, "", &r))));
        }
    }
    // a list of registers with nothing in it
    for empty in ["<registers/>", "<registers></registers>"] {
        svds.push(dev(&(per("PA", 0, "", &r) + &per_from("PB", "PA", 8, "").replacen("</peripheral>", &format!("{empty}</peripheral>"), 1) + &per_from("PC", "PB", 16, ""))));
        svds.push(dev(&per("PA", 0, "", "").replacen("</peripheral>", &format!("{empty}</peripheral>"), 1)));
    }
    for (a, b) in [("A", "B"), ("A%s", "B"), ("A", "B%s"), ("A%s", "B[%s]")] {
        let dm = |n: &str| if n.contains('%') { dim(2, 4, None) } else { String::new() };
        svds.push(dev(&per("P", 0, "", &(reg(a, 0).dim(dm(a)).fields(&fld("F", 0, 1, "")).x() + &reg(b, 0x20).dim(dm(b)).from(a).x()))));
        svds.push(dev(&per("P", 0, "", &reg("R", 0).fields(&(fldd(&dm(a), a, None, 0, 1, "") + &fldd(&dm(b), b, None, 16, 1, "").replacen("<field>", &format!("<field derivedFrom=\"{a}\">"), 1))).x())));
        svds.push(dev(&per("P", 0, "", &(clu(&dm(a), a, 0, &r) + &clu(&dm(b), b, 0x40, &r).replacen("<cluster>", &format!("<cluster derivedFrom=\"{a}\">"), 1)))));
    }
    // every order of three registers, fields and peripherals with equal and different addresses
    let rs = [reg("A", 0x10).x(), reg("B", 4).x(), reg("C", 0x10).x(), clu("", "A", 4, &reg("A", 0).x())];
    for i in 0..4 {
        for j in 0..4 {
            for k in 0..4 {
                if i != j && j != k && i != k {
                    svds.push(dev(&per("P", 0, "", &format!("{}{}{}", rs[i], rs[j], rs[k]))));
                    let f = [fld("A", 10, 1, ""), fld("B", 2, 1, ""), fld("C", 2, 3, ""), fld("a", 9, 1, "")];
                    svds.push(dev(&per("P", 0, "", &reg("R", 0).fields(&format!("{}{}{}", f[i], f[j], f[k])).x())));
                    let p = [per("A", 0x100, &int("I", 10, ""), ""), per("B", 0x20, &int("I", 9, ""), ""), per("C", 0x20, &int("A", 9, ""), ""), per("D", 0xA, &int("I", 1000, ""), "")];
                    svds.push(dev(&format!("{}{}{}", p[i], p[j], p[k])));
                }
            }
        }
    }
    // dimensions and indexes of each level
    for n in [1u32, 2, 3, 11] {
        for inc in [0u32, 1, 4, 0x100] {
            for name in ["X%s", "X[%s]", "%s", "a%sb", "X%s_%s"] {
                for idx in [None, Some("0-1"), Some("A,B,C"), Some("7-17"), Some("01,02,03")] {
                    let k = match idx {
                        None => n,
                        Some("0-1") => 2,
                        Some("7-17") => 11,
                        _ => 3,
                    };
                    if k != n {
                        continue;
                    }
                    let dm = dim(n, inc, idx);
                    svds.push(dev(&per("P", 0x40, "", &reg(name, 4).desc("d %s [%s]").dim(dm.clone()).x())));
                    for size in [8, 16, 32, 64] {
                        svds.push(dev(&per("P", 0x40, "", &reg(name, 4).dim(dm.clone()).props(&format!("<size>{size}</size>")).fields(&fld("F", 1, 1, "")).x())));
                    }
                    svds.push(dev(&per("P", 0x40, "", &clu(&dm, name, 4, &reg("A", 8).x()))));
                    if inc < 5 && (n - 1) * inc < 32 {
                        svds.push(dev(&per("P", 0x40, "", &reg("A", 4).fields(&fldd(&dm, name, Some("%s"), 0, 1, "")).x())));
                    }
                    svds.push(dev(&per(name, 0x40, "", &reg("A", 4).x()).replace("<peripheral>", &format!("<peripheral>{dm}"))));
                }
            }
        }
    }
    svds.push("<device>".into());
    svds.push(String::new());
    svds.push(dev(&per("P", 0, "", &reg("A", 0).x()).replace("<name>A</name>", "")));
    ctx.note("devices", svds.len());
    ctx.run(svds.into_iter().map(|s| Case::new("mmap", json!({"svd": s}))));
}

// ------------------------------------------------------------------ interrupts
/// kind "ints": {pers: [[name, [[int name, desc or null, value]]]]}
pub fn h_ints(c: &Case) -> Outcome {
    let d = fresh();
    let mut body = String::new();
    let mut want: Vec<(u64, String)> = vec![];
    let mut shown = |c: &serde_json::Value| {
        let mut body = String::new();
        for p in c.as_array().unwrap() {
            let pn = p[0].as_str().unwrap();
            let mut head = String::new();
            for i in p[1].as_array().unwrap() {
                let (n, v) = (i[0].as_str().unwrap(), i[2].as_u64().unwrap());
                head += &format!("<interrupt><name>{n}</name>{}<value>{v}</value></interrupt>", i[1].as_str().map(|t| format!("<description>{t}</description>")).unwrap_or_default());
                let t = i[1].as_str().unwrap_or("").replace("&lt;", "<").replace("&amp;", "&").replace("\r\n", "\n").replace("&#13;", "\r").replace("&#10;", "\n").replace("\r\n", " ").replace('\n', " ");
                want.push((v, format!("{v} {n}: {t} (in {pn})")));
            }
            let regs = if p[2] == true { reg("A", 0).x() } else { String::new() };
            body += &match p[3].as_str() {
                Some(f) => per(pn, 0, &head, &regs).replacen("<peripheral>", &format!("<peripheral derivedFrom=\"{f}\">"), 1),
                None => per(pn, 0, &head, &regs),
            };
        }
        body
    };
    body += &shown(&c.input["pers"]);
    let svd = dev(&body);
    std::fs::write(d.join("in.svd"), &svd).unwrap();
    want.sort_by_key(|w| w.0);
    let mut gaps = vec![];
    let mut next = 0;
    for (v, _) in &want {
        gaps.extend((next..*v).map(|g| g.to_string()));
        next = v + 1;
    }
    let list: String = want.iter().map(|w| w.1.clone() + "\n").collect();
    let full = format!("{list}Gaps: {}\n", gaps.join(", "));
    let mut o = Outcome { transitions: 3, nontrivial: !want.is_empty(), class: format!("{} interrupts", want.len().min(4)), ..Default::default() };
    for (a, w) in [(&["interrupts", "in.svd"][..], &full), (&["interrupts", "in.svd", "--no-gaps"], &list), (&["interrupts", "--no-gaps", "in.svd"], &list)] {
        let r = cli(&d, a);
        if !r.ok() {
            return Outcome::fail(format!("failed: {}\n{svd}", r.err));
        }
        if &r.out != w {
            return Outcome::fail(format!("{a:?}\n{svd}\n{}", first_diff(w, &r.out)));
        }
    }
    o.states.push(fnv(full.as_bytes()));
    o
}
pub fn interrupts(ctx: &Ctx) {
    let mut cases = vec![];
    let mut put = |pers: serde_json::Value| cases.push(Case::new("ints", json!({"pers": pers})));
    // every set of interrupts 0..n, and every assignment to two peripherals or none
    let n = ctx.tier(5, 7);
    for m in 0..3u32.pow(n) {
        let mut ps = [vec![], vec![]];
        let mut k = m;
        for v in 0..n {
            if k % 3 < 2 {
                ps[(k % 3) as usize].push(json!([format!("I{v}"), format!("d{v}"), v]));
            }
            k /= 3;
        }
        put(json!([["PA", ps[0], false], ["PB", ps[1], true]]));
        for p in &mut ps {
            p.reverse();
        }
        put(json!([["PB", ps[1], true], ["PA", ps[0], true], ["PC", [], true]]));
    }
    // sequences of values with repetitions, in every order
    let vals = [0u64, 1, 3, 10, 250];
    for a in vals {
        for b in vals {
            for c in vals {
                for split in 0..4 {
                    let i = [json!(["A", null, a]), json!(["B", "b", b]), json!(["C", "c", c])];
                    put(match split {
                        0 => json!([["P", i, true]]),
                        1 => json!([["P", [i[0]], true], ["Q", [i[1], i[2]], false]]),
                        2 => json!([["P", [i[0], i[1]], false], ["Q", [i[2]], true]]),
                        _ => json!([["P", [i[0]], true], ["Q", [i[1]], true], ["R", [i[2]], true, "P"]]),
                    });
                }
            }
        }
    }
    // texts
    for t in ["", "x", "a b", "a  b", "a\nb", "a\r\nb", "a\n\n b", "é", "a&lt;b&amp;c", "(in X)", "%s", "tab\tx", "Gaps: 1", "a&#13;b", "a&#13;&#10;b", "a&#10;&#13;b", "a&#13;\nb"] {
        for name in ["I", "USART1_IRQ", "é", "I%s", "i"] {
            put(json!([["P", [[name, t, 1]], true], [name, [["J", t, 0]], false]]));
        }
    }
    // long lists with many equal values
    for n in 18..=ctx.tier(44, 80) {
        for m in 1..=5u64 {
            for stride in [1u64, 2, 7] {
                let i: Vec<_> = (0..n).map(|i| json!([format!("I{i}"), null, (i as u64 * stride) % m])).collect();
                put(match n % 3 {
                    0 => json!([["P", i, true]]),
                    1 => json!([["P", i[..n / 2], true], ["Q", i[n / 2..], false]]),
                    _ => json!(i.iter().enumerate().map(|(k, i)| json!([format!("P{k}"), [i], false])).collect::<Vec<_>>()),
                });
            }
        }
    }
    for v in [7u64, 255, 1000, 5000, 65535, 65536, 70000] {
        put(json!([["P", [["I", "big", v]], true]]));
    }
    // interrupts that are equal in every respect, or in all but one
    for x in [json!(["I", "d", 3]), json!(["I", null, 3]), json!(["J", "d", 3]), json!(["I", "d", 4])] {
        let i = json!(["I", "d", 3]);
        put(json!([["P", [i, x], true]]));
        put(json!([["P", [i], true], ["Q", [x], false]]));
        put(json!([["P", [x, i, x], true], ["Q", [x, i], false, "P"], ["R", [i], true]]));
    }
    // many peripherals, names of different length, values that sort differently as text
    for n in [9usize, 10, 11, 12, 25] {
        for step in [1u64, 3, 9, 10, 99] {
            for rev in [false, true] {
                let mut ps: Vec<_> = (0..n).map(|i| json!([format!("PER{i}"), [[format!("PER{i}_A"), format!("first of {i}"), i as u64 * step], [format!("PER{i}_B"), null, (i as u64 * step + 100) % 256]], i % 2 == 0])).collect();
                if rev {
                    ps.reverse();
                }
                put(json!(ps));
            }
        }
    }
    // the rest of a device changes nothing
    let mut whole: Vec<String> = micro();
    whole.extend(["@dev", "@nest", "@chain", "@full", "@wide"].map(String::from));
    whole.push(small_svd());
    for s in whole {
        cases.push(Case::new("intsvd", json!({"svd": s})));
    }
    ctx.note("devices", cases.len());
    ctx.run(cases.into_iter());
}
/// kind "intsvd": {svd}
pub fn h_intsvd(c: &Case) -> Outcome {
    let d = fresh();
    let svd = svd_text(c.input["svd"].as_str().unwrap());
    std::fs::write(d.join("in.svd"), &svd).unwrap();
    let device = parse_lax(&svd).expect("alphabet");
    let mut want: Vec<(u32, String)> = vec![];
    for p in &device.peripherals {
        for i in &p.interrupt {
            want.push((i.value, format!("{} {}: {} (in {})\n", i.value, i.name, i.description.as_deref().unwrap_or("").replace("\r\n", " ").replace('\n', " "), p.name)));
        }
    }
    want.sort_by_key(|w| w.0);
    let w: String = want.iter().map(|w| w.1.as_str()).collect();
    let r = cli(&d, &["interrupts", "--no-gaps", "in.svd"]);
    if !r.ok() || r.out != w {
        return Outcome::fail(format!("{}\n{svd}\n{}", r.err, first_diff(&w, &r.out)));
    }
    Outcome { transitions: 1, class: "device".into(), nontrivial: !want.is_empty(), states: vec![fnv(r.out.as_bytes())], ..Default::default() }
}
