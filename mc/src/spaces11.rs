//! Several rules in one section, in every order: what one of them does is what the next one finds.
use crate::engine::*;
use crate::patchx::*;
use crate::spaces::{at, cfg0, forests, q};


/// every ordered choice of `n` of the entries with different keys, as one section
fn ordered(entries: &[(&str, &str)], n: usize) -> Vec<String> {
    fn go(e: &[(&str, &str)], n: usize, used: &mut Vec<usize>, out: &mut Vec<String>) {
        if used.len() == n {
            out.push(format!("{{{}}}", used.iter().map(|&i| format!("{}: {}", q(e[i].0), e[i].1)).collect::<Vec<_>>().join(", ")));
            return;
        }
        for i in 0..e.len() {
            if used.iter().all(|&j| e[j].0 != e[i].0) {
                used.push(i);
                go(e, n, used, out);
                used.pop();
            }
        }
    }
    let mut out = vec![];
    go(entries, n, &mut vec![], &mut out);
    out
}
/// every ordered list of `n` of the specifications
fn lists(specs: &[&str], n: usize) -> Vec<String> {
    let mut v: Vec<Vec<&str>> = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|l| specs.iter().map(move |s| [l.clone(), vec![*s]].concat())).collect();
    }
    v.iter().map(|l| format!("[{}]", l.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "))).collect()
}
fn run(ctx: &Ctx, what: &str, roots: &[&str], docs: Vec<String>) {
    let docs = loadable(docs);
    ctx.note(what, roots.len() * docs.len());
    ctx.run(roots.iter().flat_map(|r| docs.iter().map(move |d| case(r, d, &cfg0()) as Case)));
}
const ADC: [&str; 1] = ["ADC1"];
const CR: [&str; 2] = ["ADC1", "CR"];
const CAL: [&str; 2] = ["ADC1", "CAL"];

pub fn delete(ctx: &Ctx) {
    let n = ctx.tier(2, 3);
    let mut d = vec![];
    for l in lists(&["ADC1", "ADC2", "ADC*", "TIM1,TIM2", "TIM?", "*", "NOPE", "[AT]*1"], n) {
        d.push(format!("{{_delete: {l}}}"));
        d.push(format!("{{_delete: {{_registers: {l}}}}}"));
    }
    for l in lists(&["CR", "CR2", "C*", "SR,DR", "?R", "CAL", "NOPE", "*"], n) {
        d.push(at(&ADC, &format!("{{_delete: {l}}}")));
        d.push(at(&ADC, &format!("{{_delete: {{_registers: {l}}}}}")));
        d.push(at(&ADC, &format!("{{_delete: {{_clusters: {l}}}}}")));
    }
    for l in lists(&["EN", "MODE", "*", "EN,DIV", "NOPE", "[ED]*"], n) {
        d.push(at(&CR, &format!("{{_delete: {l}}}")));
    }
    for l in lists(&["ADC1", "ADC1_OVR", "ADC*", "*_OVR", "NOPE"], n) {
        d.push(at(&ADC, &format!("{{_delete: {{_interrupts: {l}}}}}")));
    }
    run(ctx, "several_deletions", &["@dev", "@nest"], d);
}
pub fn add(ctx: &Ctx) {
    let n = ctx.tier(2, 3);
    let mut d = vec![];
    for s in ordered(
        &[("N", "{baseAddress: 0x100}"), ("N", "{derivedFrom: ADC1, baseAddress: 0x100}"), ("M", "{derivedFrom: N, baseAddress: 0x200}"), ("M", "{baseAddress: 0x200, registers: {R: {addressOffset: 0}}}"), ("ADC1", "{baseAddress: 1}"),
          ("O", "{derivedFrom: M, baseAddress: 0x300, interrupts: {I: {value: 1}}}"), ("NOPE", "{}")], n) {
        d.push(format!("{{_add: {s}}}"));
    }
    for s in ordered(
        &[("N", "{addressOffset: 0x30}"), ("N", "{derivedFrom: CR, addressOffset: 8}"), ("M", "{addressOffset: 0x30}"), ("M", "{derivedFrom: N, addressOffset: 0x40}"), ("M", "{addressOffset: 0}"), ("A%s", "{addressOffset: 8, dim: 2, dimIncrement: 4}"),
          ("SR", "{addressOffset: 0x44}"), ("_registers", "{K: {addressOffset: 0x30}, N: {addressOffset: 0x31}}"), ("_clusters", "{C: {addressOffset: 0x30}}"), ("_interrupts", "{I: {value: 9}}")], n) {
        d.push(at(&ADC, &format!("{{_add: {s}}}")));
        d.push(at(&CAL, &format!("{{_add: {s}}}")));
    }
    for s in ordered(
        &[("N", "{bitOffset: 4, bitWidth: 1}"), ("N", "{derivedFrom: EN, bitOffset: 31, bitWidth: 1}"), ("M", "{bitOffset: 4, bitWidth: 1}"), ("M", "{derivedFrom: N, bitOffset: 5, bitWidth: 1}"), ("K", "{bitOffset: 0, bitWidth: 1}"), ("MODE", "{bitOffset: 6, bitWidth: 1}"),
          ("A%s", "{bitOffset: 12, bitWidth: 1, dim: 2, dimIncrement: 1}")], n) {
        d.push(at(&CR, &format!("{{_add: {s}}}")));
        d.push(at(&["ADC1", "DR"], &format!("{{_add: {s}}}")));
    }
    run(ctx, "several_additions", &["@dev"], d);
}
pub fn modify(ctx: &Ctx) {
    let n = ctx.tier(2, 3);
    let mut d = vec![];
    for s in ordered(
        &[("ADC1", "{name: X}"), ("ADC1", "{name: TIM3, description: n}"), ("ADC*", "{groupName: G}"), ("X", "{description: x}"), ("ADC2", "{derivedFrom: X}"), ("ADC2", "{name: ADC3, version: 7}"), ("*", "{description: all}"), ("TIM1", "{name: X}"), ("TIM?", "{version: 3, description: t}"),
          ("ADC3", "{baseAddress: 5}"), ("TIM1,TIM2", "{headerStructName: H}"), ("_peripherals", "{ADC1: {name: Y}, TIM1: {version: 1}}"), ("_interrupts", "{ADC1: {value: 1}}"), ("cpu", "{revision: r9}"), ("_cpu", "{name: CM0}")], n) {
        d.push(format!("{{_modify: {s}}}"));
    }
    for s in ordered(
        &[("CR", "{name: X}"), ("CR", "{size: 8, description: c}"), ("X", "{displayName: x}"), ("C*", "{access: read-write}"), ("SR", "{name: CR, access: write-only}"), ("SR,DR", "{resetValue: 3}"), ("CR2", "{derivedFrom: X}"), ("DR", "{name: X, addressOffset: 0x40}"), ("*", "{description: all}"),
          ("_registers", "{CR: {name: Y}, 'S*': {size: 16}}"), ("CAL", "{name: CAM}"), ("_clusters", "{CAL: {name: CAM, addressOffset: 0x60}}"), ("CA?", "{description: ca}"), ("_interrupts", "{ADC1: {name: AI}}")], n) {
        d.push(at(&ADC, &format!("{{_modify: {s}}}")));
    }
    for s in ordered(
        &[("EN", "{name: X}"), ("EN", "{bitOffset: 30, bitWidth: 2}"), ("X", "{description: x}"), ("E*", "{access: read-only}"), ("MODE", "{name: EN}"), ("*", "{description: all}"), ("DIV,MODE", "{_write_constraint: none}"), ("DIV", "{name: X, _write_constraint: [1, 2]}"), ("NOPE", "{name: N}")], n) {
        d.push(at(&CR, &format!("{{_modify: {s}}}")));
    }
    run(ctx, "several_modifications", &["@dev"], d);
}
pub fn copy(ctx: &Ctx) {
    let n = ctx.tier(2, 3);
    let mut d = vec![];
    let mut e = vec![];
    for t in ["N", "M", "ADC1", "ADC2", "TIM1", "TIM2"] {
        for s in ["{from: N}", "{from: ADC1}", "{from: ADC2}", "{from: TIM1}"] {
            e.push((t, s));
        }
    }
    d.extend(ordered(&e, 2).iter().map(|s| format!("{{_copy: {s}}}")));
    for s in ordered(
        &[("N", "{_from: CR, addressOffset: 0x40}"), ("N", "{_from: CR2, name: K}"), ("M", "{_from: N, addressOffset: 8}"), ("M", "{_from: DR, displayName: D}"), ("CR", "{_from: SR}"), ("SR", "{_from: CR, description: s}"), ("CR2", "{_from: CR}"), ("CR2", "{_from: DR, addressOffset: 0x60}"), ("DR", "{_from: M}"),
          ("_registers", "{K: {_from: CR, addressOffset: 0x50}, L: {_from: K, addressOffset: 0x54}}")], n) {
        d.push(at(&ADC, &format!("{{_copy: {s}}}")));
    }
    run(ctx, "several_copies", &["@dev"], d);
    let roots = forests(3);
    let roots: Vec<&str> = roots.iter().map(|s| s.as_str()).collect();
    let e: Vec<(&str, String)> = ["A", "B", "C", "N"].iter().flat_map(|x| ["A", "B", "C", "N"].map(|y| (*x, format!("{{from: {y}}}")))).collect();
    let e: Vec<(&str, &str)> = e.iter().map(|(k, v)| (*k, v.as_str())).collect();
    run(ctx, "several_copies_in_forests", &roots, ordered(&e, 2).iter().map(|s| format!("{{_copy: {s}}}")).collect());
}
pub fn derive(ctx: &Ctx) {
    let n = ctx.tier(2, 3);
    let roots = forests(3);
    let roots: Vec<&str> = roots.iter().map(|s| s.as_str()).collect();
    let mut e: Vec<(&str, &str)> = vec![];
    for x in ["A", "B", "C", "N"] {
        for y in ["A", "B", "C", "N"] {
            e.push((x, y));
        }
    }
    run(ctx, "several_derivations", &roots, ordered(&e, n).iter().map(|s| format!("{{_derive: {s}}}")).collect());
    let mut d = vec![];
    let regs: Vec<(&str, &str)> = vec![
        ("N", "{_from: CR, addressOffset: 0x40}"), ("N", "{_from: CR2, addressOffset: 0x40}"), ("M", "{_from: N, addressOffset: 8}"), ("M", "DR"), ("CR", "SR"), ("SR", "CR"), ("CR2", "SR"), ("DR", "CR"), ("DR", "N"), ("SR", "{_from: DR, description: s}"), ("[SD]R", "CR2"),
        ("_registers", "{K: {_from: CR, addressOffset: 0x50}, L: {_from: K, addressOffset: 0x54}}"),
    ];
    d.extend(ordered(&regs, n).iter().map(|s| at(&ADC, &format!("{{_derive: {s}}}"))));
    let fields = [("N", "{_from: EN, bitOffset: 20, bitWidth: 1}"), ("M", "{_from: N, bitOffset: 21, bitWidth: 1}"), ("EN", "MODE"), ("MODE", "EN"), ("DIV", "MODE"), ("[ED]*", "MODE"), ("DIV", "N"), ("M", "{_from: DIV, bitOffset: 20, bitWidth: 1}")];
    d.extend(ordered(&fields, n).iter().map(|s| at(&CR, &format!("{{_derive: {s}}}"))));
    run(ctx, "several_derivations_inside", &["@dev"], d);
}
pub fn rebase(ctx: &Ctx) {
    let n = ctx.tier(3, 4);
    let roots = forests(n);
    let roots: Vec<&str> = roots.iter().map(|s| s.as_str()).collect();
    let names = &crate::spaces::FOREST[..n];
    let e: Vec<(&str, &str)> = names.iter().flat_map(|x| names.iter().map(move |y| (*x, *y))).collect();
    run(ctx, "several_rebases", &roots, ordered(&e, 2).iter().map(|s| format!("{{_rebase: {s}}}")).collect());
    run(ctx, "three_rebases", &roots[..roots.len().min(16)], ordered(&e, 3).iter().map(|s| format!("{{_rebase: {s}}}")).collect());
}

/// registers and fields to be collected in several ways
fn rows() -> String {
    use crate::svd::*;
    let f = |n: &str| fld(&format!("{n}1"), 0, 2, "") + &fld(&format!("{n}2"), 4, 2, "") + &fld(&format!("{n}3"), 8, 2, "") + &fld("F_1", 16, 1, "") + &fld("F_2", 17, 1, "");
    let mut s = String::new();
    for (i, n) in ["R1", "R2", "S1", "R3", "S2", "PRE_R1", "PRE_R2", "R_1"].iter().enumerate() {
        s += &reg(n, 4 * i as u64).display(n).desc(n).fields(&f("F")).x();
    }
    dev(&(per("P", 0, "", &(s.clone() + &clu("", "C", 0x100, &s))) + &per_from("Q", "P", 0x1000, "")))
}
pub fn arrays(ctx: &Ctx) {
    let n = ctx.tier(2, 3);
    let svd = rows();
    let mut d = vec![];
    for s in ordered(
        &[("R?", "{}"), ("R?", "{name: 'X%s'}"), ("R[12]", "{}"), ("R[12]", "{name: 'S%s', description: a}"), ("S?", "{}"), ("S*", "{name: 'R[%s]'}"), ("PRE_R*", "{}"), ("PRE_R[1-2]", "{name: 'R%s', _start_from_zero: true}"), ("R_*", "{}"), ("?~R?", "{}"), ("?~Z?", "{}"), ("R*", "{}"), ("R3", "{}"),
          ("R[23]", "{_modify: {FIELD: {}}, F1: [0, 1]}"), ("S[12]", "{'F?': {V: [0, d]}}")], n) {
        for p in [&["P"][..], &["P", "C"]] {
            d.push(at(p, &format!("{{_array: {s}}}")));
        }
    }
    for s in ordered(&[("F?", "{}"), ("F?", "{name: 'G%s'}"), ("F[12]", "{}"), ("F_*", "{}"), ("F_?", "{name: 'F%s', _start_from_zero: true}"), ("F[23]", "{description: d}"), ("?~F[12]", "{}"), ("F*", "{}"), ("F3", "{}")], n) {
        d.push(at(&["P", "R1"], &format!("{{_array: {s}}}")));
        d.push(at(&["P", "R*"], &format!("{{_array: {s}}}")));
    }
    run(ctx, "several_arrays", &[&svd], d);
    use crate::svd::*;
    // registers of 64 bits that differ in one bit, below or above the middle
    let mut cases = vec![];
    for size in [32u32, 64] {
        for (o, w) in [(0, 1), (31, 1), (32, 1), (40, 2), (63, 1), (0, 64), (0, 33), (32, 32)] {
            for (o2, w2) in [(0, 1), (31, 1), (32, 1), (63, 1), (0, 64), (0, 33), (32, 32)] {
                if size == 32 && (o + w > 32 || o2 + w2 > 32) {
                    continue;
                }
                let p = format!("<size>{size}</size>");
                let g = fld("G", 8, 1, "");
                let x = reg("X0", 0).props(&p).fields(&(fld("F", o, w, "") + &g)).x() + &reg("X1", 8).props(&p).fields(&(fld("F", o2, w2, "") + &g)).x() + &reg("X2", 16).props(&p).fields(&(fld("F", o, w, "") + &g)).x();
                for r in ["_array: {'X?': {}}", "_array: {'X[02]': {name: 'N%s'}}", "_cluster: {'K%s': {'X?': {name: X}}}"] {
                    let s = dev(&per("P", 0, "", &x));
                    cases.push(case(&s, &format!("{{P: {{{r}}}}}"), &cfg0()));
                }
            }
        }
    }
    ctx.run(cases.into_iter());
}
pub fn clusters(ctx: &Ctx) {
    let n = ctx.tier(2, 3);
    let svd = rows();
    let mut d = vec![];
    for s in ordered(
        &[("K%s", "{'R[12]': {name: R}}"), ("K%s", "{'R[12]': {name: R}, 'S?': {name: S}}"), ("L%s", "{'S?': {name: S}}"), ("L%s", "{'R[12]': {name: R}, 'PRE_R?': {name: P}}"), ("M", "{R3: {name: R}}"), ("M", "{'PRE_R?': {}}"), ("C", "{R3: {}}"), ("K", "{R_1: {}, R3: {}}"), ("K[%s]", "{'PRE_R?': {name: A, description: x}}"),
          ("O%s", "{'S[12]': {name: S}, description: so}"), ("?~M%s", "{'Z?': {}}"), ("R1", "{R3: {name: R}}")], n) {
        for p in [&["P"][..], &["P", "C"]] {
            d.push(at(p, &format!("{{_cluster: {s}}}")));
            d.push(at(p, &format!("{{_cluster: {s}, _array: {{'R?': {{}}}}}}")));
        }
    }
    run(ctx, "several_clusters", &[&svd], d);
}
pub fn strip(ctx: &Ctx) {
    let n = ctx.tier(2, 3);
    let svd = rows();
    let mut d = vec![];
    for l in lists(&["PRE_", "P", "R", "R_", "S", "*_", "?", "[RS]", "NOPE", "R1", "PRE_R"], n) {
        for k in ["_strip", "_strip_end"] {
            d.push(at(&["P"], &format!("{{{k}: {l}}}")));
            d.push(at(&["P", "C"], &format!("{{{k}: {l}}}")));
        }
    }
    for l in lists(&["F", "F_", "1", "_1", "?", "*_", "[12]", "F1"], n) {
        for k in ["_strip", "_strip_end"] {
            d.push(at(&["P", "R1"], &format!("{{{k}: {l}}}")));
        }
    }
    for a in ["_strip: PRE_", "_strip: [R, S]", "_strip_end: ['1', '2']", "_prefix: X", "_suffix: Y"] {
        for b in ["_strip: S", "_strip_end: '?'", "_prefix: PRE_", "_suffix: '1'"] {
            for c in ["_modify: {PRE_R1: {name: N}}", "_delete: R1", "R1: {_delete: F1}", "'?~R1': {F1: [0, 1]}", "_array: {'R?': {}}", "_add: {N: {addressOffset: 0x90}}", "_copy: {N: {_from: R1, addressOffset: 0x90}}"] {
                if a.split(':').next() != b.split(':').next() {
                    d.push(at(&["P"], &format!("{{{a}, {b}, {c}}}")));
                    d.push(at(&["P", "C"], &format!("{{{a}, {b}, {c}}}")));
                }
            }
        }
    }
    run(ctx, "several_strips", &[&svd], d);
}
pub fn merge_split(ctx: &Ctx) {
    let n = ctx.tier(2, 3);
    let svd = rows();
    let mut d = vec![];
    for s in ordered(&[("N", "['F1', 'F2']"), ("N", "'F_*'"), ("F", "[F1, 'F?']"), ("F", "['F[12]', 'F[23]']"), ("M", "[N, F3]"), ("F_1", "['F_*']"), ("M", "['F_?', F3]"), ("F1", "['F1', 'F2']"), ("F2", "['F2', 'F3', 'F[13]']"), ("NOPE", "[Z]"), ("F_*", "{}")], n) {
        d.push(at(&["P", "R1"], &format!("{{_merge: {s}}}")));
        d.push(at(&["P", "R?"], &format!("{{_merge: {s}, _split: {{'?~N': {{}}}}}}")));
    }
    for s in ordered(&[("F1", "{}"), ("F1", "{name: 'F2_%s'}"), ("F?", "{name: 'B%s'}"), ("F2", "{name: 'F_%s', description: 'b %s'}"), ("F_1", "{}"), ("?~N", "{}"), ("F[12]", "{name: 'X%s'}"), ("NOPE", "{}")], n) {
        d.push(at(&["P", "R1"], &format!("{{_split: {s}}}")));
        d.push(at(&["P", "R?"], &format!("{{_split: {s}, _merge: {{N: ['F_1', 'F_2']}}}}")));
    }
    for l in lists(&["F1,F2", "F?", "F_*", "*", "F1", "F[12]", "F3", "NOPE", "?~NOPE"], n) {
        d.push(at(&["P", "R1"], &format!("{{_merge: {l}}}")));
        d.push(at(&["P", "R1"], &format!("{{_split: {l}}}")));
    }
    run(ctx, "several_merges_and_splits", &[&svd], d);
}
