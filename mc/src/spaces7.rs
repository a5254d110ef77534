//! Larger devices: what small scopes cannot show (more than ten elements, two digit indexes,
//! deep nesting, wide registers, high addresses).
use crate::engine::*;
use crate::patchx::*;
use crate::spaces::{at, cfg0, q};
use crate::svd::*;
use serde_json::json;

fn regs16() -> String {
    let mut s = String::new();
    for i in 0..16u64 {
        s += &reg(&format!("CH{i}"), 4 * i).desc(&format!("channel {i} of 16")).display(&format!("CH{i}")).fields(&(fld("EN", 0, 1, "") + &fld("MODE", 1, 3, ""))).x();
    }
    // declared backwards, with a different spacing
    for i in (1..=12u64).rev() {
        s += &reg(&format!("CCR{i}"), 0x100 + 8 * i).desc(&format!("compare {i}")).fields(&fld(&format!("CCR{i}"), 0, 16, "")).x();
    }
    // not in order of number
    for i in [10u64, 2, 11, 1, 0, 3, 12] {
        s += &reg(&format!("MIX{i}"), 0x200 + 4 * i).x();
    }
    // pairs, as clusters want them
    for i in 0..12u64 {
        s += &reg(&format!("SET{i}"), 0x700 + 8 * i).desc(&format!("set {i}")).x();
        s += &reg(&format!("CLR{i}"), 0x704 + 8 * i).desc(&format!("clear {i}")).fields(&fld("C", 0, 1, "")).x();
    }
    s
}
fn fields32() -> String {
    let mut s: String = (0..16).map(|i| fldd("", &format!("PIN{i}"), Some(&format!("pin {i} state")), i, 1, "")).collect();
    s += &(0..8).rev().map(|i| fldd("", &format!("MODER{}", i + 4), Some(&format!("mode of {}", i + 4)), 16 + 2 * i, 2, "")).collect::<String>();
    s
}
pub fn wide() -> String {
    let many: Vec<(String, u32)> = (0..20).map(|i| (format!("V{i}"), i)).collect();
    let many: Vec<(&str, u32)> = many.iter().map(|(n, v)| (n.as_str(), *v)).collect();
    let ints: String = (0..12).map(|i| int(&format!("IRQ{i}"), [300, 7, 0, 255, 256, 12, 13, 100, 99, 1, 65535, 42][i], &format!("interrupt {i}"))).collect();
    let reg64 = reg("WIDE", 0x10_0000).props("<size>64</size><resetValue>0x123456789abcdef0</resetValue><resetMask>0xffffffffffffffff</resetMask>").fields(
        &(fld("LOW", 0, 32, "") + &fld("HIGH", 32, 31, "") + &fld("TOP", 63, 1, "")),
    );
    let deep = clu("", "L1", 0x1000, &(reg("A", 0).x() + &clu("", "L2", 0x100, &(reg("A", 0).x() + &clu("", "L3", 0x40, &(reg("A", 0).x() + &clu(&dim(11, 8, None), "L4[%s]", 0x10, &(reg("A", 0).fields(&fld("F", 0, 1, "")).x() + &reg("B", 4).x())))) + &reg("Z", 0xf0).x()))));
    let body = regs16()
        + &reg("REG%s", 0x400).dim(dim(12, 4, None)).desc("register %s").fields(&fldd(&dim(10, 2, None), "F%s", Some("field %s"), 0, 2, "")).x()
        + &reg("TAB[%s]", 0x480).dim(dim(11, 4, Some("0-10"))).x()
        + &reg("LET%s", 0x500).dim(dim(12, 4, Some("A,B,C,D,E,F,G,H,I,J,K,L"))).x()
        + &clu(&dim(12, 0x10, Some("5-16")), "CL%s", 0x600, &(reg("X", 0).desc("x of %s").x() + &reg("Y", 4).x()))
        + &deep
        + &reg("IDR", 0x2000).fields(&fields32()).x()
        + &reg("ODR", 0x2004).from("IDR").x()
        + &reg("EVS", 0x2008).fields(&(fld("SEL", 0, 5, &evs("SEL", "", &many)) + &fld("COPY", 8, 5, "<enumeratedValues derivedFrom=\"SEL\"></enumeratedValues>") + &fld("NONE", 16, 16, ""))).x()
        + &reg64.x()
        + &reg("BYTE", 0x11_0000).props("<size>8</size>").fields(&fld("B", 7, 1, "")).x()
        + &reg("A_VERY_LONG_REGISTER_NAME_THAT_GOES_ON_AND_ON_0123456789", 0x12_0000).x();
    let mut ps = per("UART1", 0x4000_0000, &ints, &body);
    for i in 2..=11 {
        // half of them in a chain
        let from = if i % 2 == 0 { "UART1".to_string() } else { format!("UART{}", i - 1) };
        ps += &per_from(&format!("UART{i}"), &from, 0x4000_0000 + 0x40_0000 * i, &int(&format!("UART{i}"), 400 + i as u32, ""));
    }
    ps += &per("UART12", 0x5000_0000, "", &(reg("CH0", 0).fields(&fields32()).x() + &reg("CH1", 4).x() + &reg("OTHER", 8).x()));
    for (i, c) in "KJIHGFEDCB".chars().enumerate() {
        ps += &per_from(&format!("GPIO{c}"), "GPIOA", 0x1_0000_0000_0000 + 0x400 * i as u64, "");
    }
    ps += &per("GPIOA", 0x1_0000_0000_0000 - 0x400, "<addressBlock><offset>0</offset><size>0x400</size><usage>registers</usage></addressBlock>", &(reg("IDR", 0).fields(&fields32()).x() + &reg("BSRR", 0xffff_fffc).x()));
    dev(&ps)
}

const RSEL: &[&str] = &[
    "CH1", "CH1?", "CH[0-9]", "CH1[0-5]", "CH*", "CH?,CH1?", "{CH1,CH12}", "*1*", "CCR*", "CCR?", "CCR1*", "CCR[1-9],CCR1[0-2]", "MIX*", "MIX1?", "MIX?", "REG%s", "TAB*", "CL%s", "L1", "IDR", "?DR", "EVS", "WIDE", "A_VERY*6789", "LET%s", "UART1", "CH16", "?~CH16", "*9", "????", "[A-C]*", "[!C]*",
];
const PSEL: &[&str] = &["UART1", "UART?", "UART*", "UART1?", "UART12", "UART[2-9]", "GPIO[A-K]", "GPIOA", "*1*", "UART1,UART12", "{UART1,GPIOA}", "*"];
const FSEL: &[&str] = &["PIN1", "PIN1?", "PIN*", "PIN?", "PIN1[0-5]", "PIN?,PIN1?", "MODER*", "MODER1?", "MODER?", "*1", "{PIN0,PIN15}", "PIN16", "?~PIN16", "PIN[0-9]", "[!P]*", "*"];

fn rules(p: &[&str], sel: &[&str], body: &[&str]) -> Vec<String> {
    sel.iter().flat_map(|s| body.iter().map(|b| at(p, &b.replace('#', &q(s)))).collect::<Vec<_>>()).collect()
}

pub fn explore(ctx: &Ctx) {
    let mut d: Vec<String> = vec![];
    let fields: [&[&str]; 3] = [&["UART1", "IDR"], &["GPIOA", "IDR"], &["UART12", "CH0"]];
    match ctx.prop.as_str() {
        "C01" | "C02" => {
            for s in PSEL.iter().chain(&["?~UART13", "UART13", "?~UART1"]) {
                d.push(format!("{{{}: {{}}}}", q(s)));
                d.push(format!("{{_delete: {}}}", q(s)));
                d.push(format!("{{_modify: {{{}: {{version: 9}}}}}}", q(s)));
                d.push(format!("{{{}: {{IDR: {{'PIN*': [0, 1]}}}}}}", q(s)));
                d.push(format!("{{{}: {{_add: {{_interrupts: {{N: {{value: 2}}}}}}}}}}", q(s)));
            }
            d.extend(rules(&["UART1"], RSEL, &["{#: {}}", "{_delete: #}", "{_modify: {#: {description: n}}}", "{#: {'*': [0, 1]}}", "{_delete: {_registers: [#]}}", "{_delete: {_clusters: [#]}}", "{_clear_fields: [#]}"]));
            d.extend(rules(&["UART1"], &["IRQ1", "IRQ1?", "IRQ*", "IRQ?", "*1"], &["{_delete: {_interrupts: #}}", "{_modify: {_interrupts: {#: {description: n}}}}"]));
            for p in fields {
                d.extend(rules(p, FSEL, &["{#: [0, 1]}", "{_delete: #}", "{_modify: {#: {description: n}}}", "{#: {V: [0, d]}}", "{_merge: {N: #}}", "{_split: #}"]));
            }
        }
        "C03" => {
            for s in PSEL {
                d.push(format!("{{_delete: [{}]}}", q(s)));
                d.push(format!("{{_delete: [{}, 'UART2', 'GPIOC']}}", q(s)));
            }
            d.extend(rules(&["UART1"], RSEL, &["{_delete: [#]}", "{_delete: [#, 'MIX*', 'CH1?']}", "{_delete: {_registers: [#, LET%s], _interrupts: ['IRQ1?', IRQ0]}}", "{_delete: {_clusters: #}}"]));
            d.push(at(&["UART1"], "{_delete: {_interrupts: 'IRQ?'}}"));
            for p in [&["UART1", "L1"][..], &["UART1", "L1", "L2"], &["UART1", "L1", "L2", "L3"], &["UART1", "_clusters", "L1", "_clusters", "L2", "_clusters", "L3", "_clusters", "L4*"], &["UART1", "L1", "L2", "L3", "L4*"]] {
                for s in ["A", "B", "L2", "L3", "L4*", "*", "Z"] {
                    d.push(at(p, &format!("{{_delete: [{}]}}", q(s))));
                    d.push(at(p, &format!("{{_delete: {{_clusters: [{}]}}}}", q(s))));
                    d.push(at(p, &format!("{{_delete: {{_registers: [{}]}}}}", q(s))));
                }
            }
            for p in fields {
                d.extend(rules(p, FSEL, &["{_delete: [#]}", "{_delete: [#, MODER11, PIN0]}"]));
            }
        }
        "C04" => {
            let many = |n: usize, f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(", ");
            d.push(format!("{{_add: {{{}}}}}", many(12, &|i| format!("N{i}: {{baseAddress: {}, registers: {{{}}}, interrupts: {{{}}}}}", 0x4000_0000u64 + 0x1000 * (i as u64 * 7 % 12), many(12, &|k| format!("R{k}: {{addressOffset: {}, fields: {{{}}}}}", 4 * (k * 5 % 12), many(12, &|m| format!("F{m}: {{bitOffset: {}, bitWidth: 1}}", m * 7 % 12)))), many(11, &|k| format!("I{k}: {{value: {}}}", k * 3 % 11))))));
            for off in [0u64, 2, 0x3f, 0x40, 0x100, 0x1ff, 0x20c, 0x430, 0x6a4, 0x1fff, 0x2001, 0x10_0004, 0x13_0000, 0xffff_ffff] {
                d.push(at(&["UART1"], &format!("{{_add: {{NEW: {{addressOffset: {off}}}}}}}")));
                d.push(at(&["UART1"], &format!("{{_add: {{_clusters: {{NEW: {{addressOffset: {off}, registers: {{A: {{addressOffset: 0}}}}}}}}}}}}")));
                d.push(at(&["UART1"], &format!("{{_add: {{NEW: {{addressOffset: {off}}}, NEW2: {{addressOffset: {off}}}, CH16: {{addressOffset: 0x40}}}}}}")));
                d.push(at(&["GPIOA"], &format!("{{_add: {{NEW: {{addressOffset: {off}, size: 64}}}}}}")));
                for p in [&["UART1", "L1"][..], &["UART1", "L1", "L2"], &["UART1", "L1", "L2", "L3"], &["UART1", "L1", "L2", "L3", "L4*"]] {
                    d.push(at(p, &format!("{{_add: {{NEW: {{addressOffset: {off}}}}}}}")));
                }
            }
            for base in [0u64, 0x4000_0000, 0x4000_0001, 0x4100_0000, 0x5000_0000, 0x1_0000_0000_0000, 0x7fff_ffff_ffff_ffff] {
                d.push(format!("{{_add: {{NEW: {{baseAddress: {base}}}, OTHER: {{baseAddress: {base}, derivedFrom: UART12}}}}}}"));
            }
            for b in 0..32 {
                for p in fields {
                    d.push(at(p, &format!("{{_add: {{NEW: {{bitOffset: {b}, bitWidth: {}}}}}}}", 32 - b)));
                }
                d.push(at(&["UART1", "WIDE"], &format!("{{_add: {{NEW: {{bitOffset: {}, bitWidth: 1}}}}}}", b + 31)));
            }
            for n in ["IRQ12", "IRQ5", "A"] {
                d.push(at(&["UART1"], &format!("{{_add: {{_interrupts: {{{n}: {{value: 77}}, M1: {{value: 1}}, M2: {{value: 4000}}}}}}}}")));
            }
        }
        "C05" => {
            for s in PSEL {
                for m in ["name: NEW", "version: 5", "baseAddress: 0x123456789abc", "description: d, groupName: g", "interrupts: {'IRQ1?': {value: 900}}", "derivedFrom: UART12"] {
                    d.push(format!("{{_modify: {{{}: {{{m}}}}}}}", q(s)));
                }
            }
            for i in 1..=12 {
                d.push(format!("{{_modify: {{UART{i}: {{name: RENAMED}}}}}}"));
            }
            d.extend(rules(&["UART1"], RSEL, &["{_modify: {#: {description: n, size: 16}}}", "{_modify: {#: {name: NEW}}}", "{_modify: {#: {addressOffset: 0x7000}}}", "{_modify: {#: {resetValue: 0xffffffffffff, resetMask: 0x7fffffffffffffff}}}", "{_modify: {#: {dim: 13, dimIncrement: 8, name: 'Q%s'}}}", "{_modify: {_clusters: {#: {description: n}}}}"]));
            d.extend(rules(&["UART1"], &["IRQ1", "IRQ1?", "IRQ*"], &["{_modify: {_interrupts: {#: {value: 1000, description: n}}}}"]));
            for p in fields {
                d.extend(rules(p, FSEL, &["{_modify: {#: {description: n, access: read-only}}}", "{_modify: {#: {bitOffset: 31, bitWidth: 1}}}", "{_modify: {#: {name: NEW}}}"]));
            }
            d.push(at(&["UART1", "WIDE"], "{_modify: {HIGH: {bitOffset: 40, bitWidth: 20}, TOP: {msb: 62, lsb: 62}}}"));
        }
        "C06" => {
            for n in ["UART2", "UART3", "UART11", "UART12", "GPIOA", "GPIOB", "NEW", "UART1"] {
                for s in ["UART1", "UART3", "UART11", "UART12", "GPIOA", "GPIOK"] {
                    d.push(format!("{{_copy: {{{n}: {{from: {s}}}}}}}"));
                    d.push(format!("{{_copy: {{{n}: {{from: {s}}}, LAST: {{from: {n}}}}}}}"));
                }
            }
            for n in ["CH0", "CH15", "NEW", "CCR1"] {
                for s in ["CH0", "CH10", "CCR12", "MIX10", "IDR", "ODR", "WIDE", "EVS", "REG%s", "L1"] {
                    for o in [0u64, 0x30, 0x204, 0x2000, 0x10_0008] {
                        d.push(at(&["UART1"], &format!("{{_copy: {{{n}: {{_from: {s}, addressOffset: {o}}}}}}}")));
                    }
                }
            }
        }
        "C07" | "C08" => {
            let names = ["UART1", "UART2", "UART3", "UART6", "UART7", "UART11", "UART12", "GPIOA", "GPIOB", "GPIOK"];
            let k = if ctx.prop == "C07" { "_derive" } else { "_rebase" };
            for n in names {
                for s in names {
                    d.push(format!("{{{k}: {{{n}: {s}}}}}"));
                }
            }
            if ctx.prop == "C07" {
                for n in ["CH1", "CH1?", "CH1[0-5]", "CCR*", "IDR", "NEW", "?~NEW", "EVS", "WIDE"] {
                    for s in ["CH0", "CCR12", "IDR", "ODR", "L1.A", "L1.L2.A", "L1.L2.L3.A", "UART12.CH0", "NOPE"] {
                        d.push(at(&["UART1"], &format!("{{_derive: {{{}: {s}}}}}", q(n))));
                        d.push(at(&["UART1"], &format!("{{_derive: {{{}: {{_from: {s}, addressOffset: 0x3000}}}}}}", q(n))));
                    }
                }
                for p in fields {
                    d.extend(rules(p, FSEL, &["{_derive: {#: PIN0}}", "{_derive: {#: MODER4}}"]));
                }
            }
        }
        "C09" => {
            for s in ["CH*", "CH?", "CH1?", "CH[0-9]", "CH1[0-5]", "CH[0-9],CH1[0-5]", "CH[02468]", "CCR*", "CCR?", "CCR1?", "CCR[1-9]", "MIX*", "MIX1?", "MIX?", "C*", "?~CX*", "CCR*,CH*", "{CH1,CH2}"] {
                for o in ["", "name: 'N%s'", "description: 'array %s'", "_start_from_zero: true", "description: _original", "_start_from_zero: true, name: 'N%s', description: 'of %s'", "dimIncrement: 8"] {
                    d.push(at(&["UART1"], &format!("{{_array: {{{}: {{{o}}}}}}}", q(s))));
                }
            }
            for p in fields {
                for s in FSEL {
                    for o in ["", "name: 'N%s'", "description: 'array %s'", "_start_from_zero: true", "description: _original"] {
                        d.push(at(p, &format!("{{_array: {{{}: {{{o}}}}}}}", q(s))));
                    }
                }
            }
        }
        "C10" => {
            for s in ["SET*", "CLR*", "SET1?", "CLR[0-9]", "SET[0-9],SET1[01]"] {
                for t in ["CLR*", "SET*", "CLR1?", "SET[0-9]", "CLR?,CLR1?"] {
                    for o in ["", ", _start_from_zero: true", ", description: 'of %s'", ", dimIncrement: 16"] {
                        for n in ["'N%s'", "'N[%s]'", "N"] {
                            if s != t {
                                d.push(at(&["UART1"], &format!("{{_cluster: {{{n}: {{{}: {{name: RA}}, {}: {{name: RB, description: 'r %s'}}{o}}}}}}}", q(s), q(t))));
                                d.push(at(&["UART1"], &format!("{{_cluster: {{{n}: {{{}: {{}}, {}: {{}}{o}}}}}}}", q(s), q(t))));
                            }
                        }
                    }
                }
            }
            for s in ["CH*", "CH?", "CH1?", "CH[0-9]", "CCR*", "CCR?", "MIX*", "MIX1?", "CH[1-9],CH1[0-2]"] {
                for t in ["CH*", "CH?", "CH1?", "CCR*", "CCR?", "MIX*", "MIX1?", "?~CX*", "CH[1-9],CH1[0-2]"] {
                    for o in ["", ", _start_from_zero: true", ", description: 'of %s'"] {
                        d.push(at(&["UART1"], &format!("{{_cluster: {{'N%s': {{{}: {{name: RA}}, {}: {{name: RB}}{o}}}}}}}", q(s), if s == t { "'?~ZZ*'".into() } else { q(t) })));
                        d.push(at(&["UART1"], &format!("{{_cluster: {{NEW: {{{}: {{}}, {}: {{}}{o}}}}}}}", q(s), if s == t { "'?~ZZ*'".into() } else { q(t) })));
                    }
                }
            }
        }
        "C11" => {
            for s in ["REG*", "REG%s", "TAB*", "TAB[[]*", "LET%s", "*", "?~NOPE%s", "CH*", "[RT]*"] {
                for o in ["", "_preindex: true", "_noprefix: true", "_zeroindex: true"] {
                    d.push(at(&["UART1"], &format!("{{_expand_array: {{{}: {{{o}}}}}}}", q(s))));
                }
            }
            for (p, s) in [(&["UART1"][..], "CL%s"), (&["UART1"], "CL*"), (&["UART1"], "L1"), (&["UART1"], "*L*"), (&["UART1", "L1"], "L2"), (&["UART1", "L1", "L2"], "L3"), (&["UART1", "L1", "L2", "L3"], "L4*"), (&["UART1", "L1", "L2", "L3"], "*")] {
                for o in ["", "_preindex: true", "_noprefix: true", "_zeroindex: true", "_preindex: true, _zeroindex: true", "_noprefix: true, _zeroindex: true"] {
                    d.push(at(p, &format!("{{_expand_cluster: {{{}: {{{o}}}}}}}", q(s))));
                }
            }
            d.push(at(&["UART1"], "{_expand_cluster: ['CL*', L1], _expand_array: {'REG*': {}, 'LET*': {}}}"));
        }
        "C12" => {
            for p in fields {
                d.extend(rules(p, FSEL, &["{_merge: {N: #}}", "{_merge: [#]}", "{_merge: {#: }}", "{_split: #}", "{_split: {#: {name: 'S%s_', description: 'bit %s'}}}"]));
                d.push(at(p, "{_merge: {A: [PIN0, PIN1, PIN2], B: ['PIN1?'], C: 'MODER*'}}"));
            }
            for f in ["LOW", "HIGH", "TOP"] {
                d.push(at(&["UART1", "WIDE"], &format!("{{_split: {f}}}")));
                d.push(at(&["UART1", "WIDE"], &format!("{{_split: {{{f}: {{name: '%sB', description: 'bit %s of it'}}}}}}")));
            }
            for m in ["[LOW, HIGH]", "[HIGH, TOP]", "[LOW, HIGH, TOP]", "'*'", "[TOP, LOW]"] {
                d.push(at(&["UART1", "WIDE"], &format!("{{_merge: {{ALL: {m}}}}}")));
            }
            for r in ["EVS", "BYTE", "CCR12"] {
                d.push(at(&["UART1", r], "{_split: {'*': {}}}"));
                d.push(at(&["UART1", r], "{_merge: {N: '*'}}"));
            }
        }
        "C13" => {
            for pat in ["C", "CH", "CH1", "CC*", "*R", "?", "C?", "[CR]", "A_VERY_", "A_VERY_*_", "REG", "TAB", "CH[01]", "C*1"] {
                d.push(at(&["UART1"], &format!("{{_strip: {}}}", q(pat))));
                d.push(at(&["UART1"], &format!("{{_strip: [{}, 'CH1', H]}}", q(pat))));
            }
            for pat in ["0", "1", "2", "1?", "*9", "[0-9]", "%s", "[[]%s[]]", "R1", "_0123456789", "R*", "?"] {
                d.push(at(&["UART1"], &format!("{{_strip_end: {}}}", q(pat))));
                d.push(at(&["UART1"], &format!("{{_strip_end: [{}, '1', H]}}", q(pat))));
            }
            for p in [&["UART1"][..], &["UART1", "L1"], &["UART1", "L1", "L2", "L3"], &["UART1", "L1", "L2", "L3", "L4*"], &["UART1", "IDR"], &["UART1", "REG%s"], &["*1*", "CH*"]] {
                for r in ["{_prefix: PRE_}", "{_suffix: _POST}", "{_prefix: P, _suffix: S, _strip: C, _strip_end: '1'}", "{_strip: ['PIN', 'MODE']}", "{_strip_end: ['1?', '5']}"] {
                    d.push(at(p, r));
                }
            }
        }
        "C14" => {
            let vals = |n: usize, m: i64| (0..n).map(|i| format!("E{i}: [{}, 'value {i}']", i as i64 * m)).collect::<Vec<_>>().join(", ");
            for p in fields {
                for s in FSEL {
                    for v in ["{A: [0, a], B: [1, b]}".to_string(), format!("{{{}}}", vals(16, 1)), format!("{{_name: NM, {}}}", vals(11, 3)), "{_read: {A: [0, a]}, _write: {B: [1, b], C: [-1, rest]}}".into()] {
                        d.push(at(p, &format!("{{{}: {v}}}", q(s))));
                    }
                }
            }
            for (r, f) in [("EVS", "SEL"), ("EVS", "COPY"), ("EVS", "NONE"), ("EVS", "*"), ("WIDE", "LOW"), ("WIDE", "*"), ("REG%s", "F%s"), ("CH*", "MODE"), ("CH1?", "EN"), ("CH*", "*"), ("CCR*", "CCR*")] {
                for v in [format!("{{{}}}", vals(20, 1)), format!("{{_replace_enum: {{{}}}}}", vals(20, 2)), format!("{{{}}}", vals(12, 0x1_0000_0000)), "{_derivedFrom: SEL}".into(), "{_read: {_replace_enum: {A: [0, a]}}}".into()] {
                    d.push(at(&["UART1", r], &format!("{{{}: {v}}}", q(f))));
                }
            }
        }
        "C15" => {
            for p in fields {
                d.extend(rules(p, FSEL, &["{#: [0, 1]}", "{#: [5, 0xffff_ffff]}", "{#: {_write_constraint: enum}}", "{#: {_W1C: }}", "{#: {_RC: {A: [0, a]}}}", "{_clear: #}"]));
            }
            for f in ["LOW", "HIGH", "TOP", "*"] {
                for r in ["[0, 0x7fff_ffff_ffff_ffff]", "[0x1_0000_0000, 0x1_0000_0001]", "[0, 1]"] {
                    d.push(at(&["UART1", "WIDE"], &format!("{{{}: {r}}}", q(f))));
                }
            }
            for s in ["CH*", "CH1?", "EVS", "REG*", "*", "L1"] {
                d.push(at(&["UART1"], &format!("{{_clear_fields: {}}}", q(s))));
                d.push(at(&["UART1"], &format!("{{_clear_fields: [{}, CCR1]}}", q(s))));
                d.push(at(&["UART1"], &format!("{{{}: {{'*': [0, 1]}}}}", q(s))));
            }
            for s in PSEL {
                d.push(format!("{{_clear_fields: {}}}", q(s)));
            }
        }
        "C16" => {
            for s in PSEL {
                for r in ["{_delete: IDR}", "{_modify: {'*': {description: n}}}", "{'?~IDR': {'*': [0, 1]}}", "{_add: {N: {addressOffset: 0x9000}}}", "{_strip: C}", "{_add: {_interrupts: {N: {value: 8}}}}", "{_delete: {_interrupts: 'UART*'}}", "{_modify: {_interrupts: {'*': {description: n}}}}", "{_clear_fields: '*'}", "{_prefix: P_}", "{_expand_cluster: ['?~CL*']}", "{_array: {'?~CH1?': {}}}"] {
                    d.push(at(&[s], r));
                }
            }
        }
        "C17" => {
            let parts = [
                "_delete: 'CH1?'", "_copy: {CH10: {_from: CH0, addressOffset: 0x28}}", "_strip: C", "_modify: {H10: {description: m}}", "_add: {H11: {addressOffset: 0x2c}}", "_derive: {H12: {_from: MIX1, addressOffset: 0x30}}", "'?~H1?': {_add: {N: {bitOffset: 30, bitWidth: 1}}}", "_array: {'?~H[0-9]': {}}",
            ];
            for a in 0..parts.len() {
                for r in 0..parts.len() {
                    // rotations of all rules but one
                    let v: Vec<&str> = (0..parts.len()).map(|i| parts[(i + r) % parts.len()]).filter(|x| *x != parts[a]).collect();
                    d.push(at(&["UART1"], &format!("{{{}}}", v.join(", "))));
                    let mut w = v.clone();
                    w.reverse();
                    d.push(at(&["UART1"], &format!("{{{}}}", w.join(", "))));
                }
            }
        }
        "C28" => {
            for t in ["`peripheral`", "`block_path`", "`register`", "`register_path`", "a `block_path`.`peripheral` z"] {
                for p in [&["UART1"][..], &["UART*"], &["UART1", "L1"], &["UART1", "L1", "L2"], &["UART1", "L1", "L2", "L3"], &["UART1", "L1", "L2", "L3", "L4*"]] {
                    d.push(at(p, &format!("{{_modify: {{'?~*': {{description: '{t}'}}}}}}")));
                    d.push(at(p, &format!("{{_add: {{N: {{addressOffset: 0x80, description: '{t}', fields: {{F: {{bitOffset: 0, bitWidth: 1, description: '{t}'}}}}}}}}}}")));
                    d.push(at(&[p, &["?~A"]].concat(), &format!("{{_add: {{N: {{bitOffset: 8, bitWidth: 1, description: '{t}'}}}}}}")));
                    d.push(at(&[p, &["?~CH1?"]].concat(), &format!("{{_modify: {{'*': {{description: '{t}'}}}}}}")));
                }
            }
        }
        _ => return,
    }
    ctx.note("wide_alphabet", d.len());
    let kind = if ctx.prop == "C09" { "array" } else { "patch" };
    let svd = encode(&parse_lax(&wide()).expect("wide")).expect("wide");
    let n = svd.len();
    ctx.note("wide_device_bytes", n);
    ctx.run(d.iter().map(|d| Case::new(kind, json!({"svd": "@wide", "doc": d, "cfg": cfg0()}))));
    if ctx.prop == "C14" {
        for ed in ["field", "none"] {
            ctx.run(d.iter().map(|d| Case::new(kind, json!({"svd": "@wide", "doc": d, "cfg": {"ed": ed}}))));
        }
    }
}
