//! Decoys: elements whose other texts (display names, alternates, groups, names in another case, names of
//! another kind) look like the name of what a rule selects, and elements in unusual company (derived with own
//! content, arrays as sources). Every rule of a property at every level for every selector.
use crate::engine::*;
use crate::patchx::*;
use crate::spaces::{at, cfg0, q};
use crate::svd::*;

pub fn device() -> String {
    let fa = fld("FA", 0, 2, &evs("FB", "read", &[("FC", 0)]))
        + &format!("<field derivedFrom=\"FA\"><name>FB</name><description>FA</description><bitOffset>4</bitOffset><bitWidth>2</bitWidth>{}</field>", evs("FX", "write", &[("FA", 1)]))
        + "<field derivedFrom=\"FA\"><name>FC</name><bitOffset>8</bitOffset><bitWidth>2</bitWidth></field>"
        + &fldd(&dim(2, 4, Some("A,B")), "G%s", Some("FA"), 16, 2, "")
        + &fld("fa", 12, 1, "<access>read-only</access>")
        + &fld("FE", 24, 2, &("<access>read-writeOnce</access><modifiedWriteValues>oneToSet</modifiedWriteValues><writeConstraint><range><minimum>0</minimum><maximum>2</maximum></range></writeConstraint><readAction>clear</readAction>".to_string() + &evs("FC", "", &[("FE", 1)])))
        + &fldd(&dim(2, 4, None), "H%s", Some("h %s"), 13, 3, "<access>write-only</access><writeConstraint><useEnumeratedValues>true</useEnumeratedValues></writeConstraint>")
        + &fld("T0", 26, 1, "<access>write-only</access><modifiedWriteValues>set</modifiedWriteValues><readAction>set</readAction>")
        + &fld("T1", 27, 1, "<access>write-only</access><modifiedWriteValues>set</modifiedWriteValues><readAction>set</readAction>");
    let full = |n: u32, o: u64| {
        reg(&format!("S{n}"), o)
            .desc(&format!("s {n}"))
            .display(&format!("DS{n}"))
            .altreg("RA")
            .props("<alternateGroup>AG</alternateGroup><size>16</size><access>write-only</access><protection>p</protection><resetValue>5</resetValue><resetMask>0xFF</resetMask><dataType>uint16_t</dataType><modifiedWriteValues>clear</modifiedWriteValues><writeConstraint><range><minimum>1</minimum><maximum>9</maximum></range></writeConstraint><readAction>modify</readAction>")
            .fields(&(fld("FA", 0, 2, "") + &fld("T0", 4, 1, "")))
            .x()
    };
    let body = |t: &str| {
        reg("RA", 0).desc("RB").display("RB").altreg("RC").props("<alternateGroup>RB</alternateGroup>").fields(&fa).x()
            + &reg("RB", 4).desc("RA").display("RA").fields(&fld("FA", 0, 1, "")).x()
            + &reg("RC", 8).desc(t).from("RA").x()
            + &reg("RD", 12).from("RA").fields(&fld("FB", 30, 1, "")).x()
            + &reg("ra", 16).display("RA").fields(&fld("FA", 3, 1, "")).x()
            + &full(0, 64)
            + &full(1, 68)
            + &reg("RR%s", 32).dim(dim(2, 4, Some("A,B"))).desc("RA").fields(&fld("FA", 0, 1, "")).x()
    };
    let clu_h = |n: &str, o: u64, head: &str, b: &str| format!("<cluster><name>{n}</name><description>CB</description>{head}<addressOffset>{o}</addressOffset>{b}</cluster>");
    let clusters = clu_h("CA", 0x100, "<alternateCluster>CB</alternateCluster><headerStructName>CB</headerStructName>", &body("x")) + &clu_h("CB", 0x200, "<headerStructName>CA</headerStructName>", &body("y")) + &clu_h("ca", 0x300, "", &reg("RA", 0).x());
    let head = |n: &str, g: &str| format!("<version>1</version><description>{n}</description><alternatePeripheral>{g}</alternatePeripheral><groupName>{g}</groupName><headerStructName>{g}</headerStructName>");
    let p = |n: &str, g: &str, a: u64, i: &str, b: &str| {
        format!("<peripheral><name>{n}</name>{}<baseAddress>{a}</baseAddress>{i}<registers>{b}</registers></peripheral>", head(n, g))
    };
    dev(&(p("PA", "PB", 0x1000, &(int("PB", 1, "PA") + &int("PA", 2, "PB") + &int("pa", 3, "")), &(body("z") + &clusters))
        + &p("PB", "PA", 0x2000, &int("PA", 4, "other"), &body("w"))
        + &per_from("PC", "PA", 0x3000, "")
        + &format!("<peripheral derivedFrom=\"PA\"><name>PD</name><baseAddress>{}</baseAddress><registers>{}</registers></peripheral>", 0x4000, reg("RA", 0).fields(&fld("FA", 9, 1, "")).x())
        + &p("pa", "PA", 0x5000, "", &reg("RA", 0).x())))
}
const PS: [&str; 9] = ["PA", "PB", "PC", "PD", "pa", "P?", "p*", "?~PX", "P[AB]"];
const RS: [&str; 14] = ["S?", "S0", "RA", "RB", "RC", "RD", "ra", "R?", "RR%s", "RR*", "CA", "ca", "?~RX", "R[AC]"];
const FS: [&str; 13] = ["FE", "H%s", "T?", "?%s", "FA", "FB", "FC", "fa", "F?", "G%s", "GA", "?~FX", "[Ff]?"];
fn all(ctx: &Ctx, dev_rules: &[&str], per_rules: &[&str], reg_rules: &[&str]) {
    let mut d = vec![];
    for r in dev_rules {
        d.extend(PS.iter().map(|s| r.replace('#', &q(s))));
    }
    for p in ["PA", "PB", "PC", "PD", "pa"] {
        for r in per_rules {
            for s in RS.iter().chain(&["PA", "PB", "CB", "C?"]) {
                d.push(at(&[p], &r.replace('#', &q(s))));
                if p == "PA" {
                    for c in ["CA", "CB", "ca", "C?"] {
                        d.push(at(&[p, c], &r.replace('#', &q(s))));
                    }
                }
            }
        }
    }
    for p in [&["PA"][..], &["PB"], &["PD"], &["PC"], &["PA", "CA"], &["PA", "C*"]] {
        for r in ["RA", "RB", "RC", "RD", "ra", "R?", "RR%s", "S?"] {
            for x in reg_rules {
                d.extend(FS.iter().map(|s| at(&[p, &[r]].concat(), &x.replace('#', &q(s)))));
            }
        }
    }
    d.sort();
    d.dedup();
    let d = loadable(d);
    let svd = device();
    if let Err(e) = svd_parser::parse(&svd) { panic!("decoys: {e:?}") }
    ctx.note("decoys", d.len());
    ctx.run(d.iter().map(|d| case(&svd, d, &cfg0())));
}
pub fn delete(ctx: &Ctx) {
    all(
        ctx,
        &["{_delete: #}", "{_delete: [#, PB]}"],
        &["{_delete: #}", "{_delete: [#]}", "{_delete: {_registers: #}}", "{_delete: {_clusters: [#]}}", "{_delete: {_interrupts: #}}"],
        &["{_delete: #}", "{_delete: [#, '?~FA']}"],
    );
}
pub fn add(ctx: &Ctx) {
    all(
        ctx,
        &["{_add: {#: {baseAddress: 0x900}}}", "{_add: {Pa: {baseAddress: 0x900}, pA: {baseAddress: 0x904}, Pb: {baseAddress: 0x908}}}", "{_add: {#: {derivedFrom: PB, baseAddress: 0x900}}}"],
        &[
            "{_add: {#: {addressOffset: 0x80}}}", "{_add: {_registers: {#: {addressOffset: 0x80}}}}", "{_add: {_clusters: {#: {addressOffset: 0x80, registers: {N: {addressOffset: 0}}}}}}", "{_add: {_interrupts: {#: {value: 9}}}}",
            "{_add: {N: {addressOffset: 0x80, displayName: #}}}", "{_add: {N: {addressOffset: 0x80, alternateRegister: #}}}", "{_add: {Ra: {addressOffset: 0x80}, rA: {addressOffset: 0x84}}}",
            "{_add: {_clusters: {Cb: {addressOffset: 0x80, registers: {N: {addressOffset: 0}}}, Ca: {addressOffset: 0x90, registers: {N: {addressOffset: 0}}}}}}", "{_add: {_registers: {Rb: {addressOffset: 0x80}, rR%s: {addressOffset: 0x84}, CB: {addressOffset: 0x88}}}}", "{_add: {_interrupts: {Pa: {value: 9}, pB: {value: 10}}}}",
            "{_add: {_clusters: {RA: {addressOffset: 0x80, registers: {N: {addressOffset: 0}}}}}}",
        ],
        &["{_add: {#: {bitOffset: 24, bitWidth: 1}}}", "{_add: {N: {bitOffset: 24, bitWidth: 1, description: #}}}", "{_add: {Fa: {bitOffset: 24, bitWidth: 1}, fA: {bitOffset: 25, bitWidth: 1}}, #: [0, 1]}"],
    );
}
pub fn modify(ctx: &Ctx) {
    all(
        ctx,
        &["{_modify: {#: {description: m}}}", "{_modify: {#: {baseAddress: 0x900}}}", "{_modify: {#: {name: N}}}", "{_modify: {_peripherals: {#: {version: '2'}}}}", "{_modify: {#: {interrupts: {PA: {value: 30}, NEW: {value: 31}}}}}"],
        &[
            "{_modify: {#: {description: m}}}", "{_modify: {#: {size: 16}}}", "{_modify: {#: {name: N}}}", "{_modify: {#: {displayName: RC}}}", "{_modify: {#: {addressOffset: 0x90}}}", "{_modify: {_registers: {#: {description: m}}}}",
            "{_modify: {_clusters: {#: {description: m}}}}", "{_modify: {_interrupts: {#: {value: 30}}}}", "{_modify: {#: {dim: 3, dimIncrement: 8}}}", "{_modify: {#: {alternateRegister: RB}}}", "{_modify: {#: {derivedFrom: RB}}}", "{_modify: {#: {access: ''}}}", "{_modify: {#: {access: read-write}}}", "{_modify: {#: {_write_constraint: none}}}", "{_modify: {#: {resetMask: 1}}}", "{_modify: {#: {protection: n}}}", "{_modify: {_interrupts: {PA: {name: N}, 'P?': {description: m}}}}", "{_modify: {_interrupts: {PB: {name: PA}, PA: {name: PB}}}}",
        ],
        &[
            "{_modify: {#: {description: m}}}", "{_modify: {#: {bitOffset: 26}}}", "{_modify: {#: {name: N}}}", "{_modify: {#: {access: write-only}}}", "{_modify: {#: {bitWidth: 1}}}", "{_modify: {#: {dim: 2, dimIncrement: 3}}}", "{_modify: {#: {_write_constraint: enum}}}", "{_modify: {#: {access: ''}}}", "{_modify: {#: {_write_constraint: none}}}", "{_modify: {#: {readAction: modify}}}",
            "{_modify: {#: {derivedFrom: fa}}}",
        ],
    );
}
pub fn copy(ctx: &Ctx) {
    all(
        ctx,
        &["{_copy: {#: {from: PB}}}", "{_copy: {N: {from: #}}}", "{_copy: {PB: {from: #}}}", "{_copy: {Pa: {from: #}}}"],
        &["{_copy: {#: {from: RB}}}", "{_copy: {N: {_from: #, addressOffset: 0x90}}}", "{_copy: {N: {_from: #}}}", "{_copy: {RB: {_from: #}}}", "{_copy: {Ra: {_from: #, addressOffset: 0x90}}}", "{_copy: {_registers: {N: {_from: #, addressOffset: 0x90}}}}", "{_copy: {_clusters: {N: {_from: #, addressOffset: 0x90}}}}"],
        &[],
    );
}
pub fn derive(ctx: &Ctx) {
    all(
        ctx,
        &["{_derive: {#: PB}}", "{_derive: {N: #}}", "{_derive: {PB: #}}", "{_derive: {Pa: {_from: #, baseAddress: 0x900}}}", "{_derive: {PC: #}}"],
        &[
            "{_derive: {#: RB}}", "{_derive: {#: {_from: RB, dim: 3, dimIncrement: 4}}}", "{_derive: {#: {_from: RB, dim: 2, dimIncrement: 8, dimIndex: 'X,Y'}}}", "{_derive: {N: {_from: #, addressOffset: 0x90}}}", "{_derive: {RB: #}}", "{_derive: {Ra: {_from: #, addressOffset: 0x90}}}",
            "{_derive: {RRA: {_from: #, addressOffset: 0x90}}}", "{_derive: {'RR%s': #}}", "{_derive: {RC: #}}", "{_derive: {'N%s': {_from: #, addressOffset: 0x90, dim: 2, dimIncrement: 4}}}",
        ],
        &[
            "{_derive: {#: FA}}", "{_derive: {#: fa}}", "{_derive: {N: {_from: #, bitOffset: 28}}}", "{_derive: {FA: #}}", "{_derive: {FB: #}}", "{_derive: {'G%s': #}}", "{_derive: {GA: #}}", "{_derive: {#: {_from: fa, dim: 2, dimIncrement: 2}}}", "{_derive: {#: {_from: FA, dim: 3, dimIncrement: 4, dimIndex: 'X,Y,Z'}}}", "{_derive: {#: 'G%s'}}",
            "{_derive: {#: GA}}", "{_derive: {Fa: {_from: #, bitOffset: 28}}}", "{_derive: {'G%s': FC, FA: #}}", "{_derive: {FC: 'G%s', 'G%s': #}}", "{_derive: {'G%s': FA, fa: 'G%s', FA: #}}",
        ],
    );
}
pub fn rebase(ctx: &Ctx) {
    all(ctx, &["{_rebase: {#: PA}}", "{_rebase: {PC: #}}", "{_rebase: {PD: #}}", "{_rebase: {pa: #}}", "{_rebase: {PC: PA, PD: #}}"], &[], &[]);
}
pub fn process(ctx: &Ctx) {
    all(
        ctx,
        &["{#: {_modify: {RA: {size: 8}}}}", "{#: {RA: {_modify: {FA: {description: m}}}}}", "{#: {}}", "{#: {RA: {}}}"],
        &["{#: {}}", "{#: {FA: {}}}", "{#: {_add: {N: {bitOffset: 27, bitWidth: 1}}}}", "{#: {_modify: {FA: {description: m}}}}", "{_clusters: {#: {}}}", "{_clusters: {#: {RA: {}}}}", "{#: {FA: [0, 1]}}", "{#: {_delete: FA}}", "{#: {_derive: {FA: FB}}}"],
        &["{#: {}}", "{#: [0, 1]}", "{#: {_W1C: {}}}", "{#: {_read: {}}}"],
    );
}
pub fn enums(ctx: &Ctx) {
    all(
        ctx,
        &[],
        &["{#: {FA: {V: [0, v]}}}", "{#: {'F[AB]': {_read: {V: [0, v]}}}}", "{#: {fa: {_derivedFrom: FB}}}"],
        &[
            "{#: {V: [0, v]}}", "{#: {_replace_enum: {V: [0, v]}}}", "{#: {_read: {V: [0, v]}}}", "{#: {_write: {V: [0, v]}}}", "{#: {_read: {_replace_enum: {V: [0, v]}}}}", "{#: {_write: {_replace_enum: {V: [0, v]}}}}", "{#: {_derivedFrom: FB}}", "{#: {_derivedFrom: FX}}", "{#: {_derivedFrom: FC}}", "{#: {_replace_enum: {_derivedFrom: FC}}}", "{#: {_read: {_derivedFrom: FB}}}",
            "{#: {_write: {_derivedFrom: FX}}}", "{#: {_name: FB, V: [0, v]}}", "{#: {_read: {_name: FX, V: [0, v]}}}", "{#: {_W1C: {V: [1, v]}, _RC: {W: [0, w]}}}",
        ],
    );
}
pub fn constraints(ctx: &Ctx) {
    all(
        ctx,
        &["{_clear_fields: #}"],
        &["{_clear_fields: #}", "{_clear_fields: [#, RB]}", "{#: {_clear: FA}}", "{_modify: {#: {_write_constraint: [0, 1]}}}"],
        &["{_clear: #}", "{_clear: [#]}", "{#: [0, 1]}", "{#: [1, 1]}", "{#: {_RM: {}}}", "{#: {_WM: {}}}", "{#: {_W1C: {}, _RC: {}}}", "{_modify: {#: {_write_constraint: none}}}", "{_modify: {#: {_write_constraint: enum}}}"],
    );
}
pub fn affixes(ctx: &Ctx) {
    all(
        ctx,
        &["{#: {_strip: [R]}}", "{#: {_strip_end: [A]}}", "{#: {_prefix: X}}", "{#: {_suffix: X}}", "{#: {_strip: 'R?'}}", "{#: {_clusters: {'C?': {_strip: R}}}}"],
        &["{#: {_strip: F}}", "{#: {_strip_end: [A]}}", "{#: {_prefix: X}}", "{#: {_suffix: X}}", "{_strip: [R, C], #: {_strip: F}}", "{_prefix: X_, #: {_prefix: Y}}"],
        &[],
    );
}
pub fn split(ctx: &Ctx) {
    all(
        ctx,
        &[],
        &["{#: {_merge: [FA, FB]}}", "{#: {_split: [FA]}}"],
        &["{_split: [#]}", "{_split: #}", "{_split: {#: {name: 'N%s'}}}", "{_split: {#: {name: 'FA%s', description: 'd %s'}}}", "{_split: [#, '?~fa']}", "{_split: ['?~F*']}", "{_split: {'?~F?': {}}}", "{_merge: [#]}", "{_merge: {N: #}}", "{_merge: {FA: [FA, #]}}", "{_merge: {N: [#, FB]}}", "{_merge: [[#, fa]]}"],
    );
}
pub fn arrays(ctx: &Ctx) {
    all(ctx, &[], &["{_array: {#: {}}}", "{_array: {#: {name: 'N%s'}}}", "{#: {_array: {'F?': {}}}}", "{_expand_array: {#: {}}}"], &["{_array: {#: {}}}", "{_array: {#: {name: 'N%s'}}}", "{_array: {#: {name: 'N%s', description: 'd', _start_from_zero: true}}}"]);
}
pub fn clusters(ctx: &Ctx) {
    all(ctx, &[], &["{_cluster: {'K%s': {#: {}}}}", "{_cluster: {K: {#: {}}}}", "{_cluster: {K: {#: {name: X}, 'RB': {}}}}", "{_expand_cluster: {#: {}}}", "{_expand_cluster: [#]}"], &[]);
}

// ------------------------------------------------------------------ C17: every two rules, in both orders
/// the results of the two orders are both compared with the model, whose order of phases is fixed
pub fn phases(ctx: &Ctx) {
    let f = |n: &str, o: u32, w: u32| fld(n, o, w, &evs("", "", &[("V", 0)]));
    let body = reg("A0", 0).desc("a").fields(&f("F", 0, 2)).x()
        + &reg("A1", 4).desc("b").fields(&f("F", 0, 2)).x()
        + &reg("B%s", 0x10).dim(dim(2, 4, None)).fields(&f("F", 0, 2)).x()
        + &reg("D", 0x20).from("A0").x()
        + &clu(&dim(2, 0x10, None), "K%s", 0x40, &reg("Z", 0).fields(&f("F", 0, 2)).x())
        + &clu("", "L", 0x80, &reg("A0", 0).fields(&f("F", 0, 2)).x());
    let names = ["A0", "A1", "B0", "B%s", "A%s", "N", "PN", "K%s", "K0", "L", "L_A0", "Q%s", "D", "?0"];
    let mut rules: Vec<(String, String)> = vec![];
    for n in names {
        let s = q(n);
        for r in [
            "_delete: [#]", "_copy: {N: {_from: #, addressOffset: 0x60}}", "_copy: {#: {_from: A0, addressOffset: 0x60}}", "_strip: [#]", "_modify: {#: {description: m}}", "_modify: {#: {name: N}}", "_modify: {#: {_write_constraint: [0, 1]}}",
            "_clear_fields: [#]", "_add: {#: {addressOffset: 0x70, fields: {F: {bitOffset: 0, bitWidth: 2, readAction: clear, writeConstraint: [0, 1]}}}}", "_derive: {#: {_from: A0, addressOffset: 0x60}}", "_derive: {N: {_from: #, addressOffset: 0x60}}",
            "#: {F: [0, 1]}", "#: {_modify: {F: {description: r}}}", "_expand_array: {#: {}}", "_array: {#: {name: 'Q%s'}}", "_cluster: {'Q%s': {#: {name: X}}}", "_clusters: {#: {_modify: {'*': {description: z}}}}", "_clusters: {#: {'*': {_delete: F}}}", "_expand_cluster: [#]",
        ] {
            rules.push((r.split(':').next().unwrap().into(), r.replace('#', &s)));
        }
    }
    for r in [
        "_strip: [A]", "_strip_end: ['0']", "_prefix: P", "_suffix: '1'", "_array: {'A?': {}}", "_array: {'B?': {}}", "_array: {'?[01]': {name: 'Q%s'}}", "_cluster: {'K%s': {'A?': {name: Z}}}", "_cluster: {'Q%s': {'A?': {}}}", "_cluster: {L: {D: {}}}", "_delete: {_clusters: 'K*'}",
        "_add: {_clusters: {N: {addressOffset: 0x90, registers: {A0: {addressOffset: 0}}}}}", "_add: {A2: {addressOffset: 8}}", "_modify: {_clusters: {'K*': {name: 'Q%s'}}}", "_expand_cluster: {'K*': {_preindex: ''}}", "_modify: {_interrupts: {I: {value: 3}}}", "_add: {_interrupts: {J: {value: 4}}}", "_delete: {_interrupts: I}",
    ] {
        rules.push((r.split(':').next().unwrap().into(), r.into()));
    }
    let svd = dev(&(per("P", 0, &int("I", 1, "i"), &body) + &per("Q", 0x1000, "", &clu("", "CC", 0, &body))));
    let both = |rules: &[(String, String)], wrap: &dyn Fn(&str) -> Vec<String>| {
        let mut d = vec![];
        for a in rules {
            for b in rules {
                if a.0 != b.0 {
                    d.extend(wrap(&format!("{{{}, {}}}", a.1, b.1)));
                }
            }
        }
        d
    };
    // (inside clusters: a part of them, unless thorough)
    let thorough = ctx.thorough;
    let docs = both(&rules, &|r| {
        let mut v = vec![format!("{{P: {r}}}")];
        if thorough && !r.contains("_expand_cluster") {
            v.push(format!("{{Q: {{CC: {r}}}}}"));
        }
        v
    });
    ctx.note("peripheral_pairs", docs.len());
    ctx.run(docs.iter().map(|d| case(&svd, d, &cfg0())));
    // registers
    let fs = f("A0", 0, 1) + &f("A1", 1, 1) + &fld("B0", 2, 1, "") + &fld("B1", 4, 1, "") + &fld("W", 8, 2, "<readAction>clear</readAction>") + &fldd(&dim(2, 1, None), "G%s", Some("g"), 12, 1, "") + "<field derivedFrom=\"A0\"><name>D</name><bitOffset>20</bitOffset><bitWidth>1</bitWidth></field>";
    let mut rules: Vec<(String, String)> = vec![];
    for n in ["A0", "A1", "B0", "W", "W0", "W%s", "G%s", "A%s", "N", "PA0", "D", "?0", "A", "*"] {
        let s = q(n);
        for r in [
            "_delete: [#]", "_strip: [#]", "_clear: [#]", "_modify: {#: {description: m}}", "_modify: {#: {name: N}}", "_modify: {#: {access: read-only, _write_constraint: [0, 1]}}", "_add: {#: {bitOffset: 28, bitWidth: 1, readAction: clear, writeConstraint: [0, 1]}}", "_derive: {#: {_from: A1, bitOffset: 24, bitWidth: 1}}",
            "_derive: {N: {_from: #, bitOffset: 24, bitWidth: 1}}", "_merge: [#]", "_merge: {N: [#, B0]}", "_merge: {#: [A0, A1]}", "_split: [#]", "_split: {#: {name: 'A%s'}}", "#: {X: [0, x]}", "#: [0, 1]", "#: {_replace_enum: {X: [1, x]}}", "#: {_W1C: {}}", "_array: {#: {name: 'Q%s'}}",
        ] {
            rules.push((r.split(':').next().unwrap().into(), r.replace('#', &s)));
        }
    }
    for r in ["_strip: [A]", "_strip_end: ['0']", "_prefix: P", "_suffix: '1'", "_array: {'A?': {}}", "_array: {'W?': {}}", "_merge: ['A*']", "_merge: {W: ['?0', '?1']}"] {
        rules.push((r.split(':').next().unwrap().into(), r.into()));
    }
    let svd = dev(&(per("P", 0, "", &reg("R", 0).fields(&fs).x())));
    let docs = both(&rules, &|r| vec![format!("{{P: {{R: {r}}}}}")]);
    ctx.note("register_pairs", docs.len());
    ctx.run(docs.iter().map(|d| case(&svd, d, &cfg0())));
    // devices
    let ps: String = ["A", "B"].iter().enumerate().map(|(i, n)| per(n, 0x1000 * i as u64, &int(&format!("I{n}"), i as u32, ""), &reg("R", 0).desc(n).fields(&f("F", 0, 2)).x())).collect::<String>() + &per_from("C", "A", 0x3000, "") + &per_from("E", "C", 0x4000, &int("IE", 9, ""));
    let mut rules: Vec<(String, String)> = vec![];
    for n in ["A", "B", "C", "E", "N", "?", "[AC]"] {
        let s = q(n);
        for r in [
            "_delete: [#]", "_copy: {N: {from: #}}", "_copy: {#: {from: A}}", "_modify: {#: {description: m}}", "_modify: {#: {name: N}}", "_modify: {#: {baseAddress: 0x9000}}", "_clear_fields: #", "_add: {#: {baseAddress: 0x5000, registers: {R: {addressOffset: 0, fields: {F: {bitOffset: 0, bitWidth: 1, writeConstraint: [0, 1]}}}}}}",
            "_derive: {#: A}", "_derive: {#: C}", "_derive: {N: #}", "_derive: {E: #}", "_rebase: {#: A}", "_rebase: {C: #}", "_rebase: {E: #}", "#: {R: {F: [0, 1]}}", "#: {_delete: R}", "#: {_add: {S: {addressOffset: 4}}}",
        ] {
            rules.push((r.split(':').next().unwrap().into(), r.replace('#', &s)));
        }
    }
    let svd = dev(&ps);
    let docs = both(&rules, &|r| vec![r.to_string()]);
    ctx.note("device_pairs", docs.len());
    ctx.run(docs.iter().map(|d| case(&svd, d, &cfg0())));
}
