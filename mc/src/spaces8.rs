//! The Python implementation.
use crate::engine::*;
use crate::spaces::{at, q};
use crate::svd::*;
use serde_json::json;

fn d(r: Reg) -> Reg {
    let t = format!("{} of the device", r.name);
    if r.desc.is_none() { r.desc(&t) } else { r }
}
/// a device of what both implementations process
pub fn common_device() -> String {
    let vals = evs("SEL", "read-write", &[("Off", 0), ("On", 1)]);
    let cr = d(reg("CR", 0)).display("CR").props("<access>read-write</access>").fields(
        &(fld("EN", 0, 1, "") + &fld("SEL", 1, 2, &vals) + &fld("DIV", 4, 4, "<writeConstraint><range><minimum>0</minimum><maximum>9</maximum></range></writeConstraint>") + &fld("CH0", 8, 2, "") + &fld("CH1", 10, 2, "") + &fld("CH2", 12, 2, "") + &fld("X1", 20, 1, "") + &fld("X3", 24, 1, "")),
    );
    let sr = d(reg("SR", 4)).props("<access>read-only</access>").fields(&(fld("EN", 0, 1, "") + &fld("RDY", 1, 1, "<access>read-only</access>")));
    let mut body = cr.x() + &sr.x();
    for i in 0..4u64 {
        body += &reg(&format!("DR{i}"), 0x10 + 4 * i).desc(&format!("data {i}")).fields(&fld("D", 0, 8, "")).x();
    }
    for i in 1..3u64 {
        body += &reg(&format!("SET{i}"), 0x40 + 8 * i).desc(&format!("set {i}")).fields(&fld("S", 0, 1, "")).x();
        body += &reg(&format!("CLR{i}"), 0x44 + 8 * i).desc(&format!("clear {i}")).fields(&fld("C", 0, 1, "")).x();
    }
    body += &d(reg("UA_OLD_R", 0x80)).x();
    // all notations of bit ranges
    let f = |n: &str, r: &str| format!("<field><name>{n}</name><description>{n} field</description>{r}</field>");
    body += &d(reg("LAYOUT", 0x88)).fields(&(f("L0", "<lsb>0</lsb><msb>2</msb>") + &f("L1", "<lsb>3</lsb><msb>5</msb>") + &f("R0", "<bitRange>[11:8]</bitRange>") + &f("R1", "<bitRange>[15:12]</bitRange>") + &f("M0", "<bitOffset>16</bitOffset><bitWidth>2</bitWidth>") + &f("M1", "<lsb>18</lsb><msb>19</msb>") + &f("M2", "<bitRange>[21:20]</bitRange>"))).x();
    let head = |n: &str, i: u32| format!("<addressBlock><offset>0</offset><size>0x400</size><usage>registers</usage></addressBlock>{}{}", int(n, i, &format!("{n} interrupt")), int(&format!("{n}_ERR"), i + 1, "error"));
    let desc = |p: String, t: &str| p.replacen("</name>", &format!("</name><description>{t}</description>"), 1);
    dev(&(desc(per("UA", 0x1000, &head("UA", 3), &body), "first")
        + &desc(per_from("UB", "UA", 0x2000, &int("UB", 7, "second")), "second")
        + &desc(per("TIM1", 0x3000, &head("TIM1", 20), &(cr.x() + &d(reg("CNT", 8)).fields(&fld("CNT", 0, 16, "")).x())), "timer")
        + &desc(per_from("UC", "UA", 0x4000, ""), "third")))
    .replacen("<addressUnitBits>", "<cpu><name>CM0</name><revision>r0p0</revision><endian>little</endian><mpuPresent>false</mpuPresent><fpuPresent>false</fpuPresent><nvicPrioBits>2</nvicPrioBits><vendorSystickConfig>false</vendorSystickConfig></cpu><addressUnitBits>", 1)
}
const PS: &[&str] = &["UA", "UB", "UC", "TIM1", "U*", "U?", "U[AB]", "U[!A]", "TIM*", "UA,TIM1", "{UA,TIM1}", "U{A,C}", "U{,A}", "TIM1{,X}", "*", "NOPE", "UA?", "ua", "U", "[A-Z]*1"];
const RS: &[&str] = &["CR", "SR", "CR,SR", "DR0", "DR?", "DR*", "DR[12]", "DR[!0]", "{DR0,SR}", "SET{1,2}", "CR{,X}", "DR{0,,1}", "{S,}R", "*", "?R", "NOPE", "SET*,CLR1", "D", "cr", "*1"];
const FS: &[&str] = &["EN", "SEL", "DIV", "CH0", "CH?", "CH*", "CH[01]", "EN,SEL", "{EN,DIV}", "EN{,X}", "CH{0,}", "NOPE", "X?", "*", "en", "C"];

pub fn py_patch(ctx: &Ctx) {
    let mut v: Vec<String> = vec!["{}".into()];
    let opt = |s: &&str| -> Vec<String> { vec![q(s), q(&format!("?~{s}"))] };
    // device
    for p in PS {
        let s = q(p);
        v.push(format!("{{_delete: [{s}]}}"));
        v.push(format!("{{_delete: [TIM1, {s}]}}"));
        // the Python implementation leaves derived peripherals alone
        if !["UB", "UC", "U*", "U?", "U[AB]", "U[!A]", "U{A,C}", "U{,A}", "*"].contains(p) {
            for m in ["description: new", "protection: s", "alternatePeripheral: UB, headerStructName: H, prependToName: P_, appendToName: _A", "addressBlock: {protection: n}", "groupName: G, version: '2'", "addressBlock: {size: 0x10, offset: 4, usage: registers}", "addressBlocks: [{offset: 0, size: 4, usage: registers}, {offset: 8, size: 8, usage: reserved}]"] {
                v.push(format!("{{_modify: {{{s}: {{{m}}}}}}}"));
                v.push(format!("{{_modify: {{_peripherals: {{{s}: {{{m}}}}}}}}}"));
            }
        }
        v.push(format!("{{_clear_fields: [{s}]}}"));
    }
    for a in ["UA", "UB", "UC", "TIM1"] {
        v.push(format!("{{_modify: {{{a}: {{name: RENAMED}}}}}}"));
        if a == "UA" || a == "TIM1" {
            v.push(format!("{{_modify: {{{a}: {{baseAddress: 0x9000}}}}}}"));
        }
    }
    for m in ["name: N", "version: '7'", "description: text", "width: 16", "size: 16", "resetValue: 1", "cpu: {name: CM4}", "cpu: {revision: r1p2, mpuPresent: true, nvicPrioBits: 4}", "cpu: {fpuPresent: true, endian: big}", "vendor: V, series: S", "access: read-only, resetMask: 0xF", "vendorID: v", "licenseText: l, headerSystemFilename: h, headerDefinitionsPrefix: P_", "addressUnitBits: 16", "cpu: {sauNumRegions: 3, deviceNumInterrupts: 40, vtorPresent: false, fpuDP: true}", "name: N, cpu: {name: CM7}, UA: {description: n}", "protection: p"] {
        v.push(format!("{{_modify: {{{m}}}}}"));
    }
    let fields = "fields: {F: {description: f, bitOffset: 3, bitWidth: 2, access: read-only}, G: {description: g, bitOffset: 0, bitWidth: 1}}";
    for n in ["NEW", "UA", "A"] {
        for b in ["baseAddress: 0x5000", "baseAddress: '0x5000', derivedFrom: UA", "description: n, groupName: g, baseAddress: 0x6000, addressBlock: {offset: 0, size: 0x10, usage: registers}, interrupts: {I: {description: i, value: 30}, J: {description: j, value: 29}}", "baseAddress: 0, addressBlocks: [{offset: 0, size: 4, usage: registers}, {offset: 8, size: 8, usage: reserved}]", "baseAddress: 0x5000, size: 16, access: read-only, resetValue: 1, version: x", "baseAddress: 0x5000, protection: n, alternatePeripheral: UA, headerStructName: H, prependToName: P_, appendToName: _A, addressBlock: {offset: 0, size: 4, usage: registers, protection: s}", "baseAddress: 0x5000, derivedFrom: UA, size: 16, access: read-only, resetMask: 7, addressBlocks: [{offset: 0, size: 4, usage: registers}]"] {
            v.push(format!("{{_add: {{{n}: {{{b}}}}}}}"));
            v.push(format!("{{_add: {{{n}: {{{b}}}}}, {n}: {{_add: {{R: {{description: r, addressOffset: 4}}}}}}}}"));
            v.push(format!("{{_add: {{{n}: {{{b}, registers: {{R: {{description: r, addressOffset: 4, {fields}}}, Q: {{description: q, addressOffset: 0, size: 8}}}}}}}}}}"));
        }
    }
    for a in ["UA", "UB", "UC", "TIM1", "NEW"] {
        for b in ["UA", "UB", "TIM1", "NOPE"] {
            if a != "NEW" && b != "UB" {
                v.push(format!("{{_copy: {{{a}: {{from: {b}}}}}}}"));
            }
            v.push(format!("{{_derive: {{{a}: {b}}}}}"));
            v.push(format!("{{_derive: {{{a}: {{_from: {b}, baseAddress: 0x8000, description: n}}}}}}"));
            v.push(format!("{{_derive: {{{a}: {{_from: {b}, baseAddress: 0}}}}}}"));
            if a != b && (a == "UB" || a == "UC") && b != "UB" {
                v.push(format!("{{_rebase: {{{a}: {b}}}}}"));
            }
        }
    }
    // registers
    for p in ["UA", "TIM1", "U*", "?~UA", "?~NOPE", "NOPE", "UB", "UA,TIM1", "{UA,TIM1}"] {
        for r in RS {
            let s = q(r);
            for b in ["{_delete: [#]}", "{_delete: {_registers: [#]}}", "{_modify: {#: {description: new}}}", "{_modify: {_registers: {#: {size: 16, resetValue: 5, access: write-only}}}}", "{_clear_fields: [#]}", "{_modify: {#: {displayName: x, description: y}}}", "{_modify: {#: {displayName: ''}}}", "{_modify: {#: {protection: s, dataType: uint16_t}}}", "{_modify: {#: {modifiedWriteValues: oneToClear, readAction: clear}}}"] {
                v.push(at(&[p], &b.replace('#', &s)));
            }
        }
        for i in ["UA", "UA_ERR", "U*", "*_ERR", "NOPE", "UB", "*"] {
            let s = q(i);
            for b in ["{_delete: {_interrupts: [#]}}", "{_modify: {_interrupts: {#: {value: 44}}}}", "{_modify: {_interrupts: {#: {description: new, value: 45}}}}", "{_add: {_interrupts: {N: {description: n, value: 50}, M: {value: 51}}}, _delete: {_interrupts: [#]}}"] {
                v.push(at(&[p], &b.replace('#', &s)));
            }
        }
        for i in ["UA", "N"] {
            v.push(at(&[p], &format!("{{_add: {{_interrupts: {{{i}: {{description: n, value: 50}}}}}}}}")));
        }
        for n in ["NEW", "CR", "C"] {
            v.push(at(&[p], &format!("{{_add: {{{n}: {{description: n, addressOffset: 0x90, {fields}}}}}}}")));
            v.push(at(&[p], &format!("{{_add: {{_registers: {{{n}: {{description: n, addressOffset: 0x90, access: read-write, size: 16, resetValue: 3}}}}}}}}")));
            v.push(at(&[p], &format!("{{_add: {{{n}: {{description: n, addressOffset: 0x90, protection: n, dataType: int8_t, modifiedWriteValues: set, readAction: modifyExternal}}}}}}")));
        }
        for a in ["DR1", "SR", "NEW"] {
            for b in ["DR0", "CR", "NOPE"] {
                v.push(at(&[p], &format!("{{_derive: {{{a}: {b}}}}}")));
                v.push(at(&[p], &format!("{{_derive: {{{a}: {{_from: {b}, addressOffset: 0x94, description: n}}}}}}")));
                v.push(at(&[p], &format!("{{_derive: {{{a}: {{_from: {b}, addressOffset: 0}}}}}}")));
                v.push(at(&[p], &format!("{{_derive: {{_registers: {{{a}: {{_from: {b}, addressOffset: 0}}}}}}}}")));
                if a == "NEW" {
                    v.push(at(&[p], &format!("{{_copy: {{{a}: {{_from: {b}, addressOffset: 0x94}}}}}}")));
                    for o in ["description: n", "size: 16", "access: write-only, resetValue: 4, resetMask: 3", "alternateRegister: SR", "alternateGroup: G"] {
                        v.push(at(&[p], &format!("{{_copy: {{{a}: {{_from: {b}, addressOffset: 0x94, {o}}}}}}}")));
                    }
                }
            }
        }
        for t in ["UA_", "C", "S", "UA_OLD_", "R", "DR", "D?", "NOPE", "?", "[CD]", "*_"] {
            v.push(at(&[p], &format!("{{_strip: [{}]}}", q(t))));
            v.push(at(&[p], &format!("{{_strip_end: [{}]}}", q(t))));
        }
        for s in ["DR*", "DR?", "DR[0-3]", "DR[01]", "DR[12]", "DR[13]", "DR[023]", "SET*", "SET?", "?R", "CR", "NOPE*", "?~NOPE*", "CLR*", "*"] {
            for o in ["description: 'array %s'", "name: 'N%s', description: 'array %s'", "_start_from_zero: true, description: d", "description: _original"] {
                v.push(at(&[p], &format!("{{_array: {{{}: {{{o}}}}}}}", q(s))));
            }
        }
        for s in ["DR*", "DR?", "DR[0-2]"] {
            for o in ["D: {A: [0, a]}", "D: [0, 3]", "_modify: {D: {access: read-only}}", "_delete: [D]", "_add: {E: {description: e, bitOffset: 9, bitWidth: 1}}", "_clear: [D]", "NOPE: {A: [0, a]}", "'?~NOPE': {A: [0, a]}", "_split: [D]", "_split: {D: {name: 'N%s', description: 'x %s'}}"] {
                for n in ["", ", name: 'N%s'", ", _start_from_zero: true", ", description: n"] {
                    v.push(at(&[p], &format!("{{_array: {{{}: {{{o}{n}}}}}}}", q(s))));
                    if !n.contains("start") {
                        v.push(at(&[p], &format!("{{_cluster: {{'G%s': {{{}: {{{o}{n}}}}}}}}}", q(s))));
                    }
                }
            }
        }
        for c in ["SET*: {name: S, description: new}, CLR*: {name: C, description: 'all %s'}", "'{SET,CLR}1': {name: A}", "'SET1,CLR1': {}", "'DR[01]': {name: D}, 'DR[23]': {name: E}", "'DR[01]': {name: D}, 'SET?': {name: E}", "description: d, '?~NOPE*': {}, 'SET?': {name: E}", "description: d, '?~SET?': {name: E}, 'CLR?': {}", "'?~NOPE*': {}"] {
            if !c.contains('{') || !c.contains("1'") {
                v.push(at(&[p], &format!("{{_cluster: {{'G%s': {{{c}}}}}}}")));
            }
        }
        v.push(at(&[p], "{_cluster: {'G%s': {'DR[01]': {name: D}}, 'H%s': {'DR[23]': {name: E}}}}"));
        for m in ["addressOffset: 0x90", "name: CR2", "alternateRegister: SR", "alternateGroup: G", "resetMask: 0xF", "resetValue: 0x10, resetMask: 0", "access: read-only", "size: 8"] {
            for s in ["CR", "SR", "LAYOUT", "CR,LAYOUT", "UA_OLD_R"] {
                if !(m.starts_with("name") && s.contains(',')) {
                    v.push(at(&[p], &format!("{{_modify: {{{}: {{{m}}}}}}}", q(s))));
                }
            }
        }
        for c in ["'DR[12]': {name: D}, 'SET?': {name: E}", "'SET?': {name: E}, 'DR[12]': {name: D}", "'SET?': {name: E}, 'CLR?': {name: F}, 'DR[12]': {name: D}", "SET*: {}, CLR*: {}", "SET*: {name: S}, CLR*: {name: C}", "'SET?': {}", "'SET?': {}, 'CLR?': {name: Z}", "'DR[01]': {}", "'DR*': {name: D}", "'NOPE*': {}", "'SET*': {}, 'DR*': {}", "description: text, 'SET*': {name: S}, 'CLR*': {name: C}"] {
            v.push(at(&[p], &format!("{{_cluster: {{'G%s': {{{c}}}}}}}")));
        }
    }
    // fields
    for p in ["UA", "UA,TIM1", "?~UA"] {
        for r in ["CR", "?R", "CR,SR", "?~CR", "?~NOPE", "NOPE", "SR"] {
            for f in FS {
                let s = q(f);
                for b in ["{_delete: [#]}", "{_modify: {#: {description: new}}}", "{_modify: {#: {access: read-only, bitOffset: 30, bitWidth: 1}}}", "{_modify: {#: {_write_constraint: none}}}", "{_modify: {#: {_write_constraint: enum}}}", "{_modify: {#: {_write_constraint: [0, 1]}}}", "{_clear: [#]}", "{_merge: [#]}", "{_merge: {NEW: #}}", "{_merge: {NEW: [#]}}", "{_split: [#]}", "{_split: {#: {name: 'N%s', description: 'bit %s'}}}"] {
                    // (the merged field would have no name)
                    if b != "{_merge: [#]}" || !["EN,SEL", "{EN,DIV}", "*"].contains(f) {
                        v.push(at(&[p, r], &b.replace('#', &s)));
                    }
                }
                for s in opt(f) {
                    for b in [
                        "[0, 1]", "{A: [0, a], B: [1, b]}", "{B: [1, b], A: [0, a]}", "{_name: NM, A: [0, a]}", "{A: [0, a], D: [-1, rest]}", "{_read: {A: [0, a]}}", "{_write: {A: [0, a]}}", "{_read: {A: [0, a]}, _write: {B: [1, b]}}", "{_replace_enum: {A: [0, a], B: [1, b]}}",
                        "{_RC: {A: [0, a]}}", "{_RM: {}}", "{_RS: {}}", "{_RME: {}}", "{_W1C: {A: [1, a]}}", "{_W1S: {}}", "{_W0C: {}}", "{_W0S: {}}", "{_W1T: {}}", "{_W0T: {}}", "{_WM: {}}", "{_WS: {}}", "{_WC: {}}", "{_RC: {N: [0, n]}, _W1C: {C: [1, c]}}", "{A: [0, a], B: [0, b]}", "{1A: [0, a]}", "{_derivedFrom: SEL}",
                    ] {
                        // a read enumeration on a read-only register is for both in the defined semantics
                        if (b.contains("_read") || b.contains("_RC: {") || b.contains("_write: {") || b.contains("_W1C")) && ["?R", "CR,SR", "SR"].contains(&r) {
                            continue;
                        }
                        v.push(at(&[p, r], &format!("{{{s}: {b}}}")));
                    }
                }
            }
            for n in ["NEW", "EN", "E"] {
                v.push(at(&[p, r], &format!("{{_add: {{{n}: {{description: n, bitOffset: 28, bitWidth: 3}}}}}}")));
                v.push(at(&[p, r], &format!("{{_add: {{{n}: {{description: n, bitOffset: 28, bitWidth: 3, access: write-only}}}}}}")));
            }
            for t in ["E", "CH", "X", "N", "1", "NOPE", "?", "[EX]"] {
                v.push(at(&[p, r], &format!("{{_strip: [{}]}}", q(t))));
                v.push(at(&[p, r], &format!("{{_strip_end: [{}]}}", q(t))));
            }
            for s in ["CH*", "CH?", "CH[01]", "CH[02]", "X*", "X?", "NOPE*", "?~NOPE*", "EN"] {
                for o in ["description: 'array %s'", "name: 'N%s', description: 'array %s'", "_start_from_zero: true, description: d", "description: _original"] {
                    v.push(at(&[p, r], &format!("{{_array: {{{}: {{{o}}}}}}}", q(s))));
                }
            }
        }
    }
    for t in ["L", "R", "M"] {
        for b in ["_merge: ['#*']", "_merge: {N: '#*'}", "_merge: {N: [#0, #1]}", "_split: [#0]", "_split: {#1: {name: 'B%s', description: 'b %s'}}", "_array: {'#*': {description: d}}", "_array: {'#?': {name: 'N%s', description: d}}", "'#*': {A: [0, a], B: [3, b]}", "#0: [0, 3]", "_delete: ['#?']", "_clear: [#1]"] {
            v.push(at(&["UA", "LAYOUT"], &format!("{{{}}}", b.replace('#', t))));
        }
    }
    v.push(at(&["UA", "LAYOUT"], "{_merge: {ALL: [L0, R0, M1]}}"));
    v.push(at(&["UA", "LAYOUT"], "{_merge: {ALL: ['*0', '*1']}}"));
    for f in ["L0", "R0", "M0", "L?", "[LRM]1", "*", "L0,R1"] {
        for m in ["bitOffset: 28", "bitWidth: 2", "bitOffset: 28, bitWidth: 2", "bitWidth: 4, bitOffset: 0", "bitRange: '[29:28]'", "name: Q", "description: d", "access: write-only", "modifiedWriteValues: oneToClear, readAction: clear", "bitOffset: 0x1c, name: Q, description: d"] {
            if !(m.contains("name") && (f.len() > 2 || f == "*" || f == "L?")) {
                v.push(at(&["UA", "LAYOUT"], &format!("{{_modify: {{{}: {{{m}}}}}}}", q(f))));
            }
        }
    }
    for a in ["bitRange: '[29:28]'", "lsb: 28, msb: 29", "bitOffset: 28, bitWidth: 2", "bitOffset: 0, bitWidth: 32", "bitRange: '[29:28]', readAction: clear, modifiedWriteValues: clear, access: read-write"] {
        v.push(at(&["UA", "LAYOUT"], &format!("{{_add: {{N: {{description: n, {a}}}}}}}")));
        v.push(at(&["UA", "SR"], &format!("{{_add: {{N: {{description: n, {a}}}, N2: {{description: n, {a}}}}}}}")));
        v.push(at(&["UA", "LAYOUT"], &format!("{{_add: {{N: {{description: n, {a}}}}}, N: [0, 1]}}")));
    }
    // values of fields that already have some, and of arrays
    let firsts = ["CH0: {A: [0, a]}", "CH1: {A: [0, a], C: [2, c]}", "CH1: {_read: {A: [0, a]}}", "CH2: {_write: {A: [0, a]}}", "CH0: {_read: {A: [0, a]}, _write: {B: [1, b]}}", "'CH[12]': {A: [0, a]}", "'CH[01]': {_read: {A: [0, a]}}", "'CH?': {_name: NM, A: [0, a]}", "'CH[02]': {_write: {A: [0, a]}}", "CH0: {A: [0, a]}, CH1: {_derivedFrom: CH0}"];
    let then = ["{B: [1, b]}", "{_replace_enum: {B: [1, b]}}", "{_read: {B: [1, b]}}", "{_write: {B: [1, b]}}", "{_replace_enum: {_name: OTHER, B: [1, b]}}", "{_read: {_replace_enum: {B: [1, b]}}}", "{_write: {_replace_enum: {B: [1, b]}}}", "[0, 2]", "{}"];
    for a in firsts {
        for b in then {
            for s in ["CH*", "CH[0-2]", "CH1", "CH2", "CH[12]", "CH?,X1", "?~CH*", "CH0,CH1"] {
                // (fields of different widths; a name that is given twice)
                // (values for both directions are narrowed to the other one in Rust)
                let both = !a.contains("_read") && !a.contains("_write") && (b.contains("_read") || b.contains("_write"));
                if both || s.contains("X1") || a.contains(&format!("{s}:")) || a.contains(&format!("'{s}':")) {
                    continue;
                }
                v.push(at(&["UA", "CR"], &format!("{{{a}, {}: {b}}}", q(s))));
            }
        }
    }
    for a in ["CH*", "CH?", "CH[01]"] {
        for b in ["{B: [1, b]}", "[0, 2]", "{_replace_enum: {B: [1, b]}}", "{_read: {B: [1, b]}}", "{_W1C: {}}"] {
            v.push(format!("{{'UA,TIM1': {{CR: {{_array: {{{}: {{}}}}}}}}, TIM1: {{CR: {{'CH*': {b}}}}}}}", q(a)));
            v.push(format!("{{UA: {{CR: {{_array: {{{}: {{}}}}}}}}, '*': {{CR: {{'CH%s': {b}}}}}}}", q(a)));
        }
    }
    // rules for fields that are not there, combinations of actions
    for r in ["CR", "SR", "?R", "NOPE", "?~NOPE"] {
        for f in ["EN", "NOPE", "?~NOPE", "NO*", "?~EN", "SEL"] {
            for b in ["{_RC: {}}", "{_W1C: {}}", "{_RM: {}, _W0T: {}}", "{_RME: {}, _WS: {}}", "{_WM: {}}", "{_read: {}}", "{_write: {}}", "{}", "{_W1S: {}, _read: {}}", "[0, 1]", "{_replace_enum: {}}"] {
                if b.contains("RM") || !["?R", "SR"].contains(&r) || f != "SEL" {
                    v.push(at(&["UA", r], &format!("{{{}: {b}}}", q(f))));
                }
            }
        }
        for (n, w) in [("CH3", 1), ("CH3", 2), ("CH3", 4), ("X2", 2), ("X3", 3)] {
            for s in ["CH*", "CH?", "CH[0-3]", "CH[23]", "X*", "X[123]", "?~X?"] {
                v.push(at(&["UA"], &format!("{{{}: {{_add: {{{n}: {{description: n, bitOffset: 28, bitWidth: {w}}}}}}}, '{}': {{_array: {{{}: {{description: d}}}}}}}}", q(r), if r == "CR" { "C?" } else { "CR" }, q(s))));
            }
        }
    }
    // two rules at the same place
    let dev_rules = ["_delete: [UB]", "_modify: {UA: {name: RENAMED}}", "_modify: {cpu: {name: CM4}, UA: {description: n}}", "_add: {NEW: {baseAddress: 0x5000, registers: {CR: {addressOffset: 0, description: n}}}}", "_copy: {UB: {from: UA}}", "_derive: {TIM1: UA}", "_rebase: {UC: UA}", "_clear_fields: [UA]", "UA: {_delete: [SR]}", "UA: {CR: {EN: {A: [0, a]}}}", "'U*': {'D*': {D: {A: [0, a]}}}", "UB: {_add: {_interrupts: {X: {description: x, value: 60}}}}", "RENAMED: {_delete: [CR]}", "NEW: {_delete: [CR]}", "TIM1: {_delete: [CR]}"];
    let per_rules = ["_delete: [SR]", "_delete: ['DR*']", "_delete: {_interrupts: [UA]}", "_modify: {CR: {description: m}}", "_modify: {_interrupts: {UA: {value: 70}}}", "_modify: {'DR[01]': {size: 16}}", "_add: {NEW: {description: n, addressOffset: 0x90}}", "_add: {DR4: {description: data 4, addressOffset: 0x20}}", "_copy: {NEW: {_from: CR, addressOffset: 0x94, description: c}}", "_derive: {DR1: DR0}", "_derive: {NEW: {_from: CR, addressOffset: 0x98, description: c}}", "_strip: [D]", "_strip: [UA_]", "_strip_end: ['?']", "_clear_fields: ['*R']", "_array: {'DR*': {description: d}}", "_array: {'SET*': {description: d}}", "_cluster: {'G%s': {'SET*': {}, 'CLR*': {}}}", "_cluster: {'H%s': {'DR*': {name: D}}}", "CR: {EN: {A: [0, a]}}", "'DR?': {D: [0, 9]}", "SR: {_delete: [EN]}", "'DR%s': {D: [0, 9]}", "'R?': {D: [0, 9]}", "NEW: {_add: {Q: {description: q, bitOffset: 30, bitWidth: 1}}}", "DR0: {_modify: {D: {name: E}}}"];
    let reg_rules = ["_delete: [EN]", "_delete: ['CH*']", "_modify: {EN: {description: m}}", "_modify: {SEL: {name: MODE}}", "_modify: {DIV: {_write_constraint: none}}", "_add: {NEW: {description: n, bitOffset: 28, bitWidth: 3}}", "_add: {CH3: {description: n, bitOffset: 14, bitWidth: 2}}", "_strip: [C]", "_strip_end: ['?']", "_clear: [SEL, DIV]", "_merge: ['CH*']", "_merge: {M: 'CH[01]'}", "_merge: {M: [EN, SEL]}", "_split: [DIV]", "_split: {DIV: {name: 'D%sX', description: 'd %s'}}", "_array: {'CH*': {description: d}}", "_array: {'X?': {description: d}}", "EN: {A: [0, a], B: [1, b]}", "SEL: {_replace_enum: {A: [0, a]}}", "DIV: [0, 3]", "'CH*': {A: [0, a]}", "MODE: [0, 1]", "NEW: {A: [0, a]}", "M: {A: [0, a]}", "'CH%s': {A: [0, a]}", "'H?': {A: [0, a]}", "EN: {_W1C: {}}", "'?~CH*': {_read: {A: [0, a]}, _write: {B: [1, b]}}", "DIV: {_RC: {}, _W0S: {}}", "EN: {_read: {A: [0, a]}}", "EN: {_write: {A: [0, a]}}", "'?~EN': {_read: {A: [0, a]}, _write: {B: [1, b]}}", "'?~E*': {_RC: {}}"];
    for (rules, path) in [(&dev_rules[..], vec![]), (&per_rules[..], vec!["UA"]), (&per_rules[..], vec!["{UA,TIM1}"]), (&reg_rules[..], vec!["UA", "CR"]), (&reg_rules[..], vec!["UA,TIM1", "?R"])] {
        for a in rules {
            for b in rules {
                let both = |x: &str, y: &str| (a.contains(x) && b.contains(y)) || (a.contains(y) && b.contains(x));
                let skip = both("_copy: {UB", "_delete: [UB]") || both("_merge: ['CH*']", "_array: {'CH*'") || (path.contains(&"?R") && [a, b].iter().any(|r| r.starts_with("EN: {_r") || r.starts_with("EN: {_wr") || r.contains("E*'") || r.contains("~EN")));
                if a.split(':').next() != b.split(':').next() && !skip {
                    v.push(at(&path, &format!("{{{a}, {b}}}")));
                }
            }
        }
    }
    v.sort();
    v.dedup();
    let svd = common_device();
    ctx.note("documents", v.len());
    ctx.run(v.iter().map(|d| Case::new("pypatch", json!({"svd": svd, "doc": d}))));
    // clusters
    let r = |n: &str, o: u64| d(reg(n, o)).fields(&(fld("EN", 0, 1, "") + &fld("D", 4, 2, ""))).x();
    let body = |t: &str| clu("", "CA", 0x100, &(r("CR", 0) + &r("SR", 4) + &d(reg("CA_DR", 8)).display("CA_DR").x() + &d(reg("CA_X", 12)).altreg("CA_DR").fields(&fld("EN", 0, 1, "")).x()))
        + &clu(&dim(2, 0x20, Some("1,2")), "CB%s", 0x200, &(r("CR", 0) + &r("DR0", 4) + &r("DR1", 8)))
        + &clu("", "OTHER", 0x300, &(r("CR", 0) + &r("B_X", 4)))
        + &r("CR", 0)
        + &r(&format!("{t}_X"), 4);
    let svd = dev(&(per("UA", 0x1000, &int("UA", 3, "a"), &body("UA")) + &per("UB", 0x2000, "", &body("UB")) + &per_from("UC", "UA", 0x3000, "")));
    let mut v: Vec<String> = vec![];
    for p in ["UA", "U[AB]", "?~UA", "NOPE", "UC"] {
        for c in ["CA", "C*", "?A", "CB%s", "CB*", "*", "?~CA", "?~NOPE", "NOPE", "CA,OTHER", "{CA,CB%s}", "C"] {
            let c = q(c);
            for rs in RS {
                let s = q(rs);
                for b in ["{_delete: [#]}", "{_modify: {#: {description: new}}}", "{_modify: {#: {size: 16, resetValue: 5, access: write-only}}}", "{_modify: {#: {displayName: x, addressOffset: 0x18}}}", "{_modify: {#: {displayName: ''}}}", "{_modify: {#: {protection: s, dataType: uint16_t}}}", "{_modify: {#: {modifiedWriteValues: oneToClear, readAction: clear}}}"] {
                    v.push(at(&[p], &format!("{{_clusters: {{{c}: {}}}}}", b.replace('#', &s))));
                }
            }
            for n in ["NEW", "CR", "C"] {
                v.push(at(&[p], &format!("{{_clusters: {{{c}: {{_add: {{{n}: {{description: n, addressOffset: 0x1C, {fields}}}}}}}}}}}")));
                v.push(at(&[p], &format!("{{_clusters: {{{c}: {{_add: {{{n}: {{description: n, addressOffset: 0x1C, size: 16, access: read-only, resetValue: 2}}, N2: {{description: m, addressOffset: 0x1D}}}}}}}}}}")));
            }
            for t in ["CA_", "C", "S", "?A_", "R", "_X", "NOPE", "[CD]", "*_"] {
                v.push(at(&[p], &format!("{{_clusters: {{{c}: {{_strip: [{}]}}}}}}", q(t))));
                v.push(at(&[p], &format!("{{_clusters: {{{c}: {{_strip_end: [{}]}}}}}}", q(t))));
                // (in Rust also of the names of clusters)
                if t == "C" || t == "[CD]" {
                    continue;
                }
                v.push(at(&[p], &format!("{{_strip: [{}], _clusters: {{{c}: {{_delete: [CR]}}}}}}", q(t))));
            }
            for a in ["_delete: [CR]", "_delete: ['?R']", "_modify: {CR: {description: z}}", "_strip: [C]", "_strip_end: [R]", "_add: {CR: {description: n, addressOffset: 0x1C}}", "_add: {X: {description: n, addressOffset: 0x1C}}"] {
                for b in ["_delete: [R]", "_modify: {'?R': {size: 8}}", "_modify: {R: {size: 8}}", "_strip: [D]", "_strip_end: ['R?']", "_modify: {X: {size: 8}}"] {
                    if a.split(':').next() != b.split(':').next() {
                        v.push(at(&[p], &format!("{{_clusters: {{{c}: {{{a}, {b}}}}}}}")));
                        v.push(at(&[p], &format!("{{_clusters: {{{c}: {{{b}, {a}}}}}}}")));
                    }
                }
            }
            v.push(at(&[p], &format!("{{_clusters: {{{c}: {{_delete: [CR]}}, OTHER: {{_delete: [B_X]}}}}}}")));
        }
        // registers outside of clusters only
        for rs in RS {
            let s = q(rs);
            for b in ["{_delete: [#]}", "{_modify: {#: {description: new}}}", "{_clear_fields: [#]}", "{#: {EN: {A: [0, a]}}}", "{#: {_delete: [EN]}}"] {
                if *rs != "*" || !b.starts_with("{_delete") {
                    v.push(at(&[p], &b.replace('#', &s)));
                }
            }
        }
        for t in ["U", "UA_", "?A_"] {
            v.push(at(&[p], &format!("{{_strip: [{}]}}", q(t))));
        }
    }
    v.sort();
    v.dedup();
    ctx.note("cluster_documents", v.len());
    ctx.run(v.iter().map(|d| Case::new("pypatch", json!({"svd": svd, "doc": d}))));
    // references between elements
    let body = d(reg("AA_X", 0)).fields(&(fld("EN", 0, 1, &evs("ENV", "", &[("Off", 0), ("On", 1)])) + &fld("MODE", 4, 2, ""))).x()
        + &d(reg("AA_Y", 4)).altreg("AA_X").fields(&fld("EN", 0, 1, "")).x()
        + &d(reg("AA_Z", 8)).from("AA_X").x()
        + &d(reg("W_BB", 0xc)).altreg("V_BB").fields(&fld("EN", 0, 1, "")).x()
        + &d(reg("V_BB", 0x10)).fields(&fld("EN", 0, 1, "")).x()
        + &d(reg("U", 0x14)).from("V_BB").x()
        + &d(reg("T", 0x18)).from("V_BB").x();
    let desc = |p: String, t: &str| p.replacen("</name>", &format!("</name><description>{t}</description>"), 1);
    let svd = dev(&(desc(per("AA", 0x1000, &int("AA", 3, "a"), &body), "a") + &desc(per_from("BA", "AA", 0x2000, ""), "b") + &desc(per_from("CA", "AA", 0x3000, &int("CA", 4, "c")), "c") + &desc(per("DA", 0x4000, "", &d(reg("R", 0)).x()), "d") + &desc(per_from("EA", "DA", 0x5000, ""), "e")));
    let mut v: Vec<String> = vec![];
    for p in ["AA", "?A", "BA"] {
        for t in ["AA_", "A", "A?_", "_BB", "BB", "Y", "W_", "[WV]_", "NOPE", "*_"] {
            v.push(at(&[p], &format!("{{_strip: [{}]}}", q(t))));
            v.push(at(&[p], &format!("{{_strip_end: [{}]}}", q(t))));
        }
        for (a, b) in [("_strip: ['AA_']", "_strip_end: [_BB]"), ("_strip: ['AA_']", "_derive: {AA_Y: AA_X}"), ("_strip_end: [_BB]", "_derive: {V_BB: AA_X}"), ("_strip: ['?_']", "_delete: [T]"), ("_delete: [U]", "_derive: {T: AA_X}"), ("_strip: ['AA_']", "_modify: {AA_X: {description: n}}"), ("_strip: ['AA_']", "_delete: [AA_Z]")] {
            v.push(at(&[p], &format!("{{{a}, {b}}}")));
            v.push(at(&[p], &format!("{{{b}, {a}}}")));
        }
        for a in ["AA_X", "AA_Y", "AA_Z", "W_BB", "V_BB", "U", "T", "NEW"] {
            for b in ["AA_X", "AA_Y", "W_BB", "V_BB", "U", "NOPE"].into_iter().filter(|_| a != "AA_Y" && a != "W_BB") {
                v.push(at(&[p], &format!("{{_derive: {{{a}: {b}}}}}")));
                v.push(at(&[p], &format!("{{_derive: {{{a}: {{_from: {b}, addressOffset: 0x40, description: n}}}}}}")));
                v.push(at(&[p], &format!("{{_derive: {{{a}: {b}, N2: {b}}}}}")));
                v.push(at(&[p], &format!("{{_derive: {{{a}: {b}}}, _delete: [{b}]}}")));
            }
            v.push(at(&[p], &format!("{{_delete: [{a}]}}")));
            v.push(at(&[p], &format!("{{_modify: {{{a}: {{name: RENAMED}}}}}}")));
            v.push(at(&[p], &format!("{{_modify: {{{a}: {{alternateRegister: T}}}}}}")));
            v.push(at(&[p], &format!("{{_modify: {{{a}: {{addressOffset: 0x80}}}}}}")));
            v.push(at(&[p], &format!("{{{a}: {{EN: {{A: [0, a]}}}}}}")));
            v.push(at(&[p], &format!("{{{a}: {{_delete: [EN]}}}}")));
            v.push(at(&[p], &format!("{{_clear_fields: [{a}]}}")));
        }
    }
    for a in ["AA", "BA", "CA", "DA", "EA", "NEW"] {
        for b in ["AA", "BA", "CA", "DA", "EA", "NOPE"] {
            v.push(format!("{{_derive: {{{a}: {b}}}}}"));
            v.push(format!("{{_derive: {{{a}: {{_from: {b}, baseAddress: 0x9000}}}}}}"));
            v.push(format!("{{_derive: {{{a}: {b}}}, _delete: [EA]}}"));
            // (`_rebase` of what does not derive from the other: see DESIGN §4)
            if matches!((a, b), ("BA" | "CA", "AA") | ("EA", "DA")) {
                v.push(format!("{{_rebase: {{{a}: {b}}}}}"));
                v.push(format!("{{_rebase: {{{a}: {b}}}, _modify: {{{a}: {{description: n}}}}}}"));
            }
        }
        v.push(format!("{{_delete: [{a}]}}"));
        v.push(format!("{{_modify: {{{a}: {{name: RENAMED}}}}}}"));
    }
    v.sort();
    v.dedup();
    ctx.note("reference_documents", v.len());
    ctx.run(v.iter().map(|d| Case::new("pypatch", json!({"svd": svd, "doc": d}))));
    // fields and registers in another order than that of their places, names of several forms
    let orders: [[usize; 4]; 4] = [[0, 1, 2, 3], [3, 2, 1, 0], [1, 0, 3, 2], [2, 0, 3, 1]];
    let mut cases = vec![];
    for ord in orders {
        let f: String = ord.iter().map(|k| fldd("", &format!("X{k}"), Some(&format!("field {k} X{k}")), 2 * *k as u32, 2, "")).collect();
        let all: Vec<String> = [("AAR0", 0u64), ("AAR1", 8), ("BR0", 4), ("BR1", 12)].iter().map(|(n, o)| d(reg(n, 0x10 + o)).fields(&fld("EN", 0, 1, "")).x()).collect();
        let regs: String = ord.iter().map(|k| all[*k].clone()).collect();
        let svd = dev(&per("P", 0x1000, "", &(d(reg("R", 0)).fields(&f).x() + &regs)));
        for x in ["'X?'", "'X[12]'", "'X3,X1'", "'*'"] {
            for b in ["{A: [0, a], B: [1, b]}", "{_read: {A: [0, a]}, _write: {B: [1, b]}}", "{_name: NM, A: [0, a]}", "[0, 2]"] {
                cases.push(json!({"svd": svd, "doc": format!("{{P: {{R: {{{x}: {b}}}}}}}")}));
            }
            cases.push(json!({"svd": svd, "doc": format!("{{P: {{R: {{_merge: [{x}]}}}}}}")}));
            cases.push(json!({"svd": svd, "doc": format!("{{P: {{R: {{_merge: {{M: {x}}}}}}}}}")}));
        }
        for l in ["X3, X2", "X2, X3", "X1, X0", "X0, X1, X2", "X2, X0, X1", "X3, X2, X1, X0"] {
            // (the description is that of the first of the list or of the register)
            let svd = (0..4).fold(svd.clone(), |s, k| s.replace(&format!("field {k} X{k}"), "field"));
            cases.push(json!({"svd": svd, "doc": format!("{{P: {{R: {{_merge: {{M: [{l}]}}}}}}}}")}));
        }
        for a in ["_array: {'X*': {description: d}}", "_array: {'X?': {}}", "_array: {'X*': {_start_from_zero: true}}", "_array: {'X[12]': {}}", "_array: {'X[123]': {name: 'Y%s'}}"] {
            cases.push(json!({"svd": svd, "doc": format!("{{P: {{R: {{{a}}}}}}}")}));
        }
        for c in ["'AAR*': {}", "'AAR*,BR9*': {name: D}", "'BR9*,AAR*': {name: D}", "'AAR*': {}, 'BR*': {}", "'BR*': {}, 'AAR*': {}", "'BR?,AAZ?': {}, 'AAR?,CR?': {}", "'Z?,AAR?': {name: D}, 'BBBR?,BR?': {name: E}"] {
            cases.push(json!({"svd": svd, "doc": format!("{{P: {{_cluster: {{'G%s': {{{c}}}}}}}}}")}));
        }
        for a in ["'AAR*': {}", "'BR*': {name: 'D%s'}", "'BR?': {_start_from_zero: true}"] {
            cases.push(json!({"svd": svd, "doc": format!("{{P: {{_array: {{{a}}}}}}}")}));
        }
    }
    // what is derived keeps its own constraints
    let own = evs("OWN", "", &[("Off", 0), ("On", 1)]) + "<writeConstraint><range><minimum>0</minimum><maximum>1</maximum></range></writeConstraint>";
    let f = fld("X", 0, 1, &own) + &fld("Y", 1, 1, &own.replace("OWN", "OTHER")).replacen("<field>", "<field derivedFrom=\"X\">", 1);
    let svd = dev(&(per("P", 0x1000, "", &(d(reg("R", 0)).fields(&f).x() + &d(reg("S", 4)).from("R").fields(&f).x())) + &per_from("Q", "P", 0x2000, &format!("<registers>{}</registers>", d(reg("R", 0)).fields(&f).x()))));
    for p in ["P", "Q", "'*'", "'P,Q'"] {
        cases.push(json!({"svd": svd, "doc": format!("{{_clear_fields: [{p}]}}")}));
        for r in ["R", "S", "'*'", "'?'"] {
            cases.push(json!({"svd": svd, "doc": format!("{{{p}: {{_clear_fields: [{r}]}}}}")}));
            for x in ["X", "Y", "'*'", "'X,Y'"] {
                cases.push(json!({"svd": svd, "doc": format!("{{{p}: {{{r}: {{_clear: [{x}]}}}}}}")}));
                cases.push(json!({"svd": svd, "doc": format!("{{{p}: {{{r}: {{{x}: [0, 1]}}}}}}")}));
                cases.push(json!({"svd": svd, "doc": format!("{{{p}: {{{r}: {{_delete: [{x}]}}}}}}")}));
            }
        }
    }
    ctx.note("orders", cases.len());
    ctx.run(cases.into_iter().map(|c| Case::new("pypatch", c)));
    // what the old and the new origin have
    let opt = ["<version>§</version>", "<description>§</description>", "<groupName>§</groupName>", "<prependToName>§</prependToName>", "<disableCondition>§</disableCondition>", "<size>16</size>"];
    let mut cases = vec![];
    for i in crate::spaces2::product(&[ctx.tier(16, 64), ctx.tier(16, 64)]) {
        // (what only the new origin has: see DESIGN §4)
        if i[1] & !i[0] != 0 {
            continue;
        }
        let has = |m: usize, w: &str| opt.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, t)| t.replace('§', w)).collect::<String>();
        let with = |p: String, x: String| p.replacen("</name>", &format!("</name>{x}"), 1);
        let svd = dev(&(with(per("OLD", 0x1000, &int("OLD", 3, "a"), &d(reg("R", 0)).x()), has(i[0], "old")) + &with(per_from("NEW", "OLD", 0x2000, &int("NEW", 4, "b")), has(i[1], "new")) + &per_from("THIRD", "OLD", 0x3000, "")));
        for r in ["{_rebase: {NEW: OLD}}", "{_copy: {NEW: {from: OLD}}}"] {
            cases.push(json!({"svd": svd, "doc": r}));
        }
    }
    ctx.note("origins", cases.len());
    ctx.run(cases.into_iter().map(|c| Case::new("pypatch", c)));
    // included files
    let svd = crate::spaces3::small_svd().replace("<addressOffset>8</addressOffset>", "<addressOffset>8</addressOffset>");
    let rules = [
        "", "_delete: [Q]", "_delete: [S]", "_modify: {description: m1}", "_modify: {description: m2, P: {baseAddress: 0x800}}", "P: {_delete: [A]}", "P: {_delete: [A, B]}", "P: {A: {F: {V: [0, v]}}}", "P: {A: {F: {W: [1, w]}}, _modify: {B: {size: 8}}}", "P: {A: {F: [0, 1]}}", "'*': {'?~A': {_delete: [F]}}",
        "P: {_add: {N: {description: n, addressOffset: 0x20}}}", "Q: {A: {G: {_replace_enum: {Z: [1, z]}}}}", "NOPE: {}", "_add: {T: {baseAddress: 0x900}}", "_derive: {Q: P}",
    ];
    let tops = [["_include: [a.yaml, b.yaml]", "", ""], ["_include: [b.yaml, a.yaml]", "", ""], ["_include: a.yaml", "_include: b.yaml", ""], ["_include: [a.yaml, b.yaml]", "_include: [b.yaml]", ""], ["_include: []", "", ""]];
    let file = |parts: &[&str]| {
        let s: Vec<&str> = parts.iter().copied().filter(|s| !s.is_empty()).collect();
        if s.is_empty() { "{}\n".into() } else { s.join("\n") + "\n" }
    };
    let mut cases = vec![];
    for i in crate::spaces2::product(&[rules.len(), rules.len(), ctx.tier(5, rules.len())]) {
        // (the list of a value is not to be extended)
        if i.iter().filter(|i| rules[**i].contains("F: ")).count() > 1 || i.iter().filter(|i| rules[**i].contains("G: ")).count() > 1 {
            continue;
        }
        for t in &tops[..ctx.tier(4, 5)] {
            cases.push(json!({"svd": svd, "files": {"main.yaml": file(&[t[0], rules[i[0]]]), "a.yaml": file(&[t[1], rules[i[1]]]), "b.yaml": file(&[t[2], rules[i[2]]])}}));
        }
    }
    // ranges and values that are given more than once
    let vals = ["", "F: [0, 1]", "F: [0, 2]", "F: [1, 3]", "F: {V: [0, v]}", "F: {V: [1, v1]}", "F: {V: [0, v], W: [1, w]}", "F: {V: [2, v2], _name: NM}", "F: {_replace_enum: {V: [0, v]}}", "F: {_replace_enum: {V: [1, z]}}", "F: {_write: {V: [0, v]}}", "F: {_write: [0, 2]}", "F: {_W1C: {V: [0, v]}}", "F: {_W1C: {}}", "'?~F': [0, 3]"];
    for i in crate::spaces2::product(&[vals.len(), vals.len(), 5]) {
        for t in &tops[..4] {
            let at = |i: usize| if vals[i].is_empty() { String::new() } else { format!("P: {{A: {{{}}}}}", vals[i]) };
            cases.push(json!({"svd": svd, "files": {"main.yaml": file(&[t[0], &at(i[0])]), "a.yaml": file(&[t[1], &at(i[1])]), "b.yaml": file(&[t[2], &at(i[2])])}}));
        }
    }
    for (m, a) in [("P: {_include: a.yaml, _modify: {A: {size: 16}}}", "_modify: {A: {size: 8, description: z}}\n_delete: [B]"), ("P: {_include: [a.yaml]}\nQ: {_include: [a.yaml]}", "A: {F: {V: [0, v]}}"), ("'[PQ]': {_include: a.yaml}", "A: {F: {V: [0, v]}}\n_delete: [B]"), ("P: {_include: sub/a.yaml}", "{}"), ("_include: sub/a.yaml", "A: {}")] {
        cases.push(json!({"svd": svd, "files": {"main.yaml": format!("{m}\n"), "a.yaml": format!("{a}\n"), "sub/a.yaml": "_include: b.yaml\n", "sub/b.yaml": "_include: ../a.yaml\n_modify: {C: {description: s}}\n"}}));
    }
    ctx.note("include_trees", cases.len());
    ctx.run(cases.into_iter().map(|c| Case::new("pypatch", c)));
}
