//! Rule alphabets of the patch properties (flow-style YAML, one document each).
use crate::engine::*;
use crate::patchx::*;
use serde_json::{json, Value};

pub fn v(d: &[&str]) -> Vec<String> {
    d.iter().map(|s| s.to_string()).collect()
}
/// wrap a rule in a path of specs
pub fn at(path: &[&str], rule: &str) -> String {
    let mut s = rule.to_string();
    for p in path.iter().rev() {
        s = format!("{{{}: {s}}}", q(p));
    }
    s
}
pub fn q(s: &str) -> String {
    format!("'{}'", s.replace('\'', "''"))
}
pub fn cfg0() -> Value {
    json!({})
}

// ------------------------------------------------------------------ deletion
pub fn delete(ctx: &Ctx) {
    crate::spaces12::delete(ctx);
    crate::spaces11::delete(ctx);
    let mut d = v(&[
        "{_delete: ADC1}", "{_delete: [ADC2, TIM2]}", "{_delete: 'TIM*'}", "{_delete: 'TIM[12]'}", "{_delete: '?~NOPE'}",
        "{_delete: NOPE}", "{_delete: 'TIM2,ADC2'}", "{_delete: '*'}", "{_delete: ['ADC?', 'T*2']}", "{_delete: []}",
        "{_delete: 5}", "{_delete: {ADC1: {}}}", "{_delete: [5]}", "{_delete: [ADC1, 5]}", "{_delete: [ADC1, ~]}", "{_delete: [[ADC1]]}", "{_delete: {_peripherals: ADC1}}",
    ]);
    for p in ["ADC1", "TIM1", "ADC*", "TIM2", "ADC2", "?~NOPE", "ADC1,TIM1"] {
        for r in [
            "{_delete: CR}", "{_delete: [CR, DR]}", "{_delete: 'C*'}", "{_delete: '[SD]R'}", "{_delete: CAL}", "{_delete: NOPE}",
            "{_delete: '?~NOPE'}", "{_delete: '*'}", "{_delete: {_registers: CR}}", "{_delete: {_registers: [SR, DR]}}",
            "{_delete: {_registers: CAL}}", "{_delete: {_clusters: CAL}}", "{_delete: {_clusters: [CR]}}",
            "{_delete: {_clusters: '?~CR'}}", "{_delete: {_clusters: '*'}}", "{_delete: {_interrupts: ADC1}}",
            "{_delete: {_interrupts: ['*_OVR', ADC2]}}", "{_delete: {_interrupts: '*'}}", "{_delete: {_interrupts: NOPE}}",
            "{_delete: {_registers: CNT, _interrupts: TIM1}}", "{_delete: {CR: }}", "{_delete: {CR: , _registers: SR}}", "{_delete: [CR, 5]}", "{_delete: {_registers: [CR, 5]}}", "{_delete: {_clusters: [CAL, ~]}}", "{_delete: {_interrupts: [ADC1, {}]}}", "{_delete: {_registers: {CR: }}}", "{_delete: {_fields: EN}}", "{_delete: {_registers: '?~NOPE'}}",
            "{_delete: 'SR,CNT'}", "{_delete: {_registers: 'SR,CNT', _clusters: '?~CAL', _interrupts: 'ADC?'}}",
        ] {
            d.push(at(&[p], r));
        }
        for (b, f) in [
            ("CR", "EN"), ("CR", "[ED]*"), ("CR", "MODE,EN"), ("CR", "NOPE"), ("C*", "EN"), ("CR", "*"), ("SR", "RDY"),
            ("CR2", "EN"), ("CAL", "CR"), ("CAL", "*"), ("CAL", "VAL"), ("CNT", "EN"),
        ] {
            d.push(at(&[p, b], &format!("{{_delete: {}}}", q(f))));
            d.push(at(&[p, b], &format!("{{_delete: [{}]}}", q(f))));
        }
        d.push(at(&[p, "CAL", "CR"], "{_delete: GO}"));
        d.push(at(&[p, "_clusters", "CAL"], "{_delete: {_registers: CR}}"));
        d.push(at(&[p, "_clusters", "CAL", "CR"], "{_delete: 'G?'}"));
    }
    bfs(ctx, &["@dev", "@nest"], &d, ctx.tier(2, 3), &cfg0());
}

// ------------------------------------------------------------------ addition
pub fn add(ctx: &Ctx) {
    crate::spaces12::add(ctx);
    crate::spaces11::add(ctx);
    let mut d = vec![];
    // peripherals: every attribute, and every place relative to the present ones
    for b in ["0", "0x3fffffff", "0x40000000", "0x40000200", "0x40000400", "0x40001000", "0x40001200", "0x40001400", "0x50000000"] {
        d.push(format!("{{_add: {{NEW: {{description: x, baseAddress: {b}}}}}}}"));
        d.push(format!("{{_add: {{NEW2: {{baseAddress: '{b}', derivedFrom: ADC1}}}}}}"));
    }
    for body in [
        "displayName: D, version: '2', description: d, groupName: G, baseAddress: 16",
        "baseAddress: 16, size: 8, access: read-only, resetValue: 3, resetMask: 0xF",
        "baseAddress: 16, addressBlock: {offset: 0, size: 0x400, usage: registers}",
        "baseAddress: 16, addressBlocks: [{offset: 0, size: 0x400, usage: registers}, {offset: 0x800, size: 4, usage: buffer}]",
        "baseAddress: 16, addressBlock: {offset: 4, size: 8, usage: reserved}, addressBlocks: [{offset: 0, size: 0x400, usage: registers}]",
        "baseAddress: 16, addressBlock: {offset: 4}",
        "baseAddress: 16, interrupts: {I1: {description: i, value: 9}, I2: {value: 10}}",
        "baseAddress: 16, interrupts: {I1: {description: i}}",
        "baseAddress: 16, derivedFrom: ADC1, description: d, groupName: Q, interrupts: {I1: {description: i, value: 9}}",
        "baseAddress: 16, derivedFrom: ADC1, size: 8, addressBlock: {offset: 0, size: 1, usage: registers}, registers: {R: {addressOffset: 0}}",
        "baseAddress: 16, derivedFrom: NOPE",
        "baseAddress: 16, registers: {R1: {addressOffset: 0, description: r}, R2: {addressOffset: 4, fields: {F: {bitOffset: 3, bitWidth: 2}}}}",
        "baseAddress: 16, registers: {R2: {addressOffset: 4}, R1: {addressOffset: 0}}",
        "baseAddress: 16, registers: {R1: {addressOffset: 0, dim: 2, dimIncrement: 4, name: ignored}}",
        "baseAddress: 16, registers: {'R%s': {addressOffset: 0, dim: 2, dimIncrement: 4, dimIndex: 'A,B'}}",
        "baseAddress: 16, registers: {R1: {}}",
        "baseAddress: 16, registers: {}",
        "baseAddress: 16, name: OTHER",
        "baseAddress: 16, dim: 2, dimIncrement: 0x400",
        "baseAddress: 16, dim: 2, dimIncrement: 0x400, dimIndex: '5-6', dimName: X",
        "baseAddress: 16, dim: 2",
        "description: no base address",
        "baseAddress: bad",
        "baseAddress: 16, size: [1]",
        "baseAddress: 16, headerStructName: H",
        "baseAddress: 16, prependToName: P, appendToName: A, alternatePeripheral: ADC1, protection: p",
        "baseAddress: 16, protection: x, addressBlock: {offset: 0, size: 4, usage: registers, protection: s}",
        "baseAddress: 16, derivedFrom: ADC1, protection: n, resetValue: 4, addressBlocks: [{offset: 0, size: 4, usage: registers, protection: n}]",
        "baseAddress: 16, access: nonsense",
    ] {
        d.push(format!("{{_add: {{'NEW': {{{body}}}}}}}"));
        d.push(format!("{{_add: {{'ADC1': {{{body}}}}}}}"));
        d.push(format!("{{_add: {{'N%s': {{{body}}}}}}}"));
    }
    d.push("{_add: {A: {baseAddress: 1}, B: {baseAddress: 0}, C: {baseAddress: 0x40001000}}}".into());
    d.push("{_add: {A: 5}}".into());
    // registers
    for p in ["ADC1", "TIM1", "TIM2", "ADC*", "ADC2"] {
        for o in ["0", "2", "4", "8", "0x10", "0x14", "0x20", "0x22", "0xfc"] {
            d.push(at(&[p], &format!("{{_add: {{R: {{addressOffset: {o}, description: n}}}}}}")));
        }
        for body in [
            "addressOffset: 8, description: '`peripheral` `block_path` `register`', displayName: X, size: 8, access: write-only, resetValue: 1, resetMask: 2",
            "addressOffset: 8, alternateGroup: G, alternateRegister: A, derivedFrom: CR",
            "addressOffset: 8, writeConstraint: [1, 9]",
            "addressOffset: 8, _write_constraint: enum, writeConstraint: [1, 2]",
            "addressOffset: 8, writeConstraint: none",
            "addressOffset: 8, fields: {F1: {bitOffset: 0, bitWidth: 4, access: read-only, description: f}, F2: {msb: 7, lsb: 4}, F3: {bitRange: '[15:8]'}}",
            "addressOffset: 8, fields: {F1: {bitOffset: 0, bitWidth: 1, modifiedWriteValues: oneToClear, readAction: clear, writeConstraint: [0, 1]}}",
            "addressOffset: 8, fields: {'F%s': {bitOffset: 0, bitWidth: 1, dim: 4, dimIncrement: 2}}",
            "addressOffset: 8, fields: {F1: {bitWidth: 1}}",
            "addressOffset: 8, fields: {F1: {bitOffset: 4}}",
            "addressOffset: 8, fields: {F1: {msb: 7}}",
            "addressOffset: 8, dim: 4, dimIncrement: 4",
            "addressOffset: 8, dim: 4, dimIncrement: 4, dimIndex: [A, B, C, D]",
            "addressOffset: 8, dim: 2, dimIncrement: 4, dimArrayIndex: {headerEnumName: H, A: [0, a], B: [1, b]}",
            "addressOffset: 8, dim: 4, dimIncrement: 4, dimIndex: 'A,B'",
            "description: no offset",
            "addressOffset: 8, name: OTHER",
            "addressOffset: 8, fields: 5",
        ] {
            for n in ["R", "CR", "R%s", "R[%s]", "?~R"] {
                d.push(at(&[p], &format!("{{_add: {{{}: {{{body}}}}}}}", q(n))));
            }
            d.push(at(&[p], &format!("{{_add: {{_registers: {{R: {{{body}}}}}}}}}")));
            d.push(at(&[p, "CAL"], &format!("{{_add: {{R: {{{body}}}}}}}")));
        }
        for o in ["0", "2", "4", "6"] {
            d.push(at(&[p, "?~CAL"], &format!("{{_add: {{R: {{addressOffset: {o}}}}}}}")));
        }
        for body in [
            "addressOffset: 4, description: '`peripheral` c'", "addressOffset: 0x40, registers: {A: {addressOffset: 0}, B: {addressOffset: 4}}",
            "addressOffset: 0x40, size: 8, access: read-only, registers: {A: {addressOffset: 0}}", "registers: {A: {addressOffset: 0}}",
            "addressOffset: 0x20, dim: 2, dimIncrement: 0x10, registers: {A: {addressOffset: 0}}",
        ] {
            for n in ["CL", "CAL", "CL%s", "CL[%s]", "CR"] {
                d.push(at(&[p], &format!("{{_add: {{_clusters: {{{}: {{{body}}}}}}}}}", q(n))));
            }
            d.push(at(&[p, "?~CAL"], &format!("{{_add: {{_clusters: {{IN: {{{body}}}}}}}}}")));
        }
        for i in [
            "NEW: {value: 20}", "NEW: {description: d, value: 1}", "NEW: {description: d}", "ADC1: {value: 3}", "TIM1: {value: 9}",
            "A: {value: 2}, B: {value: 1}", "NEW: {name: X, value: 4}", "?~NEW: {value: 4}",
        ] {
            d.push(at(&[p], &format!("{{_add: {{_interrupts: {{{i}}}}}}}")));
        }
        // fields
        for r in ["CR", "SR", "DR", "CNT", "C*", "CR2"] {
            for (n, body) in [
                ("F", "bitOffset: 4, bitWidth: 2"), ("F", "bitOffset: 4, bitWidth: 1, description: '`register` of `register_path`, `peripheral`'"),
                ("EN", "bitOffset: 4, bitWidth: 1"), ("F", "msb: 31, lsb: 30, access: read-only"), ("F", "bitRange: '[5:4]', derivedFrom: EN"),
                ("F%s", "bitOffset: 4, bitWidth: 1, dim: 3, dimIncrement: 1"), ("F", "bitOffset: 4"), ("F", "bitOffset: 0x4, bitWidth: '0b10'"),
                ("F", "bitOffset: 4, bitWidth: 1, writeConstraint: enum, readAction: modify, modifiedWriteValues: set"), ("F", "description: n"),
            ] {
                d.push(at(&[p, &format!("?~{r}")], &format!("{{_add: {{{}: {{{body}}}}}}}", q(n))));
            }
        }
    }
    d.push(at(&["ADC1", "CAL", "CR"], "{_add: {F: {bitOffset: 4, bitWidth: 1, description: '`register_path` `block_path`'}}}"));
    // every pair of attributes of each kind of element
    let singles = d.len();
    let reg = [
        "displayName: N", "description: N", "size: 8", "access: write-only", "resetValue: 0x123456789", "resetMask: 6", "protection: s", "alternateGroup: AG", "alternateRegister: AR", "derivedFrom: CR", "name: X",
        "dim: 2, dimIncrement: 4", "dim: 2, dimIncrement: 4, dimIndex: [0, 1]", "dim: 2, dimIncrement: 4, dimName: DNM", "fields: {N: {bitOffset: 9, bitWidth: 1}}", "fields: {'N%s': {bitOffset: 9, bitWidth: 1, dim: 2, dimIncrement: 2}}", "writeConstraint: [0, 1]", "_write_constraint: enum",
        "modifiedWriteValues: set", "readAction: set", "dataType: uint8_t",
    ];
    let fld = [
        "description: N", "msb: 7, lsb: 4", "msb: 7", "lsb: 4", "bitRange: '[15:8]'", "bitOffset: 16", "bitWidth: 3", "access: write-only", "derivedFrom: EN", "name: X", "writeConstraint: [0, 1]", "_write_constraint: enum", "modifiedWriteValues: set", "readAction: set",
        "dim: 2, dimIncrement: 4", "dim: 2, dimIncrement: 4, dimIndex: 'A,B'", "dim: 2, dimIncrement: 4, dimArrayIndex: {headerEnumName: H, A: [0, a], B: [1, b]}", "dim: 2, dimIncrement: 4, dimArrayIndex: {headerEnumName: H}",
    ];
    let per = [
        "displayName: N", "version: '7'", "description: N", "groupName: G", "size: 8", "access: write-only", "resetValue: 0x123456789", "resetMask: 6", "protection: s", "derivedFrom: ADC1", "name: X", "alternatePeripheral: AP", "headerStructName: H", "prependToName: P_", "appendToName: _A",
        "addressBlock: {offset: 3, size: 7, usage: registers, protection: p}",
        "addressBlock: {offset: 3, size: 7, usage: reserved}", "addressBlock: {offset: 3, size: 7, usage: buffer}", "addressBlocks: [{offset: 3, size: 7, usage: registers}, {offset: 99, size: 1, usage: reserved}]", "addressBlock: {offset: 3, size: 7}",
        "interrupts: {J: {value: 70}, I: {value: 71, description: i}}", "registers: {R: {addressOffset: 0}}", "registers: {'R%s': {addressOffset: 0, dim: 2, dimIncrement: 4}}", "dim: 2, dimIncrement: 0x400",
    ];
    let clu = [
        "description: N", "size: 8", "access: write-only", "resetValue: 3", "resetMask: 6", "protection: s", "derivedFrom: CAL", "name: X", "alternateCluster: AC", "headerStructName: H", "dim: 2, dimIncrement: 4", "dim: 2, dimIncrement: 4, dimIndex: 'A,B'",
        "registers: {R: {addressOffset: 0}}", "registers: {'R%s': {addressOffset: 0, dim: 2, dimIncrement: 4}, S: {addressOffset: 8, fields: {F: {bitOffset: 0, bitWidth: 1}}}}", "clusters: {S: {addressOffset: 8}}",
    ];
    let mut pair = |list: &[&str], f: &dyn Fn(&str) -> Vec<String>| {
        for (i, a) in list.iter().enumerate() {
            d.extend(f(a));
            for b in &list[i + 1..] {
                let mut m = f(&format!("{a}, {b}"));
                if !ctx.thorough {
                    m.truncate(3);
                }
                d.extend(m);
            }
        }
    };
    pair(&reg, &|x| {
        ["R", "R%s", "?~R"]
            .iter()
            .flat_map(|n| [at(&["ADC1"], &format!("{{_add: {{{}: {{addressOffset: 8, {x}}}}}}}", q(n))), at(&["ADC1", "CAL"], &format!("{{_add: {{{}: {{addressOffset: 8, {x}}}}}}}", q(n))), format!("{{_add: {{NEW: {{baseAddress: 16, registers: {{{}: {{addressOffset: 8, {x}}}}}}}}}}}", q(n))])
            .collect()
    });
    pair(&fld, &|x| {
        ["F", "F%s"]
            .iter()
            .flat_map(|n| [at(&["ADC1", "CR"], &format!("{{_add: {{{}: {{{x}}}}}}}", q(n))), at(&["ADC1"], &format!("{{_add: {{NR: {{addressOffset: 8, fields: {{{}: {{bitOffset: 0, {x}}}}}}}}}}}", q(n))), at(&["ADC1", "CR"], &format!("{{_add: {{{}: {{bitOffset: 0, bitWidth: 2, {x}}}}}}}", q(n)))])
            .collect()
    });
    pair(&per, &|x| ["NEW", "N%s"].iter().map(|n| format!("{{_add: {{{}: {{baseAddress: 16, {x}}}}}}}", q(n))).collect());
    pair(&clu, &|x| ["CL", "CL%s"].iter().flat_map(|n| [at(&["ADC1"], &format!("{{_add: {{_clusters: {{{}: {{addressOffset: 8, {x}}}}}}}}}", q(n))), at(&["ADC1", "CAL"], &format!("{{_add: {{_clusters: {{{}: {{addressOffset: 8, {x}}}}}}}}}", q(n)))]).collect());
    let mut seen = std::collections::HashSet::new();
    let mut k = 0;
    d.retain(|x| {
        k += 1;
        k <= singles || seen.insert(x.clone()) && load(x).is_some()
    });
    ctx.note("additions", d.len());
    bfs(ctx, &["@dev"], &d, 1, &cfg0());
    d.truncate(singles);
    let small: Vec<String> = d.iter().filter(|s| !s.contains("C*") && !s.contains("ADC*")).step_by(ctx.tier(4, 1)).cloned().collect();
    bfs(ctx, &["@dev"], &small, 2, &cfg0());
}

// ------------------------------------------------------------------ modification
pub fn modify(ctx: &Ctx) {
    crate::spaces13::modify(ctx);
    crate::spaces12::modify(ctx);
    crate::spaces11::modify(ctx);
    let mut d = vec![];
    for m in [
        "vendor: V", "vendorID: VI", "name: N", "series: S", "version: 1.1", "version: '1.1'", "description: D", "licenseText: L",
        "addressUnitBits: 16", "width: 64", "size: 16", "access: read-only", "access: nonsense", "resetValue: 7", "resetMask: 0xFF",
        "headerSystemFilename: h", "headerDefinitionsPrefix: P", "protection: s", "cpu: {revision: r9}", "cpu: {name: CM7}",
        "cpu: {endian: big}", "cpu: {mpuPresent: true}", "cpu: {mpuPresent: 1, fpuPresent: 'false'}", "cpu: {nvicPrioBits: 3}",
        "cpu: {vendorSystickConfig: true}", "cpu: {fpuDP: true, dspPresent: true, icachePresent: true, dcachePresent: false}",
        "cpu: {itcmPresent: true, dtcmPresent: true, vtorPresent: false, deviceNumInterrupts: 9, sauNumRegions: 2}", "cpu: 5",
        "cpu: {endian: nonsense}", "cpu: {mpuPresent: maybe}", "vendor: 5", "width: abc",
    ] {
        d.push(format!("{{_modify: {{{m}}}}}"));
    }
    for (p, pp) in [("ADC1", ""), ("TIM2", ""), ("ADC2", ""), ("NOPE", ""), ("TIM*", ""), ("ADC1", "_peripherals"), ("TIM[12]", "_peripherals"), ("*", "_peripherals")] {
        for m in [
            "description: D", "displayName: DN", "version: '3'", "groupName: G", "baseAddress: 0x123", "size: 8", "access: write-only",
            "resetValue: 5, resetMask: 6", "derivedFrom: TIM1", "addressBlock: {size: 0x500}", "addressBlock: {offset: 1, size: 2, usage: buffer}",
            "addressBlocks: [{offset: 0, size: 4, usage: registers}, {offset: 8, size: 4, usage: buffer}]", "addressBlocks: [{offset: 0}]",
            "interrupts: {ADC1: {value: 77}}", "interrupts: {ADC1: {description: n}, NOPE: {value: 1}, TIM1: {name: T}}", "interrupts: {ADC1: {name: X}}",
            "dim: 2, dimIncrement: 0x400", "registers: {ONLY: {addressOffset: 0}}", "unknownKey: 5", "protection: s", "alternatePeripheral: TIM1, headerStructName: H", "prependToName: P_, appendToName: _A", "addressBlock: {protection: n}", "addressBlocks: [{offset: 0, size: 4, usage: buffer, protection: p}]",
            "addressBlock: {size: 1}, addressBlocks: [{offset: 0, size: 4, usage: registers}]", "description: ''",
        ] {
            let r = format!("{{{}: {{{m}}}}}", q(p));
            d.push(format!("{{_modify: {}}}", if pp.is_empty() { r } else { format!("{{{pp}: {r}}}") }));
        }
    }
    for (p, n) in [("ADC1", "ADX"), ("TIM1", "TIMX"), ("ADC2", "ADC3"), ("NOPE", "X"), ("TIM2", "ADC1")] {
        d.push(format!("{{_modify: {{{p}: {{name: {n}}}}}}}"));
    }
    for p in ["ADC1", "TIM1", "TIM2", "ADC2"] {
        for (k, m) in [
            ("CR", "name: RENAMED"), ("CR", "description: '`peripheral`.`block_path`'"), ("CR", "displayName: DN"), ("CR", "addressOffset: 0x40"),
            ("CR", "size: 16"), ("CR", "access: read-only"), ("CR", "access: ''"), ("SR", "access: ''"), ("C*", "resetValue: 0x55, resetMask: 0xf"),
            ("[SD]R", "description: both"), ("SR,DR", "alternateGroup: AG"), ("CR", "alternateRegister: SR"), ("CR", "derivedFrom: SR"),
            ("CR", "writeConstraint: [0, 5]"), ("CR", "_write_constraint: none"), ("NOPE", "description: n"), ("?~NOPE", "description: n"),
            ("CAL", "description: c"), ("CAL", "name: CAX, addressOffset: 0x80"), ("CAL", "dim: 2, dimIncrement: 16"), ("?~CAL", "size: 16, access: read-only"),
            ("CR", "dim: 2, dimIncrement: 4, name: 'CR%s'"), ("DR", "dim: 3, dimIncrement: 4, dimIndex: 'X,Y,Z', name: 'DR%s'"),
            ("CR", "fields: {NEW: {bitOffset: 0, bitWidth: 1}}"), ("CR2", "description: derived one"), ("CNT", "resetValue: 1"), ("DR", "size: 8, resetMask: 0"),
            ("CR", "unknown: 1"), ("CAL", "registers: {ONLY: {addressOffset: 0}}"),
        ] {
            let r = format!("{{{}: {{{m}}}}}", q(k));
            d.push(at(&[p], &format!("{{_modify: {r}}}")));
            d.push(at(&[p], &format!("{{_modify: {{_registers: {r}}}}}")));
            d.push(at(&[p], &format!("{{_modify: {{_clusters: {r}}}}}")));
            d.push(at(&[p, "?~CAL"], &format!("{{_modify: {r}}}")));
        }
        for i in ["ADC1: {value: 9}", "'*': {description: d}", "TIM1: {name: TIMX}", "NOPE: {value: 1}", "'ADC?,TIM?': {value: 33}", "ADC1_OVR: {}"] {
            d.push(at(&[p], &format!("{{_modify: {{_interrupts: {{{i}}}}}}}")));
        }
        for (r, f, m) in [
            ("CR", "EN", "name: ENA"), ("CR", "EN", "description: '`register` `register_path`'"), ("CR", "EN", "bitOffset: 5"), ("CR", "EN", "bitWidth: 3"),
            ("CR", "MODE", "msb: 9, lsb: 5"), ("CR", "MODE", "bitRange: '[3:2]'"), ("CR", "*", "access: read-only"), ("CR", "EN", "access: ''"),
            ("C*", "EN", "readAction: clear"), ("CR", "EN", "modifiedWriteValues: oneToClear"), ("CR", "DIV", "_write_constraint: none"),
            ("CR", "DIV", "_write_constraint: enum"), ("CR", "DIV", "_write_constraint: [3, 4]"), ("CR", "DIV", "writeConstraint: [5, '0x6']"),
            ("CR", "NOPE", "description: n"), ("CR", "?~NOPE", "description: n"), ("CR", "EN,DIV", "description: two"), ("CR", "EN", "dim: 2, dimIncrement: 1, name: 'EN%s'"),
            ("CR", "MODE", "derivedFrom: EN"), ("SR", "RDY", "access: ''"), ("CR2", "EN", "description: n"), ("CR", "EN", "bitOffset: x"), ("CR", "DIV", "_write_constraint: nonsense"),
        ] {
            d.push(at(&[p, &format!("?~{r}")], &format!("{{_modify: {{{}: {{{m}}}}}}}", q(f))));
            d.push(at(&[p, "?~CAL", r], &format!("{{_modify: {{{}: {{{m}}}}}}}", q(f))));
        }
    }
    bfs(ctx, &["@dev", "@nest"], &d, 1, &cfg0());
    let small: Vec<String> = d.iter().step_by(ctx.tier(3, 1)).cloned().collect();
    bfs(ctx, &["@dev"], &small, 2, &cfg0());
    // every pair of attribute changes merged in one rule, on every element kind
    let mut m = vec![];
    let attrs = [
        "description: D", "displayName: DN", "size: 8", "access: write-only", "resetValue: 5", "resetMask: 6", "addressOffset: 0x60",
        "name: NN", "alternateGroup: AG", "bitOffset: 9", "bitWidth: 2", "readAction: set", "modifiedWriteValues: clear", "baseAddress: 9", "groupName: GG", "version: 'v'",
        "protection: s", "protection: n", "dataType: uint16_t *", "alternateCluster: AC", "headerStructName: H", "alternatePeripheral: AP", "prependToName: P_", "appendToName: _A", "addressBlock: {protection: p}",
        "_write_constraint: enum", "_write_constraint: none", "writeConstraint: [1, 2]", "msb: 9, lsb: 5", "bitRange: '[3:2]'", "dim: 2, dimIncrement: 0x10, dimIndex: 'A,B'", "resetValue: 0x123456789a",
        "derivedFrom: SR", "alternateRegister: AR", "addressBlock: {offset: 3, size: 7, usage: reserved}", "addressBlocks: [{offset: 3, size: 7, usage: reserved}, {offset: 99, size: 1, usage: buffer}]", "interrupts: {ADC1: {value: 70}}",
    ];
    for (i, a) in attrs.iter().enumerate() {
        for b in &attrs[i + 1..] {
            m.push(format!("{{_modify: {{ADC1: {{{a}, {b}}}}}}}"));
            m.push(at(&["ADC1"], &format!("{{_modify: {{CR: {{{a}, {b}}}}}}}")));
            m.push(at(&["ADC1"], &format!("{{_modify: {{CAL: {{{a}, {b}}}}}}}")));
            m.push(at(&["ADC1", "CR"], &format!("{{_modify: {{MODE: {{{a}, {b}}}}}}}")));
        }
    }
    bfs(ctx, &["@dev"], &loadable(m), 1, &cfg0());
    // every pair of attributes of the device and its processor
    let cpu = |x: &str| x.split(", ").map(|x| format!("cpu: {{{x}}}")).collect::<Vec<_>>();
    let mut m = vec![];
    let attrs: Vec<String> = v(&[
        "vendor: V", "vendorID: VI", "name: N", "series: S", "version: '1.1'", "description: D", "licenseText: L", "addressUnitBits: 16", "width: 64", "size: 16", "access: read-only", "resetValue: 0x7EDCBA9876543210",
        "resetMask: 0x7FFFFFFF00000000", "protection: s", "headerSystemFilename: h", "headerDefinitionsPrefix: P",
    ])
    .into_iter()
    .chain(cpu("revision: r9, name: CM7, endian: big, endian: little, endian: selectable, endian: other, mpuPresent: true, mpuPresent: false, fpuPresent: true, fpuPresent: false, nvicPrioBits: 3, vendorSystickConfig: true, vendorSystickConfig: false, fpuDP: true, fpuDP: false, dspPresent: true, dspPresent: false, icachePresent: true, dcachePresent: false, itcmPresent: true, dtcmPresent: false, vtorPresent: true, deviceNumInterrupts: 9, sauNumRegions: 2"))
    .collect();
    for (i, a) in attrs.iter().enumerate() {
        m.push(format!("{{_modify: {{{a}}}}}"));
        for b in &attrs[i + 1..] {
            match (a.strip_prefix("cpu: {"), b.strip_prefix("cpu: {")) {
                (Some(a), Some(b)) => m.push(format!("{{_modify: {{cpu: {{{}, {b}}}}}", a.trim_end_matches('}'))),
                _ => m.push(format!("{{_modify: {{{a}, {b}}}}}")),
            }
        }
    }
    bfs(ctx, &["@dev", "@full", "@nest"], &loadable(m), 1, &cfg0());
    // constraints of registers that have one
    let wc = |x: &str| format!("<writeConstraint>{x}</writeConstraint>");
    let range = wc("<range><minimum>0</minimum><maximum>3</maximum></range>");
    let regs: String = [String::new(), range, wc("<useEnumeratedValues>true</useEnumeratedValues>"), wc("<writeAsRead>true</writeAsRead>")]
        .iter()
        .enumerate()
        .map(|(i, w)| crate::svd::reg(&format!("R{i}"), 4 * i as u64).props(w).fields(&crate::svd::fld("F", 0, 2, w)).x())
        .collect();
    let svd = crate::svd::dev(&crate::svd::per("P", 0, "", &(regs.clone() + &crate::svd::clu("", "C", 0x40, &regs))));
    let mut m = vec![];
    for p in [&["P"][..], &["P", "C"]] {
        for s in ["R0", "R1", "R2", "R3", "R*", "R[12]"] {
            for k in ["_write_constraint", "writeConstraint"] {
                for w in ["none", "enum", "[0, 2]", "['0x1', 7]", "bad", "5", "''", "[1]", "none, access: read-only", "none, name: RN"] {
                    m.push(at(p, &format!("{{_modify: {{'{s}': {{{k}: {w}}}}}}}")));
                    m.push(at(p, &format!("{{'{s}': {{_modify: {{F: {{{k}: {w}}}}}}}}}")));
                }
            }
        }
    }
    bfs(ctx, &[&svd], &m, ctx.tier(1, 2), &cfg0());
    // renaming a peripheral carries every reference to it along
    let n = ctx.tier(4, 5);
    let roots = forests(n);
    let roots: Vec<&str> = roots.iter().map(|s| s.as_str()).collect();
    let mut d: Vec<String> = FOREST[..n].iter().map(|x| format!("{{_modify: {{{x}: {{name: NEW}}}}}}")).collect();
    d.extend(
        pairs(n, |x, y| if x == y { String::new() } else { format!("{{_modify: {{_peripherals: {{{x}: {{name: N1}}, {y}: {{name: N2, description: d}}}}}}}}") })
            .into_iter()
            .filter(|d| !d.is_empty()),
    );
    d.extend(pairs(n, |x, y| format!("{{_modify: {{{x}: {{derivedFrom: {y}}}}}}}")));
    // the same through selectors that are not the name itself
    for s in ["[A]", "A*", "A,Z", "{A,Z}", "[!B-Z]", "[A-B]", "B,C", "{C,B}", "?", "*", "[Cc]", "B*", "?*", "[!A]", "Z?", "D,", "[D]"] {
        for k in ["_modify: {_peripherals: {#}}", "_modify: {#}"] {
            for m in ["name: NEW", "name: NEW, description: d, baseAddress: 0x77", "description: d", "name: A", "interrupts: {'I*': {value: 9}}"] {
                d.push(format!("{{{}}}", k.replace('#', &format!("{}: {{{m}}}", q(s)))));
            }
        }
    }
    bfs(ctx, &roots, &d, 1, &cfg0());
    // the same for arrays and for selectors at the other levels
    let mut d = vec![];
    for (s, r) in [("CR", "C?"), ("CR", "{CR,X}"), ("CR", "CR,X"), ("SR", "[S]R"), ("DR", "D*"), ("CAL", "CA?"), ("NOPE", "N*")] {
        for m in ["name: NEW", "name: NEW, addressOffset: 0x90", "description: d", "displayName: DN", "size: 8", "access: read-only", "alternateRegister: SR"] {
            for s in [s, r] {
                for k in ["#", "_registers: {#}", "_clusters: {#}"] {
                    d.push(at(&["ADC1"], &format!("{{_modify: {{{}}}}}", k.replace('#', &format!("{}: {{{m}}}", q(s))))));
                    d.push(at(&["{ADC1,TIM1}"], &format!("{{_modify: {{{}}}}}", k.replace('#', &format!("{}: {{{m}}}", q(s))))));
                }
            }
        }
    }
    for (s, r) in [("EN", "E?"), ("EN", "{EN,X}"), ("MODE", "[M]*"), ("DIV", "?IV"), ("NOPE", "N*")] {
        for m in ["name: NEW", "name: NEW, bitOffset: 12", "description: d", "access: read-only", "bitWidth: 3", "bitRange: '[9:9]'", "derivedFrom: EN", "_write_constraint: [0, 1]"] {
            for s in [s, r] {
                for p in [&["ADC1", "CR"][..], &["ADC1", "C*"], &["ADC1", "CAL", "CR"], &["*", "CR"]] {
                    d.push(at(p, &format!("{{_modify: {{{}: {{{m}}}}}}}", q(s))));
                }
            }
        }
    }
    bfs(ctx, &["@dev", "@nest", "@chain", "@full"], &d, 1, &cfg0());
}

// ------------------------------------------------------------------ copy / derive / rebase
pub fn copy(ctx: &Ctx) {
    crate::spaces12::copy(ctx);
    crate::spaces11::copy(ctx);
    let mut d = v(&["{_copy: {NEW: {}}}", "{_copy: {NEW: 5}}", "{_copy: {A: {from: TIM1}, B: {from: A}}}"]);
    for n in ["NEW", "TIM1", "TIM2", "ADC1", "ADC2"] {
        for s in ["TIM1", "TIM2", "ADC1", "ADC2", "NOPE"] {
            d.push(format!("{{_copy: {{{n}: {{from: {s}}}}}}}"));
        }
        d.push(format!("{{_modify: {{{n}: {{baseAddress: 0x99}}}}}}"));
        d.push(at(&[&format!("?~{n}")], "{_delete: 'CR'}"));
        d.push(at(&[&format!("?~{n}")], "{_add: {_interrupts: {X: {value: 55}}}}"));
    }
    for p in ["ADC1", "TIM1", "TIM2"] {
        for n in ["R", "CR", "DR", "CNT"] {
            for (s, extra) in [
                ("CR", ""), ("CNT", ""), ("NOPE", ""), ("CR", ", addressOffset: 0x40"), ("DR", ", description: '`peripheral` d', addressOffset: 0x44"),
                ("SR", ", displayName: Q, resetValue: 9"), ("CR", ", size: 8, access: read-only, fields: {N: {bitOffset: 0, bitWidth: 1}}"),
                ("CR", ", name: ignored"), ("CR2", ", addressOffset: 0x48"), ("CR", ", displayName: DN"), ("SR", ", dim: 2, dimIncrement: 4, addressOffset: 0x50"),
                ("DR", ", alternateRegister: CR, alternateGroup: AG"), ("CR", ", writeConstraint: [0, 1], derivedFrom: SR"), ("CNT", ", dim: 2, dimIncrement: 4, dimIndex: 'A,B'"), ("DR", ", fields: {}"),
                ("CR", ", _write_constraint: none, resetMask: 3"),
            ] {
                d.push(at(&[p], &format!("{{_copy: {{{n}: {{_from: {s}{extra}}}}}}}")));
            }
            d.push(at(&[p], &format!("{{_copy: {{_registers: {{{n}: {{_from: CR, addressOffset: 0x4c}}}}}}}}")));
            d.push(at(&[p, "?~CAL"], &format!("{{_copy: {{{n}: {{_from: VAL, addressOffset: 0x8}}}}}}")));
        }
        d.push(at(&[p], "{_copy: {_clusters: {N: {_from: CAL}}}}"));
        d.push(at(&[p], "{_copy: {R: {}}}"));
        d.push(at(&[p], "{_copy: {R: {from: CR}}}"));
    }
    bfs(ctx, &["@dev"], &d, ctx.tier(1, 2), &cfg0());
    let few: Vec<String> = d.iter().enumerate().filter(|(i, _)| ctx.thorough || i % 2 == 0).map(|x| x.1.clone()).collect();
    if !ctx.thorough {
        bfs(ctx, &["@dev"], &few, 2, &cfg0());
    }
    // every pair of things a rule may override, onto a new and an existing register or array of registers
    let src = crate::svd::reg("S", 0).display("SD").desc("the `register`").altreg("T").props("<size>16</size><access>read-only</access><resetValue>1</resetValue>").fields(&crate::svd::fld("F", 0, 2, "")).x();
    let body = src.clone()
        + &src.replace("<register>", &format!("<register>{}", crate::svd::dim(3, 4, Some("A,B,C")))).replace("<name>S<", "<name>A%s<").replace("<addressOffset>0<", "<addressOffset>16<")
        + &crate::svd::reg("T", 4).display("TD").desc("t").fields(&crate::svd::fld("G", 0, 2, "")).x()
        + &crate::svd::reg("B%s", 0x40).dim(crate::svd::dim(2, 4, None)).display("BD").x()
        + &crate::svd::reg("D", 0x80).from("S").display("DD").x();
    let svd = crate::svd::dev(&crate::svd::per("P", 0, "", &(body.clone() + &crate::svd::clu("", "C", 0x100, &body))));
    let over = [
        "displayName: N", "description: N", "addressOffset: 0x70", "size: 8", "access: write-only", "resetValue: 9", "resetMask: 6", "alternateGroup: AG", "alternateRegister: AR", "derivedFrom: T", "name: X",
        "dim: 2", "dim: 2, dimIncrement: 8", "dimIndex: 'P,Q,R'", "dimIncrement: 0x10", "dim: 2, dimIncrement: 4, dimIndex: [0, 1]", "fields: {N: {bitOffset: 9, bitWidth: 1}}", "writeConstraint: [0, 1]", "modifiedWriteValues: set", "readAction: set",
    ];
    let mut m = vec![];
    for (i, a) in over.iter().enumerate() {
        for b in [""].iter().chain(&over[i + 1..]) {
            let o = if b.is_empty() { a.to_string() } else { format!("{a}, {b}") };
            for s in ["S", "A%s", "T", "B%s", "D"] {
                for t in ["NEW", "T", "B%s", "NEW%s", "S", "D"] {
                    if b.is_empty() || ctx.thorough || (t.len() + s.len() + i) % 3 == 0 {
                        m.push(at(&["P"], &format!("{{_copy: {{'{t}': {{_from: '{s}', {o}}}}}}}")));
                        m.push(at(&["P", "C"], &format!("{{_copy: {{'{t}': {{_from: '{s}', {o}}}}}}}")));
                    }
                }
            }
        }
    }
    let m = loadable(m);
    ctx.note("pairs_of_overrides", m.len());
    ctx.run(m.iter().map(|d| case(&svd, d, &cfg0())));
    // from other files: with their interrupts, and with what they are derived from there
    let mut d = vec![];
    let fixtures = concat!(env!("CARGO_MANIFEST_DIR"), "/fixtures");
    for (f, ps) in [("chain", &["A", "B", "C", "D", "N"][..]), ("dev", &["ADC1", "ADC2", "TIM1", "TIM2", "NOPE"]), ("full", &["UART", "SPI", "nope"]), ("nest", &["ADC1", "TIM1"]), ("missing", &["A"])] {
        for s in ps {
            for n in ["NEW", "ADC1", "ADC2", "TIM1", "A", "B", "D"] {
                d.push(format!("{{_path: {fixtures}/x.yaml, _copy: {{{n}: {{from: '{fixtures}/{f}.svd:{s}'}}}}}}"));
                d.push(format!("{{_path: {fixtures}/dir/../x.yaml, _copy: {{{n}: {{from: '{f}.svd:{s}'}}, N2: {{from: {n}}}}}}}"));
                d.push(format!("{{_path: {fixtures}/x.yaml, _copy: {{{n}: {{from: './{f}.svd:{s}'}}}}, _modify: {{{n}: {{baseAddress: 0x99}}}}}}"));
            }
            d.push(format!("{{_path: {fixtures}/x.yaml, _copy: {{NEW: {{from: '{f}.svd:{s}:x'}}}}}}"));
        }
    }
    bfs(ctx, &["@dev", "@chain"], &d, ctx.tier(1, 2), &cfg0());
    let mut d = vec![];
    for n in ["A", "B", "C", "D", "N"] {
        for s in ["A", "B", "C", "D", "N"] {
            d.push(format!("{{_copy: {{{n}: {{from: {s}}}}}}}"));
        }
        d.push(format!("{{_derive: {{{n}: A}}}}"));
    }
    bfs(ctx, &["@chain"], &d, ctx.tier(3, 4), &cfg0());
    let n = ctx.tier(4, 5);
    let roots = forests(n);
    let roots: Vec<&str> = roots.iter().map(|s| s.as_str()).collect();
    let mut d = pairs(n, |x, y| format!("{{_copy: {{{x}: {{from: {y}}}}}}}"));
    d.extend(FOREST[..n].iter().map(|x| format!("{{_copy: {{NEW: {{from: {x}}}}}}}")));
    bfs(ctx, &roots, &d, 1, &cfg0());
}

pub fn derive(ctx: &Ctx) {
    crate::spaces13::derive(ctx);
    crate::spaces12::derive(ctx);
    crate::spaces11::derive(ctx);
    let mut d = vec![];
    let ps = ["ADC1", "ADC2", "TIM1", "TIM2"];
    for n in ["ADC1", "ADC2", "TIM1", "TIM2", "NEW"] {
        for s in ps.iter().chain(&["NOPE", "X.Y"]) {
            d.push(format!("{{_derive: {{{n}: {s}}}}}"));
        }
        d.push(format!("{{_derive: {{{n}: {{_from: TIM1, baseAddress: 0x77, description: D}}}}}}"));
        d.push(format!("{{_derive: {{{n}: {{_from: ADC1, groupName: G}}}}}}"));
        d.push(format!("{{_derive: {{{n}: {{description: D}}}}}}"));
    }
    d.push("{_derive: {NEW: 5}}".into());
    let dev = d.clone();
    bfs(ctx, &["@dev", "@chain"], &dev, ctx.tier(2, 3), &cfg0());
    for (n, depth) in ctx.tier([(3, 2), (4, 1)], [(4, 2), (5, 1)]) {
        let roots = forests(n);
        let roots: Vec<&str> = roots.iter().map(|s| s.as_str()).collect();
        let mut d = pairs(n, |x, y| format!("{{_derive: {{{x}: {y}}}}}"));
        d.extend(FOREST[..n].iter().map(|x| format!("{{_derive: {{NEW: {x}}}}}")));
        d.extend(pairs(n, |x, y| format!("{{_derive: {{{x}: {{_from: {y}, baseAddress: 0x77}}}}}}")));
        bfs(ctx, &roots, &d, depth, &cfg0());
    }
    let mut r = vec![];
    for p in ["ADC1", "TIM1"] {
        for n in ["CR", "SR", "DR", "CR2", "NEW", "?~NEW", "?~CR", "[SD]R", "C*", "NEW%s", "SR,DR", "CAL", "NOPE*"] {
            for s in ["CR", "SR", "CR2", "NOPE", "ADC1.CAL.CR", "TIM1.CNT", "CNT"] {
                r.push(at(&[p], &format!("{{_derive: {{{}: {s}}}}}", q(n))));
            }
            for b in ["_from: CR, addressOffset: 0x40", "_from: SR, description: '`block_path`', addressOffset: 0x44", "_from: CR, dim: 2, dimIncrement: 4, addressOffset: 0x50", "addressOffset: 4"] {
                r.push(at(&[p], &format!("{{_derive: {{{}: {{{b}}}}}}}", q(n))));
            }
            r.push(at(&[p], &format!("{{_derive: {{_registers: {{{}: {{_from: CR, addressOffset: 0x48}}}}}}}}", q(n))));
        }
        r.push(at(&[p], "{_derive: {_clusters: {N: CAL}}}"));
        r.push(at(&[p], "{_derive: {N: 5}}"));
        for n in ["CR", "VAL", "NEW"] {
            for s in ["CR", "VAL", "CAL.CR", "ADC1.CAL.VAL"] {
                r.push(at(&[p, "?~CAL"], &format!("{{_derive: {{{n}: {{_from: {s}, addressOffset: 8}}}}}}")));
            }
        }
    }
    bfs(ctx, &["@dev"], &r, 2, &cfg0());
    let mut f = vec![];
    for (p, b) in [("ADC1", vec!["CR"]), ("ADC1", vec!["SR"]), ("ADC1", vec!["CR2"]), ("ADC1", vec!["CAL", "CR"]), ("TIM1", vec!["CR"])] {
        for n in ["EN", "MODE", "NEW", "?~NEW", "*", "NEW%s", "EN,DIV", "GO", "NOPE?"] {
            for s in ["EN", "NOPE", "GO", "RDY", "ADC1.CAL.CR.GO", "TIM1.CR.EN"] {
                let mut path = vec![p];
                path.extend(b.iter());
                f.push(at(&path, &format!("{{_derive: {{{}: {s}}}}}", q(n))));
                f.push(at(&path, &format!("{{_derive: {{{}: {{_from: {s}, bitOffset: 20, bitWidth: 1, description: '`register_path`'}}}}}}", q(n))));
            }
            let mut path = vec![p];
            path.extend(b.iter());
            f.push(at(&path, &format!("{{_derive: {{{}: {{_from: EN, bitOffset: 20, bitWidth: 1, dim: 2, dimIncrement: 2}}}}}}", q(n))));
            f.push(at(&path, &format!("{{_derive: {{{}: {{bitOffset: 20}}}}}}", q(n))));
        }
    }
    bfs(ctx, &["@dev"], &f, ctx.tier(1, 2), &cfg0());
    sources(ctx);
}

/// h_patch, plus: everything that is derived after the rule has a source other than itself
pub fn h_sources(c: &Case) -> Outcome {
    let mut o = h_patch(c);
    if let Some(x) = &o.next {
        let text = c.input["doc"].as_str().unwrap();
        match parse_lax(x).and_then(|d| crate::resolve::resolve(&d).map(|_| ())) {
            Err(e) if o.fail.is_none() => return Outcome::fail(format!("accepted a source that does not exist: {e}\n{text}")),
            Ok(()) => o.class = "resolved".into(),
            _ => {}
        }
    }
    o
}

/// a peripheral and a cluster with chains of registers, a second cluster and a second peripheral
fn sibling_clusters() -> String {
    let r = |n: &str, o: u32, d: &str| format!("<register{}><name>{n}</name><description>{n}</description><addressOffset>{o}</addressOffset></register>", if d.is_empty() { String::new() } else { format!(" derivedFrom=\"{d}\"") });
    let regs = r("A", 0, "") + &r("B", 4, "A") + &r("D", 8, "B") + &r("Z", 12, "");
    let per = |n: &str, a: u32, c: &str| format!("<peripheral><name>{n}</name><baseAddress>{a}</baseAddress><registers>{c}</registers></peripheral>");
    let clu = |n: &str, o: u32, c: &str| format!("<cluster><name>{n}</name><addressOffset>{o}</addressOffset>{c}</cluster>");
    crate::svd::dev(&(per("P", 4096, &(regs.clone() + &clu("C", 64, &regs) + &clu("E", 128, &r("X", 0, "")))) + &per("Q", 8192, &r("A", 0, ""))))
}

/// sources written as paths: every element of the device, and paths to nothing
fn sources(ctx: &Ctx) {
    let mut v = vec![];
    for p in ["ADC1", "TIM1"] {
        for s in ["ADC1.CR", "ADC1.SR", "ADC1.CAL.VAL", "ADC1.CAL.CR", "TIM1.CNT", "TIM1.CR", "ADC1.NOPE", "NOPE.CR", "ADC1.CAL.NOPE", "ADC1.NOPE.CR", "CAL.CR"] {
            v.push(at(&[p], &format!("{{_derive: {{NEW: {{_from: {s}, addressOffset: 0x60}}}}}}")));
        }
    }
    v.push(at(&["ADC1"], "{_derive: {CR: ADC1.CR}}"));
    v.push(at(&["ADC1"], "{_derive: {CR: ADC1.CR2}}"));
    for s in ["CAL.CR", "CAL.VAL", "ADC1.CAL.VAL", "TIM1.CAL.CR", "CAL.NOPE", "ADC1.CR"] {
        v.push(at(&["ADC1", "CAL"], &format!("{{_derive: {{NEW: {{_from: {s}, addressOffset: 8}}}}}}")));
    }
    let f = |b: &[&str], s: &str| at(b, &format!("{{_derive: {{NEW: {{_from: {s}, bitOffset: 20, bitWidth: 1}}}}}}"));
    for b in [["ADC1", "SR"], ["TIM1", "CR"]] {
        for s in ["ADC1.CR.EN", "ADC1.SR.RDY", "TIM1.CR.EN", "ADC1.CAL.CR.GO", "CR.EN", "SR.RDY", "ADC1.CR.NOPE", "ADC1.NOPE.EN", "NOPE.CR.EN", "CR.NOPE", "A.B.C.D.E"] {
            v.push(f(&b, s));
        }
    }
    for s in ["CAL.CR.GO", "CR.GO", "ADC1.CR.EN", "ADC1.CAL.CR.GO", "CAL.VAL.GO"] {
        v.push(f(&["ADC1", "CAL", "CR"], s));
    }
    v.push(at(&["ADC1", "CR"], "{_derive: {EN: CR.EN}}"));
    v.push(at(&["ADC1", "CR"], "{_derive: {EN: ADC1.CR.EN}}"));
    // what is derived from the newly derived register, at both levels
    let w = sibling_clusters();
    let mut u = vec![];
    for (path, names) in [(&["P"][..], ["A", "B", "[AB]"]), (&["P", "C"][..], ["A", "B", "[AB]"])] {
        for n in names {
            for s in ["E.X", "Q.A", "P.E.X", "P.C.Z", "Z", "P.Z"] {
                if (path.len() == 2) == (s == "E.X") || s.starts_with("P.C") || s == "P.E.X" || s == "Z" || (s == "P.Z" && path.len() == 1) || (s == "Q.A" && path.len() == 1) {
                    u.push(at(path, &format!("{{_derive: {{'{n}': {s}}}}}")));
                    u.push(at(path, &format!("{{_derive: {{'{n}': {{_from: {s}, description: new}}}}}}")));
                }
            }
        }
    }
    ctx.note("derived_from_the_derived", u.len());
    ctx.run(u.iter().map(|d| Case::new("sources", json!({"svd": w, "doc": d, "cfg": cfg0()}))));
    ctx.note("sources_written_as_paths", v.len());
    ctx.run(v.iter().map(|d| Case::new("sources", json!({"svd": "@dev", "doc": d, "cfg": cfg0()}))));
}

pub fn rebase(ctx: &Ctx) {
    crate::spaces12::rebase(ctx);
    crate::spaces11::rebase(ctx);
    let mut d = vec![];
    let ps = ["A", "B", "C", "D"];
    for n in ps.iter().chain(&["NOPE"]) {
        for s in ps.iter().chain(&["NOPE"]) {
            d.push(format!("{{_rebase: {{{n}: {s}}}}}"));
            d.push(format!("{{_derive: {{{n}: {s}}}}}"));
        }
    }
    d.push("{_rebase: {A: 5}}".into());
    d.push("{_rebase: {A: {from: B}}}".into());
    for (a, b, c, e) in [("B", "A", "C", "B"), ("B", "A", "A", "B"), ("D", "A", "B", "D")] {
        d.push(format!("{{_rebase: {{{a}: {b}, {c}: {e}}}}}"));
    }
    bfs(ctx, &["@chain"], &d, ctx.tier(3, 4), &cfg0());
    // all derivation forests, in all orders of declaration
    for (n, depth) in ctx.tier([(3, 2), (4, 1)], [(4, 2), (5, 1)]) {
        let roots = forests(n);
        let roots: Vec<&str> = roots.iter().map(|s| s.as_str()).collect();
        let mut d = pairs(n, |x, y| format!("{{_rebase: {{{x}: {y}}}}}"));
        if depth > 1 {
            d.extend(pairs(n, |x, y| format!("{{_derive: {{{x}: {y}}}}}")));
            d.extend(pairs(n, |x, y| format!("{{_copy: {{{x}: {{from: {y}}}}}}}")));
        }
        bfs(ctx, &roots, &d, depth, &cfg0());
    }
    // what a program sees of the device stays as it was, whoever owns the properties
    let mut cases = vec![];
    for r in forests(4) {
        for own in ["", "<size>16</size><resetValue>3</resetValue>", "<size>16</size><access>read-only</access>"] {
            // the same in all the peripherals that are not derived
            let x = r.replace("<registers>", &format!("{own}<registers>"));
            for d in pairs(4, |x, y| format!("{{_rebase: {{{x}: {y}}}}}")) {
                cases.push(Case::new("keep", json!({"svd": x, "doc": d, "cfg": cfg0()})));
            }
        }
    }
    ctx.note("nothing_lost", cases.len());
    ctx.run(cases.into_iter());
}

/// every derivation forest of `n` peripherals; the names are in order of
/// declaration, so all orders of declaration are among them
pub fn forests(n: usize) -> Vec<String> {
    let mut v = vec![];
    for m in 0..(n + 1).pow(n as u32) {
        let par: Vec<Option<usize>> =
            (0..n).map(|i| Some(m / (n + 1).pow(i as u32) % (n + 1)).filter(|k| *k < n)).collect();
        let cyclic = (0..n).any(|i| {
            let (mut k, mut steps) = (Some(i), 0);
            while let Some(x) = k {
                k = par[x];
                steps += 1;
                if steps > n {
                    return true;
                }
            }
            false
        });
        if !cyclic {
            v.push(three(&par));
        }
    }
    v
}
/// `f(x, y)` for every ordered pair of the first `n` forest names
pub fn pairs(n: usize, f: impl Fn(&str, &str) -> String) -> Vec<String> {
    let names = &FOREST[..n];
    names.iter().flat_map(|x| names.iter().map(|y| f(x, y)).collect::<Vec<_>>()).collect()
}
pub const FOREST: [&str; 5] = ["A", "B", "C", "D", "E"];

fn three(par: &[Option<usize>]) -> String {
    let mut s = String::new();
    for (i, p) in par.iter().enumerate() {
        let n = FOREST;
        s += &match p {
            Some(p) => format!("<peripheral derivedFrom=\"{}\"><name>{}</name>", n[*p], n[i]),
            None => format!("<peripheral><name>{}</name><description>own {}</description>", n[i], n[i]),
        };
        s += &format!("<baseAddress>{}</baseAddress><interrupt><name>I{i}</name><value>{i}</value></interrupt>", 0x1000 * (i + 1));
        if p.is_none() {
            s += &format!("<registers><register><name>R{i}</name><addressOffset>0</addressOffset></register></registers>");
        }
        s += "</peripheral>";
    }
    device(&s)
}
pub fn device(peripherals: &str) -> String {
    format!("<device schemaVersion=\"1.3\"><name>D</name><version>1</version><description>d</description><addressUnitBits>8</addressUnitBits><width>32</width><peripherals>{peripherals}</peripherals></device>")
}
