//! Every pair of attributes a rule can give, at once, to elements that already have all of them, that have none,
//! that are derived, or that are arrays: `_modify` sets exactly what is given, `_derive` keeps what is given.
use crate::engine::*;
use crate::patchx::*;
use crate::spaces::{at, cfg0, q};

const WC: &str = "<writeConstraint><range><minimum>1</minimum><maximum>2</maximum></range></writeConstraint>";

fn dim(n: &str) -> &'static str {
    if n.contains('%') { "<dim>2</dim><dimIncrement>4</dimIncrement>" } else { "" }
}
fn field(n: &str, from: &str, o: u32, rich: bool) -> String {
    let more = if rich { format!("<description>old</description><bitOffset>{o}</bitOffset><bitWidth>2</bitWidth><access>read-write</access><modifiedWriteValues>oneToSet</modifiedWriteValues>{WC}<readAction>clear</readAction>{}", crate::svd::evs("E", "", &[("V", 0)])) } else { format!("<bitOffset>{o}</bitOffset><bitWidth>1</bitWidth>") };
    format!("<field{from}>{}<name>{n}</name>{more}</field>", dim(n))
}
fn fields() -> String {
    field("S", "", 0, true) + &field("T", "", 2, false) + &field("D", " derivedFrom=\"S\"", 4, false) + &field("A%s", "", 8, true)
}
fn register(n: &str, from: &str, o: u32, rich: bool) -> String {
    let more = if rich {
        format!("<displayName>old</displayName><description>old</description><alternateGroup>OG</alternateGroup><addressOffset>{o}</addressOffset><size>32</size><access>read-write</access><protection>p</protection><resetValue>1</resetValue><resetMask>2</resetMask><dataType>uint32_t</dataType><modifiedWriteValues>oneToSet</modifiedWriteValues>{WC}<readAction>clear</readAction><fields>{}</fields>", fields())
    } else {
        format!("<addressOffset>{o}</addressOffset>")
    };
    format!("<register{from}>{}<name>{n}</name>{more}</register>", dim(n))
}
fn content(derived_cluster: &str) -> String {
    let regs = register("S", "", 0, true) + &register("T", "", 4, false) + &register("D", " derivedFrom=\"S\"", 8, false) + &register("A%s", "", 16, true);
    let clu = |n: &str, from: &str, o: u32, rich: bool| {
        let d = if n.contains('%') { "<dim>2</dim><dimIncrement>64</dimIncrement>" } else { "" };
        if rich {
            format!("<cluster{from}>{d}<name>{n}</name><description>old</description><headerStructName>OH</headerStructName><addressOffset>{o}</addressOffset><size>32</size><access>read-write</access><protection>p</protection><resetValue>1</resetValue><resetMask>2</resetMask>{regs}</cluster>")
        } else {
            format!("<cluster{from}>{d}<name>{n}</name><addressOffset>{o}</addressOffset>{}</cluster>", if from.is_empty() { register("S", "", 0, false) } else { String::new() })
        }
    };
    regs.clone() + &clu("CS", "", 0x40, true) + &clu("CT", "", 0x80, false) + &clu("CD", derived_cluster, 0xc0, false) + &clu("CA%s", "", 0x100, true)
}
fn device() -> String {
    let per = |n: &str, from: &str, a: u32, rich: bool| {
        let d = if n.contains('%') { "<dim>2</dim><dimIncrement>4096</dimIncrement>" } else { "" };
        if rich {
            format!("<peripheral{from}>{d}<name>{n}</name><displayName>old</displayName><version>1</version><description>old</description><groupName>OG</groupName><prependToName>O_</prependToName><appendToName>_O</appendToName><headerStructName>OH</headerStructName><baseAddress>{a}</baseAddress><size>32</size><access>read-write</access><protection>p</protection><resetValue>1</resetValue><resetMask>2</resetMask><addressBlock><offset>0</offset><size>1024</size><usage>registers</usage></addressBlock><interrupt><name>J</name><value>1</value></interrupt><registers>{}</registers></peripheral>", content(" derivedFrom=\"CS\""))
        } else {
            format!("<peripheral{from}>{d}<name>{n}</name><baseAddress>{a}</baseAddress>{}</peripheral>", if from.is_empty() { format!("<registers>{}</registers>", register("S", "", 0, false)) } else { String::new() })
        }
    };
    crate::svd::dev(&(per("S", "", 0x1000, true) + &per("T", "", 0x2000, false) + &per("D", " derivedFrom=\"S\"", 0x3000, false) + &per("A%s", "", 0x4000, true)))
}

const PER: [&str; 24] = [
    "displayName: N", "version: '7'", "description: N", "groupName: G", "size: 8", "access: write-only", "resetValue: 9", "resetMask: 6", "protection: s", "name: X", "alternatePeripheral: AP", "headerStructName: H", "prependToName: P_", "appendToName: _A",
    "addressBlock: {offset: 3, size: 7, usage: reserved, protection: p}", "addressBlocks: [{offset: 3, size: 7, usage: registers}, {offset: 99, size: 1, usage: reserved}]", "interrupts: {J: {value: 70}, I: {value: 71, description: i}}",
    "registers: {R: {addressOffset: 0}}", "dim: 3, dimIncrement: 0x400", "baseAddress: 0x9000", "derivedFrom: T", "description: ''", "displayName: ''", "groupName: ''",
];
const REG: [&str; 24] = [
    "displayName: N", "description: N", "size: 8", "access: write-only", "resetValue: 9", "resetMask: 6", "protection: s", "alternateGroup: AG", "alternateRegister: AR", "name: X", "dim: 3, dimIncrement: 8", "fields: {N: {bitOffset: 9, bitWidth: 1}}",
    "writeConstraint: [0, 1]", "_write_constraint: enum", "modifiedWriteValues: set", "readAction: set", "dataType: uint8_t", "addressOffset: 0x20", "derivedFrom: T", "description: ''", "displayName: ''", "alternateGroup: ''", "_write_constraint: none", "access: ''",
];
const FLD: [&str; 16] = [
    "description: N", "msb: 17, lsb: 14", "bitRange: '[15:8]'", "bitOffset: 16", "bitWidth: 3", "access: write-only", "name: X", "writeConstraint: [0, 1]", "_write_constraint: enum", "modifiedWriteValues: set", "readAction: set", "dim: 3, dimIncrement: 2", "derivedFrom: T", "description: ''",
    "_write_constraint: none", "access: ''",
];
const CLU: [&str; 15] = [
    "description: N", "size: 8", "access: write-only", "resetValue: 9", "resetMask: 6", "protection: s", "name: X", "alternateCluster: AC", "headerStructName: H", "dim: 3, dimIncrement: 4", "registers: {R: {addressOffset: 0}}", "clusters: {S: {addressOffset: 8}}", "addressOffset: 0x20", "derivedFrom: CT", "description: ''",
];

/// nothing, one of them, two of them
fn upto2(l: &[&str]) -> Vec<String> {
    let mut v = vec![];
    for (i, a) in l.iter().enumerate() {
        v.push(a.to_string());
        v.extend(l[i + 1..].iter().map(|b| format!("{a}, {b}")));
    }
    v.retain(|x| load(&format!("{{{x}}}")).is_some());
    v
}

pub fn modify(ctx: &Ctx) {
    let mut d = vec![];
    for n in ["S", "T", "D", "A%s", "[SD]"] {
        d.extend(upto2(&PER).iter().map(|x| format!("{{_modify: {{{}: {{{x}}}}}}}", q(n))));
        for p in [&["S"][..], &["S", "CS"]] {
            d.extend(upto2(&REG).iter().map(|x| at(p, &format!("{{_modify: {{{}: {{{x}}}}}}}", q(n)))));
            let mut p = p.to_vec();
            p.push("S");
            d.extend(upto2(&FLD).iter().map(|x| at(&p, &format!("{{_modify: {{{}: {{{x}}}}}}}", q(n)))));
        }
    }
    for n in ["CS", "CT", "CD", "CA%s", "C*"] {
        d.extend(upto2(&CLU).iter().map(|x| at(&["S"], &format!("{{_modify: {{_clusters: {{{}: {{{x}}}}}}}}}", q(n)))));
    }
    ctx.note("pairs_of_given_attributes", d.len());
    bfs(ctx, &[&device()], &d, 1, &cfg0());
}

pub fn derive(ctx: &Ctx) {
    let mut d = vec![];
    for n in ["S", "T", "D", "A%s", "N", "N%s", "?~N"] {
        for s in ["S", "T", "D", "A%s"] {
            if n == s || !ctx.thorough && s == "A%s" {
                continue;
            }
            // what a new element cannot do without
            let need = |k: &str, x: &str| if n.contains('N') && !x.contains(k.split(':').next().unwrap()) { format!("{k}{x}") } else { x.to_string() };
            d.extend(upto2(&PER).iter().map(|x| format!("{{_derive: {{{}: {{_from: {}, {}}}}}}}", q(n), q(s), need("baseAddress: 16, ", x))));
            for p in [&["S"][..], &["S", "CS"]] {
                d.extend(upto2(&REG).iter().map(|x| at(p, &format!("{{_derive: {{{}: {{_from: {}, {}}}}}}}", q(n), q(s), need("addressOffset: 16, ", x)))));
                let mut p = p.to_vec();
                p.push("S");
                d.extend(upto2(&FLD).iter().map(|x| at(&p, &format!("{{_derive: {{{}: {{_from: {}, {}}}}}}}", q(n), q(s), if ["bitOffset", "bitRange", "msb"].iter().any(|k| x.contains(k)) { x.to_string() } else { need("bitOffset: 12, ", x) }))));
            }
        }
    }
    ctx.note("pairs_of_given_attributes", d.len());
    bfs(ctx, &[&device()], &d, 1, &cfg0());
}
