//! What patching leaves alone, failure atomicity, conversion, encoder options
//! and validation after patching.
use crate::engine::*;
use crate::files::*;
use crate::glob;
use crate::patchx::*;
use crate::spaces::{at, q};
use crate::spaces2::perms;
use crate::spaces3::small_svd;
use crate::svd::*;
use serde_json::{json, Map, Value};
use svd_parser::svd::{Device, ValidateLevel};

/// documents with one optional element each, and the fixtures
pub fn micro() -> Vec<String> {
    let d = |head: &str, per: &str| {
        format!("<device><name>D</name><version>1</version><description>d</description>{head}<peripherals>{per}</peripherals></device>")
    };
    let base = "<addressUnitBits>8</addressUnitBits><width>32</width>";
    let p0 = per("P", 0, "", &reg("A", 0).x());
    let mut v = vec![d(base, &p0)];
    for t in [
        "<vendor>v</vendor>", "<vendorID>i</vendorID>", "<series>s</series>", "<licenseText>l</licenseText>", "<headerSystemFilename>h</headerSystemFilename>",
        "<headerDefinitionsPrefix>h</headerDefinitionsPrefix>", "<size>16</size>", "<access>read-only</access>", "<access>write-only</access>", "<access>writeOnce</access>",
        "<access>read-writeOnce</access>", "<protection>s</protection>", "<protection>n</protection>", "<protection>p</protection>", "<resetValue>5</resetValue>", "<resetMask>0xFF</resetMask>",
    ] {
        v.push(d(&format!("{base}{t}"), &p0));
        v.push(d(base, &per("P", 0, t, &reg("A", 0).x())));
        v.push(d(base, &per("P", 0, "", &reg("A", 0).props(t).x())));
        v.push(d(base, &per("P", 0, "", &clu("", "C", 0, &format!("{t}{}", reg("A", 0).x())))));
        v.push(d(base, &per("P", 0, "", &reg("A", 0).fields(&fld("F", 0, 1, t)).x())));
    }
    for t in ["<mpuPresent>1</mpuPresent>", "<fpuPresent>true</fpuPresent>", "<fpuDP>1</fpuDP>", "<dspPresent>0</dspPresent>", "<icachePresent>1</icachePresent>", "<dcachePresent>1</dcachePresent>", "<itcmPresent>1</itcmPresent>", "<dtcmPresent>1</dtcmPresent>", "<vtorPresent>0</vtorPresent>", "<deviceNumInterrupts>9</deviceNumInterrupts>", "<sauNumRegions>2</sauNumRegions>"] {
        for e in ["little", "big", "selectable", "other"] {
            v.push(d(&format!("<cpu><name>CM0</name><revision>r</revision><endian>{e}</endian>{t}<nvicPrioBits>2</nvicPrioBits><vendorSystickConfig>1</vendorSystickConfig></cpu>{base}"), &p0));
        }
    }
    for t in [
        "<displayName>x</displayName>", "<version>x</version>", "<description>x</description>", "<alternatePeripheral>P</alternatePeripheral>", "<groupName>g</groupName>", "<prependToName>x</prependToName>",
        "<appendToName>x</appendToName>", "<headerStructName>x</headerStructName>", "<addressBlock><offset>0</offset><size>4</size><usage>registers</usage></addressBlock>",
        "<addressBlock><offset>0</offset><size>4</size><usage>buffer</usage><protection>s</protection></addressBlock><addressBlock><offset>4</offset><size>4</size><usage>reserved</usage></addressBlock>",
        "<interrupt><name>I</name><value>0</value></interrupt><interrupt><name>J</name><description>x</description><value>9</value></interrupt>",
    ] {
        v.push(d(base, &per("P", 0, t, &reg("A", 0).x())));
        v.push(d(base, &(p0.clone() + &per_from("Q", "P", 0x100, t))));
    }
    for t in ["<displayName>x</displayName>", "<description>x</description>", "<alternateGroup>g</alternateGroup>", "<alternateRegister>B</alternateRegister>"] {
        v.push(d(base, &per("P", 0, "", &(reg("A", 0).props(t).x() + &reg("B", 4).x()))));
    }
    for t in [
        "<dataType>uint8_t</dataType>", "<dataType>int64_t *</dataType>", "<modifiedWriteValues>oneToClear</modifiedWriteValues>", "<modifiedWriteValues>zeroToToggle</modifiedWriteValues>", "<modifiedWriteValues>modify</modifiedWriteValues>",
        "<writeConstraint><writeAsRead>true</writeAsRead></writeConstraint>", "<writeConstraint><useEnumeratedValues>false</useEnumeratedValues></writeConstraint>",
        "<writeConstraint><range><minimum>1</minimum><maximum>3</maximum></range></writeConstraint>", "<readAction>clear</readAction>", "<readAction>set</readAction>", "<readAction>modifyExternal</readAction>",
    ] {
        v.push(d(base, &per("P", 0, "", &reg("A", 0).props(t).x())));
        if !t.starts_with("<dataType") {
            v.push(d(base, &per("P", 0, "", &reg("A", 0).fields(&fld("F", 4, 2, t)).x())));
        }
    }
    for f in [
        "<field><name>F</name><bitRange>[5:3]</bitRange></field>".to_string(), "<field><name>F</name><lsb>3</lsb><msb>5</msb></field>".into(), fldd("", "F", None, 3, 3, ""),
        fld("F", 0, 2, &evs("", "", &[("A", 0), ("B", 1)])), fld("F", 0, 2, &(evs("R", "read", &[("A", 0)]) + &evs("W", "write", &[("B", 1)]))),
        fld("F", 0, 2, &evs("N", "read-write", &[("A", 0)])) + &fld("G", 2, 2, "<enumeratedValues derivedFrom=\"N\"></enumeratedValues>"),
        fld("F", 0, 2, "<enumeratedValues><enumeratedValue><name>A</name><value>1</value></enumeratedValue><enumeratedValue><name>B</name><isDefault>true</isDefault></enumeratedValue></enumeratedValues>"),
        fld("F", 0, 2, "<enumeratedValues><enumeratedValue><name>A</name><value>1</value><isDefault>false</isDefault></enumeratedValue></enumeratedValues>"),
        fld("F", 0, 2, "") + "<field derivedFrom=\"F\"><name>G</name><bitOffset>4</bitOffset><bitWidth>2</bitWidth></field>",
        String::new(),
    ] {
        v.push(d(base, &per("P", 0, "", &reg("A", 0).fields(&f).x())));
    }
    for (n, idx) in [("%s", Some("A,B")), ("[%s]", Some("0-1")), ("%s", None), ("[%s]", None)] {
        for extra in ["", "<dimName>t</dimName>", "<dimArrayIndex><headerEnumName>E</headerEnumName><enumeratedValue><name>Z</name><value>0</value></enumeratedValue></dimArrayIndex>"] {
            let dm = dim(2, 8, idx) + extra;
            v.push(d(base, &per("P", 0, "", &reg(&format!("A{n}"), 0).dim(dm.clone()).x())));
            v.push(d(base, &per("P", 0, "", &clu(&dm, &format!("C{n}"), 0, &reg("A", 0).x()))));
            v.push(d(base, &per("P", 0, "", &reg("A", 0).fields(&fldd(&dm, &format!("F{n}"), None, 0, 1, "")).x())));
            v.push(d(base, &per("P", 0, "", &reg("A", 0).x()).replace("<peripheral><name>P", &format!("<peripheral>{dm}<name>P{n}"))));
        }
    }
    let r = reg("A", 0).x();
    for body in [
        clu("", "C", 0x10, &clu("", "E", 4, &r)), r.clone() + &reg("B", 4).from("A").x(), clu("", "C", 0x10, &r) + "<cluster derivedFrom=\"C\"><name>E</name><description>e</description><addressOffset>0x20</addressOffset></cluster>",
        "<cluster><name>C</name><alternateCluster>E</alternateCluster><headerStructName>h</headerStructName><addressOffset>0</addressOffset>".to_string() + &r + "</cluster>", clu("", "C", 0, ""),
    ] {
        v.push(d(base, &per("P", 0, "", &body)));
    }
    v.push(d(base, &(p0.clone() + &per_from("Q", "P", 8, "") + &per_from("R", "Q", 16, "<description>own</description>"))));
    v.push(d(base, &(p0.clone() + &per("T", 0xFFFF_FFFF_0000, "<description>&lt;&amp;&#233;</description>", &reg("A", 0).x()))));
    v.push(d(base, &per("P", 0, "", "")));
    v.push(d("<addressUnitBits>16</addressUnitBits><width>64</width>", &p0));
    v
}

// ------------------------------------------------------------------ C21 frame
fn kids(v: &Value) -> &[Value] {
    for k in ["registers", "children", "fields"] {
        if let Some(a) = v[k].as_array() {
            return a;
        }
    }
    &[]
}
fn inner(v: &Value) -> &Value {
    for k in ["register", "cluster"] {
        if v[k].is_object() {
            return &v[k];
        }
    }
    v
}
fn own(v: &Value) -> Value {
    let mut o = v.clone();
    if let Some(m) = o.as_object_mut() {
        for k in ["registers", "children", "fields"] {
            m.remove(k);
        }
    }
    o
}
/// elements outside the path are equal; those at its end are free
fn outside_equal(before: &[Value], after: &[Value], path: &[&str]) -> Result<(), String> {
    if before.len() != after.len() {
        return Err(format!("{} elements became {}", before.len(), after.len()));
    }
    for (b, a) in before.iter().zip(after) {
        let (bi, ai) = (inner(b), inner(a));
        if bi["name"] != ai["name"] {
            return Err(format!("{} is now {}", bi["name"], ai["name"]));
        }
        let n = bi["name"].as_str().unwrap_or("");
        // a path component may name a register or (behind `_clusters`) a cluster
        if !glob::matches(glob::opt(path[0]).0, n).unwrap_or(false) {
            if b != a {
                return Err(format!("{n} changed\n before {b}\n after  {a}"));
            }
        } else if path.len() > 1 {
            if own(bi) != own(ai) {
                return Err(format!("attributes of {n} changed"));
            }
            outside_equal(kids(bi), kids(ai), &path[1..])?;
        }
    }
    Ok(())
}
pub fn h_frame(c: &Case) -> Outcome {
    let svd = svd_text(c.input["svd"].as_str().unwrap());
    let text = c.input["doc"].as_str().unwrap();
    let doc = load(text).expect("yaml");
    let mut o = Outcome { transitions: 1, ..Default::default() };
    let out = match real_patch(&svd, &doc, &Default::default()) {
        Err(e) if c.input["expect"] == "ok" => return Outcome::fail(format!("rejected: {e}\n{text}")),
        Err(_) => {
            o.class = "rejected".into();
            return o;
        }
        Ok(o) => o,
    };
    let b = parse_lax(&svd).unwrap();
    // an empty list of fields or registers is not written
    let b = parse_lax(&encode(&b).unwrap()).unwrap();
    let Ok(a) = parse_lax(&out) else {
        // the rule asked for something that is not SVD, such as an empty name
        o.class = "unreadable".into();
        return o;
    };
    if (&b.schema_version, &b.xmlns_xs, &b.no_namespace_schema_location) != (&a.schema_version, &a.xmlns_xs, &a.no_namespace_schema_location) {
        return Outcome::fail(format!("{text}\nthe schema changed"));
    }
    let j = |d: &Device| serde_json::to_value(d).unwrap();
    let (b, a) = (j(&b), j(&a));
    o.nontrivial = a != b;
    o.class = if a == b { "unchanged" } else { "changed" }.into();
    o.states.push(fnv(out.as_bytes()));
    let dev = |v: &Value| {
        let mut v = v.clone();
        v.as_object_mut().unwrap().remove("peripherals");
        v
    };
    let ps = |v: &Value| v["peripherals"].as_array().unwrap().clone();
    let r = (|| {
        if c.input["device"] != true && dev(&a) != dev(&b) {
            return Err("attributes of the device changed".into());
        }
        if let Some(p) = c.input["path"].as_array() {
            let p: Vec<&str> = p.iter().map(|s| s.as_str().unwrap()).collect();
            return if p.is_empty() {
                if a == b { Ok(()) } else { Err("changed".to_string()) }
            } else {
                outside_equal(&ps(&b), &ps(&a), &p)
            };
        }
        if let Some(b0) = c.input["within"].as_array() {
            // the children of one block, in order, but for those named free
            let find = |v: &Value| -> Option<Value> {
                let mut v = ps(v).into_iter().find(|x| x["name"] == b0[0])?;
                for n in &b0[1..] {
                    v = kids(inner(&v)).iter().find(|x| inner(x)["name"] == *n)?.clone();
                }
                Some(v)
            };
            let (Some(x), Some(y)) = (find(&b), find(&a)) else { return Err("the block is gone".into()) };
            if own(inner(&x)) != own(inner(&y)) {
                return Err("attributes of the block changed".into());
            }
            let free: Vec<&str> = c.input["free"].as_array().unwrap().iter().filter_map(|s| s.as_str()).collect();
            let rest = |v: &Value| kids(inner(v)).iter().filter(|p| !free.iter().any(|f| glob::matches(f, inner(p)["name"].as_str().unwrap()).unwrap_or(false))).cloned().collect::<Vec<_>>();
            let (rb, ra) = (rest(&x), rest(&y));
            if rb != ra {
                return Err(format!("children of {b0:?} other than {free:?} changed\n before {}\n after  {}", json!(rb), json!(ra)));
            }
            // and everything outside
            let path: Vec<&str> = b0.iter().map(|s| s.as_str().unwrap()).collect();
            return outside_equal(&ps(&b), &ps(&a), &path);
        }
        let free: Vec<&str> = c.input["free"].as_array().into_iter().flatten().filter_map(|s| s.as_str()).collect();
        let rest = |v: &Value| ps(v).into_iter().filter(|p| !free.contains(&p["name"].as_str().unwrap())).collect::<Vec<_>>();
        let (rb, ra) = (rest(&b), rest(&a));
        if let Some(m) = c.input["moves"].as_array() {
            let order = |v: &Value| ps(v).iter().map(|p| p["name"].clone()).filter(|n| !m.contains(n)).collect::<Vec<_>>();
            if order(&b) != order(&a) {
                return Err(format!("the order of the peripherals changed: {:?} {:?}", order(&b), order(&a)));
            }
        }
        if rb != ra {
            return Err(format!("peripherals outside {free:?} changed\n before {}\n after  {}", json!(rb), json!(ra)));
        }
        Ok(())
    })();
    match r {
        Ok(()) => o,
        Err(e) => Outcome::fail(format!("{text}\n{e}\n{}", first_diff(&encode(&parse_lax(&svd).unwrap()).unwrap_or_default(), &out))),
    }
}
pub fn frame(ctx: &Ctx) {
    let mut cases = vec![];
    let mut put = |svd: &str, doc: String, path: &[&str]| cases.push(Case::new("frame", json!({"svd": svd, "doc": doc, "path": path})));
    // patches that select nothing
    for s in micro().iter().map(|s| s.as_str()).chain(["@dev", "@nest", "@chain", "@full", "@wide"]) {
        for d in ["{}", "{_svd: x.svd}", "{'?~NOPE': {_delete: X}}", "{_delete: '?~NOPE'}", "{_modify: {}}", "{_add: {}}", "{_delete: []}", "{'?~NOPE*': {'*': {'*': [0, 1]}}}", "{_copy: {}}", "{_derive: {}}", "{_rebase: {}}"] {
            put(s, d.into(), &[]);
        }
    }
    let body_p = [
        "{_delete: CR}", "{_delete: [CR, DR]}", "{_delete: '*'}", "{_delete: {_clusters: '*'}}", "{_delete: {_interrupts: '*'}}", "{_strip: C}", "{_strip: ['C', 'D']}", "{_strip_end: R}", "{_prefix: X_}", "{_suffix: _X}",
        "{_modify: {'*': {description: new}}}", "{_modify: {_registers: {'*R': {size: 8}}}}", "{_modify: {_interrupts: {'*': {description: new}}}}", "{_modify: {_clusters: {'*': {description: new}}}}", "{_add: {NEW: {addressOffset: 0x300}}}", "{_add: {_interrupts: {N: {value: 99}}}}",
        "{_derive: {CR: DR}}", "{_derive: {NEW: {_from: CR, addressOffset: 0x300}}}", "{_copy: {NEW: {from: CR, addressOffset: 0x300}}}", "{_clear_fields: '*'}", "{_clear: '*'}", "{'*': {'*': [0, 1]}}", "{'*': {_delete: '*'}}", "{'*': {_modify: {'*': {description: new}}}}",
        "{_array: {'*R': {}}}", "{_expand_array: {'*': {}}}", "{_expand_cluster: '*'}", "{'*': {_merge: '*'}}", "{'*': {_split: '*'}}", "{_cluster: {'X%s': {'?R': {name: R}}}}",
    ];
    let sets: [(&str, &[&str]); 5] = [
        ("@wide", &["UART1", "UART12", "UART3", "UART1?", "UART*", "GPIOA", "GPIO[C-F]", "UART1,GPIOA", "*", "?~UART13"]),
        ("@dev", &["ADC1", "ADC*", "TIM1", "TIM*", "ADC1,TIM1", "ADC2", "?~NOPE", "*2", "NOPE", "*", "[!A]*", "{ADC1,TIM2}"]),
        ("@nest", &["ADC1", "*", "?~X", "A*"]),
        ("@chain", &["*1", "A", "P*", "*2", "*", "B", "C"]),
        ("@full", &["UART", "SPI", "TIM%s", "?~UART", "*"]),
    ];
    for (svd, specs) in sets {
        for p in specs {
            for b in body_p {
                put(svd, at(&[p], b), &[p]);
            }
        }
    }
    let body_r = [
        "{_delete: EN}", "{_delete: '*'}", "{_modify: {'*': {description: new}}}", "{_add: {NEW: {bitOffset: 30, bitWidth: 1}}}", "{'*': [0, 1]}", "{'*': {A: [0, a], B: [1, b]}}", "{'*': {_read: {A: [0, a]}}}", "{_merge: {NEW: '*'}}", "{_merge: ['*']}", "{_split: '*'}", "{'*': {_W1C: {A: [0, x]}}}",
        "{_array: {'*': {}}}", "{_derive: {EN: MODE}}", "{_strip: E}", "{_strip_end: N}", "{'*': {_write_constraint: enum}}", "{_prefix: P_}", "{_clear: '*'}", "{'EN': [0, 1], 'MODE': {A: [0, x]}}", "{'*': {_derivedFrom: MODE}}", "{'*': {_RC: }}", "{_include: []}",
    ];
    for (svd, ps, rs) in [
        ("@dev", &["ADC1", "*1", "TIM*"][..], &["CR", "SR", "C*", "CR,SR", "?~NOPE", "*", "CNT", "[!C]R", "{CR,DR}"][..]),
        ("@nest", &["ADC1", "*"], &["CR%s", "CR*", "*"]),
        ("@full", &["UART", "?~SPI"], &["CR", "CR2", "DATA%s", "*", "C*"]),
    ] {
        for p in ps {
            for r in rs {
                for b in body_r {
                    put(svd, at(&[p, r], b), &[p, r]);
                }
            }
        }
    }
    for (svd, p, cl) in [("@dev", "ADC1", "CAL"), ("@nest", "ADC1", "CAL*"), ("@nest", "*", "*"), ("@full", "UART", "CH*"), ("@full", "UART", "ALT"), ("@full", "UART", "*")] {
        for b in body_p {
            put(svd, at(&[p, cl], b), &[p, cl]);
            put(svd, at(&[p, "_clusters", cl], b), &[p, cl]);
        }
        for r in ["CR", "*", "ST", "V*"] {
            for b in body_r {
                put(svd, at(&[p, cl, r], b), &[p, cl, r]);
                put(svd, at(&[p, "_clusters", cl, r], b), &[p, cl, r]);
            }
        }
        for b in body_p {
            put(svd, at(&[p, cl, "SUB"], b), &[p, cl, "SUB"]);
        }
    }
    let body_f = ["[0, 1]", "{A: [0, a]}", "{A: [0, a], _usage: read}", "{_read: {A: [0, a]}, _write: {A: [1, b]}}", "{_replace_enum: {A: [0, a]}}", "{_write_constraint: [0, 1]}", "{_W1S: {A: [0, a]}}", "{_name: X, A: [0, a]}", "{_RM: {A: [1, x]}}", "{_derivedFrom: MODE}", "{_derivedFrom: CR.EN}"];
    for (svd, p, r, fs) in [
        ("@dev", "ADC1", "CR", &["EN", "MODE", "E*", "EN,MODE", "?~X", "*", "[!M]*", "{EN,MODE}"][..]),
        ("@dev", "*", "*", &["EN", "*E*", "RDY"]),
        ("@full", "UART", "CR", &["MODE", "LSB", "OFS", "CH%s", "OFS*", "*", "USE"]),
        ("@nest", "ADC1", "CR%s", &["EN", "*"]),
    ] {
        for f in fs {
            for b in body_f {
                put(svd, at(&[p, r, f], b), &[p, r, f]);
            }
            // merging two rules of one register touches only their fields
        }
    }
    // device level rules: the peripherals they may touch
    let mut dl = |svd: &str, doc: &str, free: &[&str], device: bool| {
        cases.push(Case::new("frame", json!({"svd": svd, "doc": doc, "free": free, "device": device})))
    };
    for (doc, free) in [
        ("{_delete: ADC1}", &["ADC1"][..]), ("{_delete: 'TIM*'}", &["TIM1", "TIM2", "TIM%s"]), ("{_delete: [ADC2, TIM2]}", &["ADC2", "TIM2"]), ("{_modify: {ADC1: {description: new, baseAddress: 0x100}}}", &["ADC1"]),
        ("{_modify: {'TIM*': {groupName: g}}}", &["TIM1", "TIM2", "TIM%s"]), ("{_modify: {_peripherals: {ADC2: {version: 9}}}}", &["ADC2"]), ("{_modify: {'ADC1,TIM2': {version: 9}}}", &["ADC1", "TIM2"]), ("{_add: {NEW: {baseAddress: 5}}}", &["NEW"]),
        ("{_copy: {NEW: {from: ADC1}}}", &["NEW"]), ("{_copy: {NEW: {from: ADC2, baseAddress: 7}}}", &["NEW"]), ("{_copy: {TIM1: {from: ADC1}}}", &["TIM1"]), ("{_derive: {TIM1: ADC1}}", &["TIM1"]), ("{_derive: {NEW: {_from: ADC1, baseAddress: 8}}}", &["NEW"]),
        ("{_rebase: {ADC2: ADC1}}", &["ADC1", "ADC2"]), ("{_modify: {name: N}}", &[]), ("{_modify: {cpu: {name: CM7}}}", &[]), ("{_clear_fields: ADC1}", &["ADC1"]), ("{_modify: {size: 8, ADC1: {version: 3}}}", &["ADC1"]),
    ] {
        let device = doc.contains("name: N") || doc.contains("cpu") || doc.contains("size: 8");
        for svd in ["@dev", "@chain", "@full", "@nest"] {
            dl(svd, doc, free, device);
        }
    }
    // devices of five peripherals in every order and rules for one or two of them: the others
    // keep content and order
    let names = ["A", "B", "C", "D", "E"];
    let one = |n: &str, i: usize| {
        // B is derived from A, D from C
        match n {
            "B" => per_from("B", "A", 0x1000 * i as u64, &int("IB", 1, "")),
            "D" => per_from("D", "C", 0x1000 * i as u64, ""),
            n => per(n, 0x1000 * i as u64, &int(&format!("I{n}"), 2, ""), &reg(&format!("R{n}"), 0).x()),
        }
    };
    for (k, order) in perms(&names).into_iter().enumerate() {
        if !ctx.thorough && k % 5 != 0 {
            continue;
        }
        let svd = dev(&order.iter().enumerate().map(|(i, n)| one(n, i)).collect::<String>());
        for x in names.iter().chain(&["N"]) {
            for y in names {
                // those that inherit from x or y may be rewritten as well
                let dep = |z: &str| match z {
                    "A" | "B" => vec!["A", "B"],
                    "C" | "D" => vec!["C", "D"],
                    z => vec![if z == "N" { "N" } else { "E" }],
                };
                let (two, more) = (vec![*x, y], [dep(x), dep(y)].concat());
                for (doc, free) in [
                    (format!("{{_derive: {{{x}: {y}}}}}"), &more), (format!("{{_derive: {{{x}: {{_from: {y}, baseAddress: 0x9000}}}}}}"), &more), (format!("{{_rebase: {{{x}: {y}}}}}"), &more),
                    (format!("{{_copy: {{{x}: {{from: {y}}}}}}}"), &vec![*x]), (format!("{{_delete: [{x}, {y}]}}"), &two), (format!("{{_delete: '{{{x},{y}}}'}}"), &two), (format!("{{_modify: {{{x}: {{baseAddress: 0x1800, version: 2}}}}}}"), &vec![*x]),
                    (format!("{{_modify: {{'{x},{y}': {{description: n}}}}}}"), &two), (format!("{{_modify: {{{x}: {{name: {y}2}}}}}}"), &vec![*x, "A2", "B2", "C2", "D2", "E2", "A", "B", "C", "D"]), (format!("{{_add: {{N: {{baseAddress: 0x1800, derivedFrom: {y}}}}}}}"), &vec!["N"]),
                    (format!("{{'?~{x}': {{_delete: {{_registers: '*'}}}}}}"), &vec![*x]), (format!("{{'?~{x}': {{_prefix: X}}, '{y}': {{_suffix: Y}}}}"), &two), (format!("{{'?~{x}': {{_add: {{_interrupts: {{K: {{value: 9}}}}}}}}}}"), &vec![*x]),
                ] {
                    let mut i = json!({"svd": svd, "doc": doc, "free": free});
                    if !doc.contains("name:") {
                        i["moves"] = json!([x, y, "N"]);
                    }
                    cases.push(Case::new("frame", i));
                }
            }
        }
    }
    // blocks of registers and registers of fields in every order
    for order in perms(&["A", "R0", "R1", "Z", "C"]) {
        let body: String = order.iter().map(|n| match *n {
            "C" => clu(&dim(2, 0x10, None), "C[%s]", 0x100, &reg("IN", 0).x()),
            "R0" => reg("R0", 0x10).desc("r 0").x(),
            "R1" => reg("R1", 0x18).desc("r 1").x(),
            "A" => reg("A", 0x20).dim(dim(2, 4, None)).x().replace("<name>A<", "<name>A[%s]<"),
            n => reg(n, 8).fields(&fld("F", 0, 1, "")).x(),
        }).collect();
        let svd = dev(&(per("P", 0, "", &(body.clone() + &clu("", "K", 0x300, &body))) + &per("Q", 0x1000, "", &body)));
        for path in [&["P"][..], &["P", "K"]] {
            for (rule, free) in [
                ("{_delete: R0}", "R0"), ("{_delete: ['R*', Z]}", "R?,Z"), ("{_delete: {_clusters: 'C*'}}", "C?%s?"), ("{_modify: {R1: {addressOffset: 0x400, name: RX}}}", "R1,RX"), ("{_modify: {Z: {description: n}, R0: {addressOffset: 0}}}", "Z,R0"), ("{_derive: {R0: Z}}", "R0"), ("{_derive: {R1: R0}}", "R1"),
                ("{_derive: {NEW: {_from: Z, addressOffset: 0x50}}}", "NEW"), ("{_copy: {NEW: {_from: R0, addressOffset: 0xc}}}", "NEW"), ("{_copy: {R1: {_from: R0}}}", "R1"), ("{_add: {NEW: {addressOffset: 0x14}}}", "NEW"), ("{_add: {_clusters: {NEW: {addressOffset: 0x14}}}}", "NEW"), ("{_array: {'R?': {name: 'N%s'}}}", "R?,N%s"), ("{_array: {'R[01]': {}}}", "R*"),
                ("{_cluster: {'N%s': {'R?': {name: R}}}}", "R?,N%s"), ("{_cluster: {'N%s': {'?~Y?': {name: R}}}}", "N%s"), ("{_expand_array: {'A*': {}}}", "A*"), ("{_expand_cluster: {'C*': {}}}", "C*"), ("{_expand_cluster: ['C*']}", "C*"), ("{_strip: R}", "R?,0,1"), ("{_strip_end: 1}", "R?,R"), ("{_modify: {_clusters: {'C*': {description: n}}}}", "C*"), ("{Z: {_delete: F}}", "Z"), ("{Z: {_split: {F: {}}}}", "Z"), ("{_modify: {'?~Y': {name: N}}}", ""),
            ] {
                cases.push(Case::new("frame", json!({"svd": svd, "doc": at(path, rule), "within": path, "free": [free]})));
            }
        }
    }
    for order in perms(&["A", "F0", "F1", "Z", "G"]) {
        let body: String = order.iter().map(|n| match *n {
            "F0" => fld("F0", 4, 1, ""),
            "F1" => fld("F1", 5, 1, ""),
            "G" => fldd(&dim(2, 1, None), "G%s", None, 8, 1, ""),
            "A" => fld("A", 0, 2, &evs("", "", &[("V", 0)])),
            n => fld(n, 12, 2, ""),
        }).collect();
        let svd = dev(&(per("P", 0, "", &(reg("R", 0).fields(&body).x() + &reg("S", 4).fields(&body).x() + &clu("", "K", 0x40, &reg("R", 0).fields(&body).x()))) + &per("Q", 0x1000, "", &reg("R", 0).fields(&body).x())));
        for path in [&["P", "R"][..], &["P", "K", "R"], &["Q", "R"]] {
            for (rule, free) in [
                ("{_delete: F0}", "F0"), ("{_delete: [A, 'F?']}", "A,F?"), ("{_modify: {F1: {bitOffset: 20, name: FX}}}", "F1,FX"), ("{_modify: {Z: {description: n}}}", "Z"), ("{_add: {N: {bitOffset: 6, bitWidth: 1}}}", "N"), ("{_merge: {N: [F0, F1]}}", "N,F?"), ("{_merge: ['F*']}", "F*"), ("{_merge: [F]}", "F*"), ("{_split: Z}", "Z*"), ("{_split: {A: {}}}", "A*"),
                ("{_array: {'F?': {}}}", "F*"), ("{_array: {'F[01]': {name: 'N%s'}}}", "F?,N%s"), ("{_derive: {F1: A}}", "F1"), ("{_derive: {N: {_from: A, bitOffset: 20, bitWidth: 2}}}", "N"), ("{_strip: F}", "F?,0,1"), ("{_strip_end: '1'}", "F?,F"), ("{Z: [0, 1]}", "Z"), ("{'F*': {V: [0, d]}}", "F?"), ("{Z: {V: [0, d], W: [1, e]}, F0: [0, 1]}", "Z,F0"), ("{Z: {_derivedFrom: A}}", "Z"), ("{A: {_replace_enum: {W: [1, d]}}}", "A"), ("{_clear: A}", "A"), ("{F0: {_write_constraint: none}}", "F0"), ("{'?~Y': [0, 1]}", ""),
            ] {
                cases.push(Case::new("frame", json!({"svd": svd, "doc": at(path, rule), "within": path, "free": [free]})));
            }
        }
    }
    ctx.note("documents", cases.len());
    ctx.run(cases.into_iter());
}

// ------------------------------------------------------------------ C20 atomicity
/// `expect`: "fail", "ok" or absent (either, but consistently)
pub fn h_atomic(c: &Case) -> Outcome {
    let d = fresh();
    write_tree(&d, &c.input["files"]);
    let args: Vec<&str> = c.input["args"].as_array().unwrap().iter().map(|s| s.as_str().unwrap()).collect();
    let out = c.input["out"].as_str();
    let mut o = Outcome { transitions: 1, ..Default::default() };
    let before = snapshot(&d);
    let dirs = |d: &std::path::Path| std::fs::read_dir(d).unwrap().count();
    let n = dirs(&d);
    let r = match c.input["stdout"].as_str() {
        Some(to) => cli_to(&d, &args, to),
        None => cli(&d, &args),
    };
    let mut after = snapshot(&d);
    let what = &c.input;
    if c.input["expect"] == "fail" && r.ok() {
        return Outcome::fail(format!("succeeded but must fail\n{what}"));
    }
    if c.input["expect"] == "ok" && !r.ok() {
        return Outcome::fail(format!("failed: {}\n{what}", r.err));
    }
    if !r.ok() {
        if r.code.is_none() {
            return Outcome::fail(format!("killed by a signal\n{what}"));
        }
        if before != after || n != dirs(&d) {
            let ch: Vec<&String> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|(k, _)| k).chain(before.keys().filter(|k| !after.contains_key(*k))).collect();
            return Outcome::fail(format!("failed but changed {ch:?}\n{what}"));
        }
        if r.err.trim().is_empty() {
            return Outcome::fail(format!("failed without any message\n{what}"));
        }
        if !r.out.is_empty() {
            return Outcome::fail(format!("failed but wrote to standard output: {}\n{what}", r.out));
        }
        o.class = "failed, nothing changed".into();
        o.nontrivial = true;
    } else {
        o.class = "succeeded".into();
        let mut before = before;
        if let Some(f) = out {
            let Some(t) = after.remove(f) else { return Outcome::fail(format!("succeeded but {f} is missing\n{what}")) };
            if let Some(g) = c.input["like"].as_str() {
                if Some(&t) != after.get(g) {
                    return Outcome::fail(format!("{f} differs from {g}\n{what}"));
                }
            }
            if c.input["svd_out"] == true && parse_lax(&String::from_utf8_lossy(&t)).is_err() {
                return Outcome::fail(format!("{f} is not a complete SVD\n{what}"));
            }
            before.remove(f);
            o.states.push(fnv(&t));
        }
        if before != after {
            return Outcome::fail(format!("changed other files than {out:?}\n{what}"));
        }
    }
    o
}
fn obj(v: &[(&str, Value)]) -> Value {
    Value::Object(v.iter().map(|(k, x)| (k.to_string(), x.clone())).collect::<Map<_, _>>())
}
pub fn atomic(ctx: &Ctx) {
    let svd = small_svd();
    let mut cases = vec![];
    // (name, files, expectation); the patch is main.yaml, the device in.svd
    let mut worlds: Vec<(Value, &str, Vec<&str>)> = vec![];
    let mut world = |main: Value, more: &[(&str, Value)], expect: &'static str, extra: &[&'static str]| {
        let mut f = vec![("in.svd", json!(svd)), ("main.yaml", main)];
        for (n, v) in more {
            if let Some(x) = f.iter_mut().find(|x| x.0 == *n) {
                x.1 = v.clone();
            } else {
                f.push((n, v.clone()));
            }
        }
        let f: Vec<(&str, Value)> = f.into_iter().filter(|x| !x.1.is_null()).collect();
        worlds.push((obj(&f), expect, extra.to_vec()));
    };
    let m = |t: &str| json!(format!("_svd: in.svd\n{t}\n"));
    let good = "P: {_delete: B}";
    for t in [good, "", "P: {A: {F: [0, 1]}}", "_copy: {T: {from: 'in.svd:P'}}"] {
        world(m(t), &[], "ok", &[]);
    }
    // the patch file itself
    for t in [json!(null), json!(""), json!("[1]"), json!("text"), json!("{: bad"), json!("P: [\n"), json!({"dir": true}), json!({"bytes": [255, 254, 0]}), json!("P: {}\n"), json!("_svd: 5\n"), json!("_svd: [in.svd]\n"), json!("_svd: nope.svd\n"), json!("_svd: ''\n"), json!("_svd: sub\n"), json!({"link": "nowhere.yaml"})] {
        world(t, &[("sub/x", json!("x"))], "fail", &[]);
    }
    // the device file
    for t in ["", "text", "<device/>", "<device><name>D</name></device>", "<a><b></a>", "<device><name>D</name><version>1</version><description>d</description><addressUnitBits>8</addressUnitBits><width>32</width><peripherals><peripheral><name>P</name></peripheral></peripherals></device>"] {
        world(m(good), &[("in.svd", json!(t))], "fail", &[]);
    }
    world(m(good), &[("in.svd", json!({"bytes": [255, 254, 0]}))], "fail", &[]);
    world(m(good), &[("in.svd", json!(null))], "fail", &[]);
    world(m(good), &[("in.svd", json!({"dir": true}))], "fail", &[]);
    let cut: String = svd.chars().take(svd.len() / 2).collect();
    world(m(good), &[("in.svd", json!(cut))], "fail", &[]);
    // included files
    for (t, e) in [("K: [", "fail"), ("[1]", "fail"), ("_include: nope.yaml", "fail"), ("_include: main.yaml", "fail"), ("P: {_delete: NOPE*, X: {}}", "fail"), ("P: {_add: {N: {addressOffset: 0x10}}}", "ok")] {
        world(m("_include: a.yaml"), &[("a.yaml", json!(t))], e, &[]);
    }
    world(m("_include: a.yaml"), &[], "fail", &[]);
    world(m("P: {_include: a.yaml}"), &[], "fail", &[]);
    // rules that cannot be applied, after others that can
    let bad = [
        "NOPE: {}", "P: {NOPE: {}}", "P: {A: {NOPE: {V: [0, x]}}}", "P: {A: {F: {V: 5}}}", "P: {_add: {A: {addressOffset: 0}}}", "_add: {P: {baseAddress: 0}}", "_copy: {T: {from: NOPE}}", "_copy: {T: {from: 'nope.svd:P'}}", "_copy: {T: {}}", "_derive: {P: NOPE}",
        "_rebase: {Q: NOPE}", "_modify: {'X%s': 5}", "P: {_modify: {A: {size: big}}}", "P: {A: {_merge: [X, Y]}}", "P: {A: {_split: X}}", "P: {_array: {'X%s': {}}}", "P: {_cluster: {'C%s': {'X?': {name: R}}}}", "P: {_expand_cluster: X}", "P: {_delete: {_registers: 5}}", "P: 5", "5: {}", "P: {_strip: 5}", "P: {A: 5}", "P: {A: {G: {Y: [1, y]}}}",
        "_modify: {cpu: {endian: odd}}",
    ];
    for b in bad {
        world(m(b), &[], "fail", &[]);
        world(m(&format!("_modify: {{name: N, Q: {{version: 4}}}}\n{b}")), &[], "fail", &[]);
    }
    // options
    for (n, t, e) in [
        ("c.yaml", "peripheral_name: Snake", "ok"), ("c.json", "{\"peripheral_name\": \"Snake\"}", "ok"), ("c.toml", "peripheral_name = 'Snake'", "fail"), ("c", "peripheral_name: Snake", "fail"), ("c.yaml", "peripheral_name: Odd", "fail"), ("c.yaml", "[1]", "fail"), ("c.json", "peripheral_name: Snake", "fail"), ("c.yaml", "a: [1]", "fail"), ("c.json", "", "fail"),
    ] {
        world(m(good), &[(n, json!(t))], e, if n == "c" { &["--format-config", "c"] } else if n == "c.yaml" { &["--format-config", "c.yaml"] } else if n == "c.json" { &["--format-config", "c.json"] } else { &["--format-config", "c.toml"] });
    }
    world(m(good), &[], "fail", &["--format-config", "nope.yaml"]);
    world(m(good), &[], "ok", &["--post-validate"]);
    for b in ["P: {_modify: {A: {name: 'bad name'}}}", "P: {_modify: {A: {size: 8, resetValue: 0x1FF}}}", "Q: {_delete: '*'}", "P: {A: {_delete: '*'}}", "P: {C: {_add: {Z: {bitOffset: 0, bitWidth: 0}}}}"] {
        world(m(b), &[], "fail", &["--post-validate"]);
    }
    world(m("NOPE: {}"), &[], "fail", &["--show-patch-on-error"]);
    for e in ["none", "field", "enum"] {
        world(m(good), &[], "ok", match e { "none" => &["--enum-derive", "none"], "field" => &["--enum-derive", "field"], _ => &["--enum-derive", "enum"] });
    }
    world(m(good), &[], "fail", &["--enum-derive", "odd"]);
    world(m(good), &[], "fail", &["--no-such-option"]);
    for (f, expect, extra) in &worlds {
        // output: named, default, in another directory, onto the input, into nowhere
        for old in [None, Some("old content")] {
            for (o, dst) in [(Some("out.svd"), "out.svd"), (None, "in.svd.patched"), (Some("o/out.svd"), "o/out.svd")] {
                let mut f = f.clone();
                if dst.starts_with("o/") {
                    f["o/keep"] = json!("k");
                }
                if let Some(t) = old {
                    f[dst] = json!(t);
                }
                let mut a = vec!["patch", "main.yaml"];
                a.extend(o);
                a.extend(extra.iter());
                cases.push(json!({"files": f, "args": a, "out": dst, "expect": expect, "svd_out": true}));
            }
        }
        let mut a = vec!["patch", "main.yaml", "in.svd"];
        a.extend(extra.iter());
        cases.push(json!({"files": f, "args": a, "out": "in.svd", "expect": expect, "svd_out": true}));
        for dst in ["nodir/out.svd", "dir", "/dev/full"] {
            let mut f = f.clone();
            f["dir"] = json!({"dir": true});
            let mut a = vec!["patch", "main.yaml", dst];
            a.extend(extra.iter());
            cases.push(json!({"files": f, "args": a, "expect": "fail"}));
        }
        if extra.is_empty() {
            for old in [None, Some("old content")] {
                let mut g = f.clone();
                if let Some(t) = old {
                    g["x.out"] = json!(t);
                }
                cases.push(json!({"files": g, "args": ["expand-patch", "main.yaml", "x.out"], "out": "x.out"}));
                cases.push(json!({"files": g, "args": ["makedeps", "main.yaml", "x.out"], "out": "x.out"}));
            }
            for dst in ["nodir/x", "dir", "/dev/full"] {
                let mut f = f.clone();
                f["dir"] = json!({"dir": true});
                for cmd in ["expand-patch", "makedeps"] {
                    cases.push(json!({"files": f, "args": [cmd, "main.yaml", dst], "expect": "fail"}));
                }
            }
            cases.push(json!({"files": f, "args": ["expand-patch", "main.yaml"]}));
            cases.push(json!({"files": f, "args": ["expand-patch", "main.yaml"], "stdout": "/dev/full", "expect": "fail"}));
        }
    }
    // conversion, listings
    let mut ins: Vec<(&str, Value, bool)> = vec![("in.svd", json!(svd), true)];
    let dev = parse_lax(&svd).unwrap();
    ins.push(("in.json", json!(serde_json::to_string(&dev).unwrap()), true));
    ins.push(("in.yaml", json!(serde_yaml::to_string(&dev).unwrap()), true));
    for n in ["in.svd", "in.xml", "in.json", "in.yaml", "in.txt", "in"] {
        for t in [json!(null), json!(""), json!("text"), json!("{"), json!("[1]"), json!("<device/>"), json!({"dir": true}), json!({"bytes": [255, 0]}), json!("{\"name\": \"D\"}"), json!("<device>")] {
            ins.push((n, t, false));
        }
    }
    for (n, t, good) in &ins {
        let f = if t.is_null() { json!({}) } else { obj(&[(n, t.clone())]) };
        for old in [None, Some("old content")] {
            for dst in ["out.svd", "out.json", "out.yml", "out.odd", "out"] {
                let mut f = f.clone();
                if let Some(t) = old {
                    f[dst] = json!(t);
                }
                let ok = *good && !matches!(dst, "out.odd" | "out");
                let e = if ok { "ok" } else { "fail" };
                cases.push(json!({"files": f, "args": ["convert", n, dst], "out": dst, "expect": e}));
                if old.is_some() {
                    cases.push(json!({"files": f, "args": ["convert", n, dst, "--output-format", "odd"], "out": dst, "expect": "fail"}));
                    cases.push(json!({"files": f, "args": ["convert", n, dst, "--input-format", "odd"], "out": dst, "expect": "fail"}));
                    cases.push(json!({"files": f, "args": ["convert", n, dst, "--output-format", "json"], "out": dst, "expect": if *good { "ok" } else { "fail" }}));
                    cases.push(json!({"files": f, "args": ["convert", n, dst, "--format-config", "nope.yaml"], "out": dst, "expect": "fail"}));
                    cases.push(json!({"files": f, "args": ["convert", n, dst, "--expand"], "out": dst, "expect": e}));
                }
            }
        }
        cases.push(json!({"files": f, "args": ["convert", n, n], "out": n, "expect": if *good { "ok" } else { "fail" }}));
        for dst in ["nodir/o.svd", "/dev/full"] {
            cases.push(json!({"files": f, "args": ["convert", n, dst, "--output-format", "svd"], "expect": "fail"}));
        }
        cases.push(json!({"files": f, "args": ["info", n, "device-name"], "expect": if *good { "ok" } else { "fail" }}));
        cases.push(json!({"files": f, "args": ["info", n, "odd"], "expect": "fail"}));
        for cmd in ["mmap", "interrupts"] {
            let g = *good && *n == "in.svd";
            cases.push(json!({"files": f, "args": [cmd, n], "expect": if g { "ok" } else { "fail" }}));
            if g {
                cases.push(json!({"files": f, "args": [cmd, n], "stdout": "/dev/full", "expect": "fail"}));
            }
        }
    }
    // a device that cannot be expanded
    let orphan = dev_with_orphan();
    for old in [None, Some("old content")] {
        let mut f = json!({"in.svd": orphan});
        if let Some(t) = old {
            f["out.svd"] = json!(t);
        }
        cases.push(json!({"files": f, "args": ["convert", "in.svd", "out.svd", "--expand"], "out": "out.svd", "expect": "fail"}));
        cases.push(json!({"files": f, "args": ["convert", "in.svd", "out.svd"], "out": "out.svd", "expect": "ok"}));
    }
    for a in [&[][..], &["patch"], &["odd"], &["convert", "in.svd"], &["makedeps", "main.yaml"], &["mmap"], &["info", "in.svd"]] {
        cases.push(json!({"files": {"in.svd": svd, "main.yaml": m(good)}, "args": a, "expect": "fail"}));
    }
    ctx.note("situations", cases.len());
    ctx.run(cases.into_iter().map(|c| Case::new("atomic", c)));
}
fn dev_with_orphan() -> String {
    crate::svd::dev(&(per("P", 0, "", &reg("A", 0).x()) + &per_from("Q", "NOPE", 8, "")))
}

// ------------------------------------------------------------------ C23 conversion
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fmt {
    Xml,
    Json,
    Yaml,
}
fn fmt_of(name: &str) -> Option<Fmt> {
    Some(match name {
        "svd" | "SVD" | "xml" | "XML" => Fmt::Xml,
        "yml" | "yaml" | "YAML" => Fmt::Yaml,
        "json" | "JSON" => Fmt::Json,
        _ => return None,
    })
}
fn ext(path: &str) -> Option<&str> {
    let n = path.rsplit('/').next()?;
    n.rsplit_once('.').filter(|(s, _)| !s.is_empty()).map(|(_, e)| e)
}
fn read(text: &str, f: Fmt, ignore_enums: bool) -> Result<Device, String> {
    match f {
        Fmt::Xml => svd_parser::parse_with_config(text, &svd_parser::Config::default().ignore_enums(ignore_enums)).map_err(|e| e.to_string()),
        Fmt::Json => serde_json::from_str(text).map_err(|e| e.to_string()),
        Fmt::Yaml => serde_yaml::from_str(text).map_err(|e| e.to_string()),
    }
}
fn write(d: &Device, f: Fmt) -> String {
    match f {
        Fmt::Xml => encode(d).unwrap(),
        Fmt::Json => serde_json::to_string(d).unwrap(),
        Fmt::Yaml => serde_yaml::to_string(d).unwrap(),
    }
}
/// only XML carries the schema attributes of the root element
fn no_schema(mut d: Device) -> Device {
    let e = Device::builder().name("x".into()).peripherals(vec![]).build(ValidateLevel::Disabled).unwrap();
    d.schema_version = e.schema_version;
    d.xmlns_xs = e.xmlns_xs;
    d.no_namespace_schema_location = e.no_namespace_schema_location;
    d
}
/// kind "conv": {svd, src, dst, flags}
pub fn h_conv(c: &Case) -> Outcome {
    let d = fresh();
    let svd = svd_text(c.input["svd"].as_str().unwrap());
    let (src, dst) = (c.input["src"].as_str().unwrap(), c.input["dst"].as_str().unwrap());
    let flags: Vec<&str> = c.input["flags"].as_array().into_iter().flatten().map(|s| s.as_str().unwrap()).collect();
    let opt = |n: &str| flags.iter().position(|f| *f == n).map(|i| flags[i + 1]);
    let has = |n: &str| flags.contains(&n);
    let dev = parse_lax(&svd).expect("alphabet");
    let content = c.input["as"].as_str().and_then(fmt_of).unwrap();
    let text = if content == Fmt::Xml { svd.clone() } else { write(&dev, content) };
    if src != dst && fnv(c.input.to_string().as_bytes()) % 2 == 0 {
        // what was there before must not shine through
        let _ = std::fs::write(d.join(dst), "left over ".repeat(20_000));
    }
    std::fs::write(d.join(src), &text).unwrap();
    // what must come out
    let want = oracle(&c.input, || -> Result<(Device, Fmt), String> {
        let fi = match opt("--input-format") {
            Some(n) => fmt_of(n),
            None => ext(src).and_then(fmt_of),
        }
        .ok_or("unknown input format")?;
        let fo = match opt("--output-format") {
            Some(n) => fmt_of(n),
            None => ext(dst).and_then(fmt_of),
        }
        .ok_or("unknown output format")?;
        if fi != content {
            // JSON is YAML, nothing else can be read as something else
            if !(fi == Fmt::Yaml && content == Fmt::Json) {
                return Err("not that format".into());
            }
        }
        // the device itself, not what the reader of this format makes of it
        let mut d = if has("--ignore-enums") && fi == Fmt::Xml { read(&text, fi, true)? } else { read(&svd, Fmt::Xml, false)? };
        if fi != Fmt::Xml {
            d = no_schema(d);
        }
        if has("--expand-properties") {
            svd_parser::expand_properties(&mut d);
        }
        if has("--expand") {
            d = svd_parser::expand(&d).map_err(|e| e.to_string())?;
        }
        Ok((d, fo))
    });
    let mut a = vec!["convert", src, dst];
    a.extend(&flags);
    let r = cli(&d, &a);
    let mut o = Outcome { transitions: 1, ..Default::default() };
    match (want, r.ok()) {
        (Err(_), false) => o.class = "rejected".into(),
        (Err(e), true) => return Outcome::fail(format!("accepted ({e})\n{}", c.input)),
        (Ok(_), false) => return Outcome::fail(format!("rejected: {}\n{}", r.err, c.input)),
        (Ok((w, f)), true) => {
            let t = std::fs::read_to_string(d.join(dst)).unwrap_or_default();
            let same = match f {
                Fmt::Xml => parse_lax(&t).map(|g| canonical(g) == canonical(parse_lax(&encode(&w).unwrap()).unwrap())),
                // the notation, not its reader, is what conversion determines
                Fmt::Json => serde_json::from_str::<Value>(&t).map_err(|e| e.to_string()).map(|v| v == serde_json::to_value(&w).unwrap()),
                Fmt::Yaml => serde_yaml::from_str::<serde_yaml::Value>(&t).map_err(|e| e.to_string()).map(|v| v == serde_yaml::to_value(&w).unwrap()),
            };
            match same {
                Err(e) => return Outcome::fail(format!("output is not {f:?}: {e}\n{}", c.input)),
                Ok(false) => return Outcome::fail(format!("{}\n{}", c.input, first_diff(&write(&w, Fmt::Xml), &if f == Fmt::Xml { t } else { read(&t, f, false).map(|d| write(&d, Fmt::Xml)).unwrap_or(t) }))),
                Ok(true) => {}
            }
            o.class = format!("{content:?} to {f:?}");
            o.nontrivial = true;
            o.states.push(fnv(t.as_bytes()));
        }
    }
    o
}
/// kind "info": {svd, src, as, flags, request}
pub fn h_info(c: &Case) -> Outcome {
    let d = fresh();
    let svd = c.input["svd"].as_str().unwrap();
    let dev = parse_lax(svd).expect("alphabet");
    let f = fmt_of(c.input["as"].as_str().unwrap()).unwrap();
    let src = c.input["src"].as_str().unwrap();
    std::fs::write(d.join(src), if f == Fmt::Xml { svd.to_string() } else { write(&dev, f) }).unwrap();
    let given = c.input["format"].as_str();
    let fi = match given {
        Some(n) => fmt_of(n),
        None => ext(src).and_then(fmt_of),
    };
    let ok = (fi == Some(f) || (fi == Some(Fmt::Yaml) && f == Fmt::Json)) && c.input["request"] == "device-name";
    let mut a = vec!["info", src, c.input["request"].as_str().unwrap()];
    if let Some(g) = given {
        a.extend(["--input-format", g]);
    }
    let r = cli(&d, &a);
    if r.ok() != ok {
        return Outcome::fail(format!("exit {:?}: {}\n{}", r.code, r.err, c.input));
    }
    if ok && r.out.trim_end_matches('\n') != dev.name {
        return Outcome::fail(format!("name {:?} printed as {:?}", dev.name, r.out));
    }
    Outcome { transitions: 1, class: if ok { "name" } else { "rejected" }.into(), nontrivial: ok, states: vec![fnv(r.out.as_bytes())], ..Default::default() }
}
/// the document with a dimIndex in every array: svd-rs cannot read the others
/// back from JSON and YAML, which the four documents of `bare` show
fn indexed(svd: &str) -> String {
    let mut out = String::new();
    let mut rest = svd;
    let mut n = 0;
    while let Some(i) = rest.find("<dim") {
        let (head, tail) = rest.split_at(i);
        out += head;
        if let Some(t) = tail.strip_prefix("<dim>") {
            n = t[..t.find('<').unwrap()].trim().parse::<u32>().unwrap();
        }
        if tail.starts_with("<dimIncrement>") {
            let e = tail.find("</dimIncrement>").unwrap() + 15;
            out += &tail[..e];
            rest = &tail[e..];
            if !rest.trim_start().starts_with("<dimIndex>") {
                out += &format!("<dimIndex>{}</dimIndex>", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(","));
            }
        } else {
            out += "<dim";
            rest = &tail[4..];
        }
    }
    out + rest
}
pub fn convert(ctx: &Ctx) {
    let mut cases = vec![];
    let mut put = |svd: &str, a: &str, src: &str, dst: &str, flags: &[&str]| {
        let svd = if a == "svd" { svd.to_string() } else { indexed(&svd_text(svd)) };
        cases.push(Case::new("conv", json!({"svd": svd, "as": a, "src": src, "dst": dst, "flags": flags})))
    };
    let flagsets: Vec<Vec<&str>> = (0..8)
        .map(|m| ["--expand", "--expand-properties", "--ignore-enums"].iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, f)| *f).collect())
        .collect();
    let small = small_svd();
    // every element in every pair of formats
    let all: Vec<String> = micro().into_iter().chain(["@dev", "@nest", "@chain", "@full", "@wide"].map(String::from)).chain([small.clone()]).collect();
    for s in &all {
        for a in ["svd", "json", "yaml"] {
            for b in ["svd", "json", "yaml"] {
                put(s, a, &format!("i.{a}"), &format!("o.{b}"), &[]);
            }
        }
    }
    // flags
    for s in all.iter().step_by(ctx.tier(3, 1)).map(|s| s.as_str()).chain(["@dev", "@nest", "@chain", "@full"]) {
        for fl in &flagsets[1..] {
            put(s, "svd", "i.svd", "o.svd", fl);
            put(s, "svd", "i.xml", "o.json", fl);
        }
    }
    for s in ["@dev", "@chain", small.as_str()] {
        for fl in &flagsets {
            for a in ["svd", "json", "yaml"] {
                for b in ["svd", "json", "yaml"] {
                    put(s, a, &format!("i.{a}"), &format!("o.{b}"), fl);
                }
            }
        }
    }
    // names of formats
    let exts = [".svd", ".SVD", ".xml", ".XML", ".yml", ".yaml", ".YAML", ".YML", ".json", ".JSON", ".Json", ".txt", "", ".svd.txt", ".txt.svd", ".json.svd", ".", ".xml.json"];
    let names = ["svd", "SVD", "xml", "XML", "yml", "yaml", "YAML", "YML", "json", "JSON", "Xml", "odd", ""];
    for e in exts {
        for a in ["svd", "json", "yaml"] {
            put(&small, a, &format!("i{e}"), "o.svd", &[]);
            put(&small, a, "i.bin", "o.svd", &["--input-format", a]);
            for n in ["svd", "JSON", "yml", "odd"] {
                put(&small, a, &format!("i{e}"), "o.json", &["--input-format", n]);
            }
        }
        put(&small, "svd", "i.svd", &format!("o{e}"), &[]);
        for n in names {
            put(&small, "svd", "i.svd", &format!("o{e}"), &["--output-format", n]);
        }
    }
    for n in names {
        for a in ["svd", "json", "yaml"] {
            put(&small, a, "i.bin", "o.svd", &["--input-format", n]);
        }
    }
    // names of files with dots in odd places
    for n in [".svd", "..svd", "a.b.svd", "svd", ".hidden.json"] {
        put(&small, if n.ends_with("json") { "json" } else { "svd" }, n, "o.yaml", &[]);
        put(&small, "svd", "i.svd", n, &[]);
    }
    let mut infos = vec![];
    for name in ["D", "STM32F4 x", "%s", "é", "a&amp;b", "{}", "D\n"] {
        let s = small.replacen("<name>D</name>", &format!("<name>{name}</name>"), 1);
        for a in ["svd", "json", "yaml"] {
            for (src, f) in [(format!("i.{a}"), None), (format!("i.{}", a.to_uppercase()), None), ("i.bin".into(), None), ("i.bin".into(), Some(a)), ("i.svd".into(), Some(a)), (format!("i.{a}"), Some("odd"))] {
                for r in ["device-name", "device_name", "odd", "Device-Name"] {
                    infos.push(Case::new("info", json!({"svd": s, "as": a, "src": src, "format": f, "request": r})));
                }
            }
        }
    }
    // the name needs nothing of the rest, be it as odd as a derivation from nowhere
    for a in ["svd", "json", "yaml"] {
        let s = dev_with_orphan();
        infos.push(Case::new("info", json!({"svd": s, "as": a, "src": format!("i.{a}"), "format": null, "request": "device-name"})));
        infos.push(Case::new("info", json!({"svd": s.replace("derivedFrom=\"NOPE\"", "derivedFrom=\"Q\""), "as": a, "src": format!("i.{a}"), "format": null, "request": "device-name"})));
    }
    // arrays without dimIndex
    let dm = dim(2, 8, None);
    for s in [
        crate::svd::dev(&per("P", 0, "", &reg("A%s", 0).dim(dm.clone()).x())),
        crate::svd::dev(&per("P", 0, "", &clu(&dm, "C%s", 0, &reg("A", 0).x()))),
        crate::svd::dev(&per("P", 0, "", &reg("A", 0).fields(&fldd(&dm, "F%s", None, 0, 1, "")).x())),
        crate::svd::dev(&per("P", 0, "", &reg("A", 0).x()).replace("<peripheral><name>P", &format!("<peripheral>{dm}<name>P%s"))),
    ] {
        for a in ["json", "yaml"] {
            for b in ["svd", "json", "yaml"] {
                cases.push(Case::new("conv", json!({"svd": s, "as": a, "src": format!("i.{a}"), "dst": format!("o.{b}"), "flags": []})));
            }
        }
    }
    ctx.note("conversions", cases.len());
    ctx.run(cases.into_iter().chain(infos));
}

// ------------------------------------------------------------------ C29 encoder options
/// kind "format": {svd, doc, file, text, cmd}
pub fn h_format(c: &Case) -> Outcome {
    let d = fresh();
    let svd = svd_text(c.input["svd"].as_str().unwrap());
    let (file, text) = (c.input["file"].as_str().unwrap(), c.input["text"].as_str().unwrap());
    std::fs::write(d.join("in.svd"), &svd).unwrap();
    std::fs::write(d.join("m.yaml"), "_svd: in.svd\n_modify: {vendor: V}\n").unwrap();
    std::fs::write(d.join(file), text).unwrap();
    let patch = c.input["cmd"] == "patch";
    let out = c.input["out"].as_str().unwrap_or("out.svd");
    let out: Vec<&str> = out.split(' ').collect();
    let mut args = if patch { vec!["patch", "m.yaml"] } else { vec!["convert", "in.svd"] };
    args.extend(&out);
    args.extend(["--format-config", file]);
    let (r, out) = (cli(&d, &args), out[0]);
    // pairs of the configuration as written by the space itself
    let want = match c.input["pairs"].as_array() {
        None => Err(()),
        Some(ps) => {
            let mut dev = if patch { parse_lax(&svd).unwrap() } else { svd_parser::parse(&svd).unwrap() };
            if patch {
                dev.vendor = Some("V".into());
            }
            let ps = ps.clone();
            std::panic::catch_unwind(move || {
                let mut cfg = svd_encoder::Config::default();
                for p in &ps {
                    cfg.update(p[0].as_str().unwrap(), p[1].as_str().unwrap());
                }
                svd_encoder::encode_with_config(&dev, &cfg).unwrap()
            })
            .map_err(|_| ())
        }
    };
    let mut o = Outcome { transitions: 1, ..Default::default() };
    match (want, r.ok()) {
        (Err(()), false) => {
            if d.join(out).exists() {
                return Outcome::fail(format!("failed but wrote a file\n{}", c.input));
            }
            o.class = "rejected".into()
        }
        (Err(()), true) => return Outcome::fail(format!("accepted\n{}", c.input)),
        (Ok(_), false) => return Outcome::fail(format!("rejected: {}\n{}", r.err, c.input)),
        (Ok(w), true) => {
            let got = std::fs::read_to_string(d.join(out)).unwrap_or_default();
            if got.trim_end() != w.trim_end() {
                return Outcome::fail(format!("{}\n{}", c.input, first_diff(&w, &got)));
            }
            o.class = "formatted".into();
            o.nontrivial = true;
            o.states.push(fnv(got.as_bytes()));
        }
    }
    o
}
pub const NAME_OPTS: [&str; 8] = ["peripheral_name", "interrupt_name", "cluster_name", "register_name", "field_name", "enumerated_values_name", "enumerated_value_name", "dim_array_index_header_enum_name"];
pub const NUM_OPTS: [&str; 11] = [
    "peripheral_base_address", "address_block_offset", "address_block_size", "cluster_address_offset", "register_address_offset", "register_size", "register_reset_value", "register_reset_mask", "enumerated_value_value", "dim_dim", "dim_increment",
];
pub fn format(ctx: &Ctx) {
    let mut pairs: Vec<(&str, &str)> = vec![];
    for n in NAME_OPTS {
        for v in ["Camel", "Pascal", "Snake", "Constant", "snake", ""] {
            pairs.push((n, v));
        }
    }
    for n in NUM_OPTS {
        for v in ["UpperHex", "UpperHex8", "UpperHex16", "LowerHex", "LowerHex8", "LowerHex16", "Dec", "Bin", "Hex", "dec"] {
            pairs.push((n, v));
        }
    }
    for v in ["BitRange", "OffsetWidth", "MsbLsb", "LsbMsb"] {
        pairs.push(("field_bit_range", v));
    }
    for n in ["peripheral_sorting", "register_cluster_sorting", "field_sorting"] {
        for v in ["Offset", "OffsetReversed", "Name", "DerivedLast", "Name,DerivedLast", "RegistersFirst", "ClustersFirst,Name", "ClustersFirst,Offset,DerivedLast", "", "odd"] {
            pairs.push((n, v));
        }
    }
    pairs.push(("no_such_option", "Snake"));
    let yaml = |ps: &[(&str, &str)]| if ps.is_empty() { "{}\n".to_string() } else { ps.iter().map(|(k, v)| format!("{k}: \"{v}\"\n")).collect::<String>() };
    let js = |ps: &[(&str, &str)]| json!(ps.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<Map<_, _>>()).to_string();
    let mut cases = vec![];
    let mut put = |svd: &str, cmd: &str, file: &str, text: String, ps: Option<&[(&str, &str)]>| {
        let ps = ps.map(|ps| ps.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>());
        cases.push(Case::new("format", json!({"svd": svd, "cmd": cmd, "file": file, "text": text, "pairs": ps})))
    };
    for cmd in ["patch", "convert"] {
        for p in &pairs {
            for svd in ["@full", "@dev"] {
                put(svd, cmd, "c.yaml", yaml(&[*p]), Some(&[*p]));
                put(svd, cmd, "c.json", js(&[*p]), Some(&[*p]));
            }
        }
        // pairs of different options
        let good: Vec<(&str, &str)> = pairs.iter().copied().filter(|(_, v)| !["snake", "", "Hex", "dec", "LsbMsb"].contains(v)).collect();
        let step = ctx.tier(3, 1);
        for (i, a) in good.iter().enumerate().step_by(step) {
            for b in good[i + 1..].iter().step_by(step) {
                if a.0 != b.0 {
                    put("@full", cmd, "c.yml", yaml(&[*a, *b]), Some(&[*a, *b]));
                }
            }
        }
        let one = [("register_name", "Snake")];
        let every: Vec<(&str, &str)> = NAME_OPTS.iter().map(|n| (*n, "Constant")).chain(NUM_OPTS.iter().map(|n| (*n, "Dec"))).collect();
        for (f, ok) in [("c.yml", 1), ("c.yaml", 1), ("c.YAML", 1), ("c.json", 2), ("c.JSON", 2), ("c.YML", 0), ("c.Json", 0), ("c.toml", 0), ("c", 0), ("c.txt", 0), ("c.yaml.json", 2), ("c.json.yaml", 1), (".yaml", 0)] {
            for ps in [&one[..], &every[..], &[]] {
                put("@full", cmd, f, yaml(ps), if ok == 1 || (ok == 2 && ps.is_empty()) { Some(ps) } else { None });
                put("@full", cmd, f, js(ps), if ok > 0 { Some(ps) } else { None });
            }
        }
        for bad in ["", "5", "text", "[a]", "{register_name: }", "register_name: 5", "register_name: [Snake]", "{", "register_name: {a: b}", "- a: b"] {
            put("@full", cmd, "c.json", bad.into(), None);
            if !["{register_name: }", "register_name: 5"].contains(&bad) {
                put("@full", cmd, "c.yaml", bad.into(), None);
            }
        }
    }
    // whatever the name of the output is
    let good: Vec<(&str, &str)> = pairs.iter().copied().filter(|(_, v)| !["snake", "", "Hex", "dec", "LsbMsb", "odd"].contains(v) ).collect();
    for (i, p) in good.iter().enumerate() {
        for (k, o) in ["out.xml", "out.XML", "out.SVD", "out.dat --output-format xml", "noext --output-format SVD", "out.json --output-format svd", "out.svd --output-format xml", "out.xml --input-format xml"].iter().enumerate() {
            if ctx.tier((i + k) % 3 == 0, true) {
                cases.push(Case::new("format", json!({"svd": "@full", "cmd": "convert", "file": "c.yaml", "text": yaml(&[*p]), "pairs": [[p.0, p.1]], "out": o})));
            }
        }
        for (k, o) in ["out.xml", "out.json", "noext", "out.yaml --enum-derive none"].iter().enumerate() {
            if ctx.tier((i + k) % 3 == 0, true) {
                cases.push(Case::new("format", json!({"svd": "@full", "cmd": "patch", "file": "c.json", "text": js(&[*p]), "pairs": [[p.0, p.1]], "out": o})));
            }
        }
    }
    ctx.note("configurations", cases.len());
    ctx.run(cases.into_iter());
}

// ------------------------------------------------------------------ C30 validation
pub fn h_validate(c: &Case) -> Outcome {
    let d = fresh();
    let svd = svd_text(c.input["svd"].as_str().unwrap());
    let doc = c.input["doc"].as_str().unwrap();
    std::fs::write(d.join("in.svd"), &svd).unwrap();
    std::fs::write(d.join("m.yaml"), format!("_svd: in.svd\n{doc}\n")).unwrap();
    let plain = cli(&d, &["patch", "m.yaml", "plain.svd"]);
    let strict = cli(&d, &["patch", "m.yaml", "strict.svd", "--post-validate"]);
    let mut o = Outcome { transitions: 2, ..Default::default() };
    if !plain.ok() {
        if strict.ok() {
            return Outcome::fail(format!("validation makes a failing patch succeed\n{doc}"));
        }
        o.class = "patch fails".into();
        return o;
    }
    let text = std::fs::read_to_string(d.join("plain.svd")).unwrap();
    let verdict = oracle(&c.input, || {
        let (dev, _) = model_patch(&svd, &load(&format!("_svd: in.svd\n{doc}\n")).unwrap(), &Default::default())?;
        dev.validate_all(ValidateLevel::Strict).map_err(|e| e.to_string())
    });
    match (&verdict, strict.ok()) {
        (Ok(()), false) => return Outcome::fail(format!("a valid result is refused: {}\n{doc}", strict.err)),
        (Err(e), true) => return Outcome::fail(format!("an invalid result is accepted ({e})\n{doc}")),
        _ => {}
    }
    if strict.ok() && std::fs::read_to_string(d.join("strict.svd")).unwrap() != text {
        return Outcome::fail(format!("validation changes the result\n{doc}"));
    }
    if !strict.ok() && d.join("strict.svd").exists() {
        return Outcome::fail(format!("refused but written\n{doc}"));
    }
    o.class = if strict.ok() { "valid" } else { "invalid" }.into();
    o.nontrivial = !strict.ok();
    o.states.push(fnv(text.as_bytes()));
    o
}
pub fn validate(ctx: &Ctx) {
    let names = ["X", "x_1", "bad name", "1x", "é", "a-b", "A%s", "A[%s]", "%s", "_", "A.B", "a%sb", "[%s]", "A%", "", "A[%s", "A[0]"];
    let mut docs: Vec<String> = vec!["{}".into()];
    for n in names {
        let n = q(n);
        for r in [
            "_modify: {P: {name: §}}", "P: {_modify: {A: {name: §}}}", "P: {_modify: {A: {alternateRegister: §}}}", "P: {A: {_modify: {F: {name: §}}}}", "_add: {§: {baseAddress: 0x900}}", "P: {_add: {§: {addressOffset: 0x40}}}", "P: {A: {_add: {§: {bitOffset: 9, bitWidth: 1}}}}", "P: {A: {F: {§: [0, d]}}}", "P: {A: {F: {_name: §, V: [0, d]}}}", "P: {_prefix: §}",
            "P: {_modify: {I: {name: §}}}", "P: {_modify: {_interrupts: {I: {name: §}}}}", "P: {_cluster: {§: {'[AB]': {name: R}}}}", "_modify: {name: §}", "_copy: {§: {from: P}}", "P: {_copy: {§: {from: A, addressOffset: 0x50}}}", "P: {A: {_merge: {§: [F, G]}}}", "_derive: {§: {_from: P, baseAddress: 0x800}}", "P: {_modify: {A: {displayName: §}}}", "_modify: {P: {headerStructName: §, alternatePeripheral: §, groupName: §}}",
        ] {
            docs.push(r.replace('§', &n));
        }
    }
    for (sz, rv, rm) in [(8, 0xFFu64, 0xFFu64), (8, 0x100, 0xFF), (8, 1, 0x1FF), (16, 0xF0, 0x0F), (64, u64::MAX >> 1, u64::MAX >> 1), (32, 0, 0), (1, 1, 1), (1, 2, 3), (0, 0, 0), (32, 0x1_0000_0000, 0)] {
        docs.push(format!("P: {{_modify: {{A: {{size: {sz}, resetValue: {rv}, resetMask: {rm}}}}}}}"));
        docs.push(format!("_modify: {{P: {{size: {sz}, resetValue: {rv}, resetMask: {rm}}}}}"));
        docs.push(format!("_modify: {{size: {sz}, resetValue: {rv}, resetMask: {rm}}}"));
        docs.push(format!("P: {{_add: {{Z: {{addressOffset: 0x20, size: {sz}, resetValue: {rv}, resetMask: {rm}}}}}}}"));
    }
    for v in ["0", "3", "4", "-1", "255"] {
        docs.push(format!("P: {{A: {{F: {{V: [{v}, d]}}}}}}"));
        docs.push(format!("P: {{A: {{_modify: {{G: {{bitWidth: 1}}}}, G: {{_replace_enum: {{V: [{v}, d]}}}}}}}}"));
    }
    for (o, w) in [(0, 0), (0, 1), (31, 1), (31, 2), (32, 1), (0, 64), (0, 65), (63, 1)] {
        docs.push(format!("P: {{C: {{_add: {{Z: {{bitOffset: {o}, bitWidth: {w}}}}}}}}}"));
        docs.push(format!("P: {{A: {{_modify: {{F: {{bitOffset: {o}, bitWidth: {w}}}}}}}}}"));
    }
    for r in ["Q: {_delete: '*'}", "P: {_delete: '*'}", "P: {A: {_delete: '*'}}", "P: {A: {G: {_read: {V: [0, d]}}}}", "P: {A: {F: {_read: {V: [0, d]}, _write: {W: [1, d]}}}}", "P: {A: {F: {_read: {V: [0, d]}}, 'F*': {_write: {W: [1, d]}}}}", "P: {C: {F: [0, 3]}}", "P: {C: {F: [3, 0]}}", "P: {C: {F: [0, 4]}}", "P: {_cluster: {'X%s': {'[AB]': {name: R}}}}", "P: {_array: {'[AB]': {name: 'Z%s'}}}", "_delete: '*'", "_modify: {S: {derivedFrom: 'no such'}}", "_modify: {S: {derivedFrom: NOPE}}", "_derive: {Q: P}", "P: {_derive: {B: A}}", "P: {A: {_derive: {G: F}}}", "P: {_modify: {A: {dim: 2, dimIncrement: 4}}}", "P: {_modify: {A: {dim: 2, dimIncrement: 4, name: 'A%s'}}}", "P: {_modify: {A: {dim: 3, dimIncrement: 4, dimIndex: '0,1', name: 'A%s'}}}", "P: {A: {_modify: {G: {derivedFrom: 'x y'}}}}"] {
        docs.push(r.into());
    }
    let small = small_svd();
    let mut cases = vec![];
    for d in &docs {
        cases.push(Case::new("validate", json!({"svd": small, "doc": d})));
        cases.push(Case::new("validate", json!({"svd": small, "doc": format!("_add: {{OK_: {{baseAddress: 0xF00}}}}\n{}", if d.starts_with("_add") || d == "{}" { "" } else { d })})));
    }
    // devices that are invalid before patching
    for s in micro() {
        cases.push(Case::new("validate", json!({"svd": s, "doc": "_modify: {vendor: V}"})));
        cases.push(Case::new("validate", json!({"svd": s.replace("<name>A</name>", "<name>A B</name>"), "doc": "_modify: {vendor: V}"})));
        cases.push(Case::new("validate", json!({"svd": s.replace("<name>A</name>", "<name>A B</name>"), "doc": "_delete: '*'\n_add: {N: {baseAddress: 0}}"})));
    }
    for f in ["@dev", "@nest", "@chain", "@full"] {
        for d in ["{}", "_modify: {vendor: V}"] {
            cases.push(Case::new("validate", json!({"svd": f, "doc": if d == "{}" { "" } else { d }})));
        }
    }
    ctx.note("patches", cases.len());
    ctx.run(cases.into_iter());
}
