//! HTML pages of devices.
use crate::engine::*;
use crate::files::*;
use crate::patchx::*;
use crate::resolve::*;
use crate::spaces3::small_svd;
use crate::spaces4::micro;
use crate::spaces5::{derivations, elements};
use crate::svd::*;
use serde_json::{json, Map, Value};
use svd_parser::svd::{Access, Device, DimElement, FieldInfo, ModifiedWriteValues as M, ReadAction, WriteConstraint};

/// words, anchors, links, cells and bar widths of the HTML text between two marks
pub fn tokens(page: &str, from: &str, to: &str) -> Vec<String> {
    let s = page.find(from).map(|i| &page[i..]).unwrap_or("");
    let s = s.find(to).map(|i| &s[..i]).unwrap_or(s);
    let mut out = vec![];
    let mut rest = s;
    while !rest.is_empty() {
        let i = rest.find('<').unwrap_or(rest.len());
        out.extend(rest[..i].split_whitespace().map(String::from));
        rest = &rest[i..];
        if rest.is_empty() {
            break;
        }
        let e = rest.find('>').map(|e| e + 1).unwrap_or(rest.len());
        let tag = rest[1..e - 1].trim();
        rest = &rest[e..];
        let name = tag.split_whitespace().next().unwrap_or("");
        let attr = |a: &str| {
            let i = tag.find(&format!(" {a}=\""))? + a.len() + 3;
            tag[i..].find('"').map(|e| tag[i..i + e].to_string())
        };
        let class = attr("class").unwrap_or_default();
        if name == "td" || name == "th" {
            let colour = attr("bgcolor").unwrap_or_default();
            out.push(format!("<{name} {} {}{colour}>", attr("colspan").unwrap_or("1".into()), if class.contains("separated") { "sep" } else { "-" }));
        }
        if let Some(v) = attr("id") {
            out.push(format!("<id {v}>"));
        }
        if let Some(v) = attr("href") {
            out.push(format!("<href {v} {}>", if class.contains("text-success") { "documented" } else { "-" }));
        }
        if let Some(v) = attr("style") {
            out.push(bar(v.trim_start_matches("width:").trim_end_matches(['%', ';']).trim().parse().unwrap_or(-1.)));
        }
    }
    out
}
fn bar(v: f64) -> String {
    format!("<bar {v:.9}>")
}
/// what of a token list is about coverage
fn coverage(t: &[String]) -> Vec<String> {
    let num = |w: &str| w.split_once('/').is_some_and(|(a, b)| a.parse::<u32>().is_ok() && b.parse::<u32>().is_ok());
    t.iter().filter(|w| w.starts_with("<id") || w.starts_with("<bar") || w.starts_with("<href") || num(w)).cloned().collect()
}

struct Out(Vec<String>);
impl Out {
    fn w(&mut self, s: &str) {
        self.0.extend(s.split_whitespace().map(String::from));
    }
    fn t(&mut self, s: String) {
        self.0.push(s)
    }
    fn id(&mut self, s: &str) {
        self.t(format!("<id {s}>"))
    }
    fn href(&mut self, s: &str, doc: bool) {
        self.t(format!("<href {s} {}>", if doc { "documented" } else { "-" }))
    }
    fn cell(&mut self, kind: &str, span: usize, sep: bool) {
        self.t(format!("<{kind} {span} {}>", if sep { "sep" } else { "-" }))
    }
    fn bar(&mut self, c: (u32, u32)) {
        self.t(bar(if c.1 == 0 { 100. } else { 100. * c.0 as f64 / c.1 as f64 }))
    }
}
fn esc(d: &Option<String>) -> String {
    d.as_deref().unwrap_or("").replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}

struct F {
    name: String,
    desc: Option<String>,
    lo: u32,
    width: u32,
    access: &'static str,
    covered: bool,
    link: bool,
    short: String,
    doc: String,
}
struct Rg {
    name: String,
    off: u32,
    size: u32,
    desc: Option<String>,
    access: &'static str,
    reset: u64,
    range: Option<(u64, u64)>,
    fields: Vec<F>,
}
impl Rg {
    fn count(&self) -> (u32, u32) {
        (self.fields.iter().filter(|f| f.covered).count() as u32, self.fields.len() as u32)
    }
}
fn acc(a: Option<Access>) -> &'static str {
    match a {
        None => "Unspecified",
        Some(Access::ReadOnly) => "read-only",
        Some(Access::ReadWrite) => "read-write",
        Some(Access::ReadWriteOnce) => "read-writeOnce",
        Some(Access::WriteOnce) => "writeOnce",
        Some(Access::WriteOnly) => "write-only",
    }
}
/// cell text: how a field is read and written
fn short(access: &str, f: &FieldInfo) -> String {
    let r = match f.read_action {
        None => "r",
        Some(ReadAction::Clear) => "rc",
        Some(ReadAction::Set) => "rs",
        Some(ReadAction::Modify) => "rm",
        Some(ReadAction::ModifyExternal) => "re",
    };
    let w = match f.modified_write_values {
        None | Some(M::Modify) => "w",
        Some(M::OneToClear) => "w1c",
        Some(M::OneToSet) => "w1s",
        Some(M::OneToToggle) => "w1t",
        Some(M::ZeroToClear) => "w0c",
        Some(M::ZeroToSet) => "w0s",
        Some(M::ZeroToToggle) => "w0t",
        Some(M::Clear) => "wc",
        Some(M::Set) => "ws",
    };
    match access {
        "read-only" => r.into(),
        "write-only" => w.into(),
        "read-write" if (r, w) == ("r", "w") => "rw".into(),
        "read-write" => format!("{r}/{w}"),
        _ => "N/A".into(),
    }
}
fn bracketed(name: &str, d: &DimElement) -> Vec<(String, String)> {
    let idx: Vec<String> = (0..d.dim).map(|i| d.dim_index.as_ref().map(|v| v[i as usize].clone()).unwrap_or(i.to_string())).collect();
    idx.into_iter().map(|i| (name.replace("[%s]", &format!("[{i}]")).replace("%s", &format!("[{i}]")), i)).collect()
}
fn at_index(d: &Option<String>, idx: &str) -> Option<String> {
    d.as_ref().map(|d| d.replace("[%s]", idx).replace("%s", idx))
}
fn registers(nodes: &[Node], base: u32, suffix: &str, out: &mut Vec<Rg>) -> Res<()> {
    for n in nodes {
        match n {
            Node::Clu(c, None, sub) => registers(sub, base + c.address_offset, &format!("{suffix} [0]"), out)?,
            Node::Clu(c, Some(d), sub) => {
                for (i, (_, idx)) in bracketed("", d).iter().enumerate() {
                    registers(sub, base + c.address_offset + i as u32 * d.dim_increment, &format!("{suffix} [{idx}]"), out)?
                }
            }
            Node::Reg(r, d, fs) => {
                let all = match d {
                    None => vec![(r.name.clone(), r.description.clone())],
                    Some(d) => bracketed(&r.name, d).into_iter().map(|(n, i)| (n, at_index(&r.description, &i))).collect(),
                };
                let access = acc(r.properties.access);
                let size = r.properties.size.unwrap_or(32);
                for (k, (name, desc)) in all.into_iter().enumerate() {
                    let mut fields = vec![];
                    for f in fs {
                        let one = match &f.dim {
                            None => vec![(f.info.name.clone(), f.info.description.clone())],
                            Some(d) => bracketed(&f.info.name, d).into_iter().map(|(n, i)| (n, at_index(&f.info.description, &i))).collect(),
                        };
                        for (j, (fname, fdesc)) in one.into_iter().enumerate() {
                            let lo = f.info.bit_range.offset + f.dim.as_ref().map(|d| d.dim_increment).unwrap_or(0) * j as u32;
                            let width = f.info.bit_range.width;
                            if lo + width > size {
                                return Err("field outside of its register".into());
                            }
                            let a = f.info.access.map(|a| acc(Some(a))).unwrap_or(access);
                            let link = !f.enums.is_empty() || f.info.write_constraint.is_some();
                            fields.push(F {
                                name: fname,
                                desc: fdesc,
                                lo,
                                width,
                                access: a,
                                covered: link || a == "read-only",
                                link,
                                short: short(a, &f.info),
                                doc: doc(f, width)?,
                            });
                        }
                    }
                    fields.sort_by_key(|f| f.lo);
                    out.push(Rg {
                        name: format!("{name}{suffix}"),
                        off: base + r.address_offset + d.as_ref().map(|d| d.dim_increment).unwrap_or(0) * k as u32,
                        size,
                        desc,
                        access,
                        reset: r.properties.reset_value.unwrap_or(0),
                        range: match r.write_constraint {
                            Some(WriteConstraint::Range(w)) => Some((w.min, w.max)),
                            _ => None,
                        },
                        fields,
                    });
                }
            }
        }
    }
    Ok(())
}
fn doc(f: &RField, width: u32) -> Res<String> {
    if let Some(e) = f.enums.first() {
        let mut s = "Allowed values: ".to_string();
        for v in &e.values {
            let val = match v.value {
                Some(v) => v.to_string(),
                None if v.is_default == Some(true) => {
                    let free = (0..1u128 << width).find(|x| !e.values.iter().any(|y| y.value.map(|y| y as u128) == Some(*x)));
                    format!("{} (+)", free.ok_or("no free value")?)
                }
                None => return Err("no value".into()),
            };
            s += &format!("{val}: {} : {} ", v.name, esc(&v.description));
        }
        return Ok(s);
    }
    Ok(match f.info.write_constraint {
        Some(WriteConstraint::Range(r)) => format!("Allowed values: 0x{:x}-0x{:x}", r.min, r.max),
        _ => String::new(),
    })
}
/// the columns from bit `top` down to `top - 15`: (width, field)
fn row(r: &Rg, top: u32) -> Vec<(usize, Option<usize>)> {
    let mut v: Vec<(usize, Option<usize>)> = vec![];
    for b in (top - 15..=top).rev() {
        let f = r.fields.iter().position(|f| f.lo <= b && b < f.lo + f.width);
        match v.last_mut() {
            Some(l) if l.1.map(|i| &r.fields[i].name) == f.map(|i| &r.fields[i].name) => l.0 += 1,
            _ => v.push((1, f)),
        }
    }
    v
}
/// rows with something to show; bits above 31 count for the upper one
fn rows(r: &Rg) -> [Option<Vec<(usize, Option<usize>)>>; 2] {
    let top = r.fields.iter().any(|f| f.lo + f.width > 16);
    let any = !r.fields.is_empty();
    [top.then(|| row(r, 31)), any.then(|| row(r, 15))]
}

pub struct Page {
    pub tokens: Vec<String>,
    pub count: (u32, u32),
}
pub fn page(dev: &Device) -> Res<Page> {
    let mut pers = vec![];
    for p in resolve(dev)? {
        let mut rs = vec![];
        registers(&p.nodes, 0, "", &mut rs)?;
        rs.sort_by_key(|r| (r.off, r.name.to_lowercase()));
        pers.push((p, rs));
    }
    pers.sort_by_key(|p| p.0.info.name.to_lowercase());
    let sum = |rs: &[Rg]| rs.iter().fold((0, 0), |a, r| (a.0 + r.count().0, a.1 + r.count().1));
    let total = pers.iter().fold((0, 0), |a, p| (a.0 + sum(&p.1).0, a.1 + sum(&p.1).1));
    let mut o = Out(vec![]);
    o.w(&format!("Overall: {}/{} fields covered", total.0, total.1));
    o.bar(total);
    for (p, _) in &pers {
        o.href(&format!("#{}", p.info.name), false);
        o.w(&p.info.name);
    }
    for (p, rs) in &pers {
        let pn = &p.info.name;
        o.id(pn);
        o.w(pn);
        o.href(&format!("#{pn}"), false);
        o.w(&format!("0x{:08x}: {}", p.info.base_address, esc(&p.info.description)));
        let c = sum(rs);
        o.bar(c);
        o.w(&format!("{}/{} fields covered.", c.0, c.1));
        o.id(&format!("{pn}-register-map"));
        o.w("Toggle register map");
        for h in ["Offset".to_string(), "Name".into()].into_iter().chain((0..32).rev().map(|i| i.to_string())) {
            o.cell("th", 1, false);
            o.w(&h);
        }
        for r in rs {
            o.cell("td", 1, false);
            o.w(&format!("0x{:x}", r.off));
            if r.size != 32 {
                o.w(&format!("({}-bit)", r.size));
            }
            o.cell("td", 1, false);
            o.href(&format!("#{pn}:{}", r.name), false);
            o.w(&r.name);
            for line in rows(r) {
                for (n, f) in line.unwrap_or(vec![(16, None)]) {
                    match f {
                        None => (0..n).for_each(|_| o.cell("td", 1, false)),
                        Some(i) => {
                            let f = &r.fields[i];
                            o.cell("td", n, f.lo < 16 && f.lo + f.width > 16);
                            o.href(&format!("#{pn}:{}:{}", r.name, f.name), f.link);
                            o.w(&f.name);
                        }
                    }
                }
            }
        }
        o.id(&format!("{pn}-registers"));
        o.w("Toggle registers");
        for r in rs {
            let rn = format!("{pn}:{}", r.name);
            o.id(&rn);
            o.w(&r.name);
            o.href(&format!("#{rn}"), false);
            o.w(&esc(&r.desc));
            let range = r.range.map(|w| format!(", allowed values: {}-{}", w.0, w.1)).unwrap_or_default();
            o.w(&format!("Offset: 0x{:x}, size: {}, reset: 0x{:08X}, access: {}{range}", r.off, r.size, r.reset, r.access));
            let c = r.count();
            o.bar(c);
            if c.1 > 0 {
                o.w(&format!("{}/{} fields covered.", c.0, c.1));
                for (k, line) in rows(r).into_iter().enumerate() {
                    let Some(line) = line else { continue };
                    for b in (0..16).rev() {
                        o.cell("th", 1, false);
                        o.w(&(b + 16 * (1 - k)).to_string());
                    }
                    for (n, f) in line {
                        let f = f.map(|i| &r.fields[i]);
                        o.cell("td", n, f.is_some_and(|f| f.lo < 16 && f.lo + f.width > 16));
                        if let Some(f) = f {
                            o.href(&format!("#{rn}:{}", f.name), f.link);
                            o.w(&format!("{} {}", f.name, f.short));
                        }
                    }
                }
            }
            o.id(&format!("{pn}-{}-fields", r.name));
            o.w("Toggle fields");
            for f in &r.fields {
                let id = format!("{rn}:{}", f.name);
                o.id(&id);
                o.w(&f.name);
                o.href(&format!("#{id}"), false);
                let bits = if f.width > 1 { format!("Bits {}-{}:", f.lo, f.lo + f.width - 1) } else { format!("Bit {}:", f.lo) };
                o.w(&format!("{bits} {}.", esc(&f.desc)));
                o.w(&f.doc);
                let _ = f.access;
            }
        }
    }
    Ok(Page { tokens: o.0, count: total })
}
pub fn html_device(svd: &str) -> Res<Device> {
    svd_parser::parse_with_config(svd, &svd_parser::Config::default().expand_properties(true)).map_err(|e| format!("{e:?}"))
}
pub fn index_tokens(devs: &[(String, (u32, u32))]) -> Vec<String> {
    let mut devs = devs.to_vec();
    devs.sort_by_key(|d| d.0.to_lowercase());
    let mut o = Out(vec![]);
    o.w("Available Devices");
    for (n, c) in &devs {
        o.href(&format!("{n}.html"), false);
        o.w(n);
        o.href(&format!("{}.svd.patched", n.to_lowercase()), false);
        o.w(&format!("(svd) : {}/{} fields documented", c.0, c.1));
        o.bar(*c);
    }
    o.0
}
/// white space and the place of a colon do not matter
fn loose(t: &[String]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for w in t {
        if w.starts_with('<') {
            v.push(w.clone());
            continue;
        }
        let mut w = w.as_str();
        while let Some(i) = w.find(':') {
            v.push(w[..=i].trim_end_matches(':').into());
            v.push(":".into());
            w = &w[i + 1..];
        }
        v.push(w.into());
    }
    v.retain(|w| !w.is_empty());
    v
}
pub fn differ(what: &str, want: &[String], got: &[String]) -> Option<String> {
    let (w, g) = (loose(want), loose(got));
    if w == g {
        return None;
    }
    Some(format!("{what}\n{}", first_diff(&w.join("\n"), &g.join("\n"))))
}

/// kind "html": {svds: {file: text}, what: "coverage" | "all"}
pub fn h_html(c: &Case) -> Outcome {
    let d = fresh();
    write_tree(&d, &c.input["svds"]);
    let files: Vec<&String> = c.input["svds"].as_object().unwrap().keys().collect();
    let cover = c.input["what"] == "coverage";
    let mut args = vec!["html", "out"];
    args.extend(files.iter().map(|s| s.as_str()));
    let r = cli(&d, &args);
    let mut o = Outcome { transitions: 1, ..Default::default() };
    let mut pages = vec![];
    for f in &files {
        let text = std::fs::read_to_string(d.join(f)).unwrap();
        match html_device(&text).and_then(|dev| oracle(&c.input, || page(&dev)).map(|p| (dev.name.clone(), p))) {
            Ok(p) => pages.push((p.0, p.1, text)),
            Err(e) => {
                if r.ok() {
                    return Outcome::fail(format!("succeeded although {e}\n{text}"));
                }
                if std::env::var_os("MC_TRACE").is_some() { eprintln!("{e}"); }
                o.class = format!("refused: {}", e.chars().take_while(|c| c.is_alphabetic() || *c == ' ').collect::<String>().trim());
                return o;
            }
        }
    }
    if !r.ok() {
        return Outcome::fail(format!("failed: {}\n{}", r.err, pages.iter().map(|p| p.2.as_str()).collect::<String>()));
    }
    for (name, p, text) in &pages {
        let got = std::fs::read_to_string(d.join("out").join(format!("{name}.html"))).unwrap_or_default();
        let got = tokens(&got, "Overall:", "<script");
        let e = if cover { differ(name, &coverage(&p.tokens), &coverage(&got)) } else { differ(name, &p.tokens, &got) };
        if let Some(e) = e {
            return Outcome::fail(format!("{text}\n{e}"));
        }
        o.states.push(fnv(got.join(" ").as_bytes()));
        o.nontrivial |= p.count.1 > 0;
    }
    let want = index_tokens(&pages.iter().map(|p| (p.0.clone(), p.1.count)).collect::<Vec<_>>());
    let got = tokens(&std::fs::read_to_string(d.join("out/index.html")).unwrap_or_default(), "Available Devices", "<script");
    if let Some(e) = differ("index.html", &want, &got) {
        return Outcome::fail(e);
    }
    o.class = format!("{} pages", pages.len());
    o
}
fn ro(t: &str) -> String {
    format!("<access>{t}</access>")
}
pub const ACCS: [&str; 6] = ["", "read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"];
fn access(a: &str) -> String {
    if a.is_empty() {
        String::new()
    } else {
        ro(a)
    }
}
fn ev_default(vals: &[(&str, u32)]) -> String {
    evs("", "", vals).replace("</enumeratedValues>", "<enumeratedValue><name>DEF</name><description>rest</description><isDefault>true</isDefault></enumeratedValue></enumeratedValues>")
}
fn one(regs: &str) -> String {
    dev(&per("P", 0x40, "", regs))
}
fn derived_field(from: &str, name: &str, lo: u32, w: u32, extra: &str) -> String {
    fldd("", name, None, lo, w, extra).replacen("<field>", &format!("<field derivedFrom=\"{from}\">"), 1)
}
fn from_set(name: &str, from: &str) -> String {
    let n = if name.is_empty() { String::new() } else { format!("<name>{name}</name>") };
    format!("<enumeratedValues derivedFrom=\"{from}\">{n}</enumeratedValues>")
}
/// documents whose point is which fields are covered
fn covered(ctx: &Ctx) -> Vec<String> {
    let mut v = vec![];
    let docs = [
        String::new(),
        evs("", "", &[("X", 0), ("Y", 1)]),
        ev_default(&[("X", 1)]),
        "<writeConstraint><range><minimum>0</minimum><maximum>1</maximum></range></writeConstraint>".into(),
        "<writeConstraint><writeAsRead>true</writeAsRead></writeConstraint>".into(),
        "<writeConstraint><useEnumeratedValues>true</useEnumeratedValues></writeConstraint>".into(),
        evs("", "read", &[("X", 0)]) + &evs("", "write", &[("Y", 1)]),
        format!("<writeConstraint><range><minimum>0</minimum><maximum>1</maximum></range></writeConstraint>{}", evs("", "", &[("X", 0)])),
        "<readAction>clear</readAction>".into(),
        "<modifiedWriteValues>oneToClear</modifiedWriteValues>".into(),
        format!("<modifiedWriteValues>zeroToSet</modifiedWriteValues><readAction>modify</readAction>{}", evs("", "", &[("X", 0)])),
    ];
    // access of the device, peripheral, register, field x documentation
    for d in ["", "read-only"] {
        for p in ["", "read-only", "write-only"] {
            for r in ACCS {
                for f in ACCS {
                    for t in &docs {
                        if (!d.is_empty() || !p.is_empty()) && (!r.is_empty() && !f.is_empty()) {
                            continue;
                        }
                        let x = reg("A", 0).props(&access(r)).fields(&(fld("F", 0, 1, &format!("{}{t}", access(f))) + &fld("G", 1, 4, ""))).x();
                        v.push(dev(&per("P", 0, &access(p), &x)).replace("<resetValue>", &format!("{}<resetValue>", access(d))));
                    }
                }
            }
        }
    }
    // every distribution of covered and other fields over two registers and a peripheral
    let n = ctx.tier(3, 6);
    let body = |c: u32, t: u32, name: &str, off: u64| {
        let f: String = (0..t).map(|i| fld(&format!("F{i}"), i, 1, if i < c { "<access>read-only</access>" } else { "" })).collect();
        let r = reg(name, off);
        if t == 0 { r.x() } else { r.fields(&f).x() }
    };
    for t1 in 0..=n {
        for c1 in 0..=t1 {
            for t2 in 0..=n {
                for c2 in 0..=t2 {
                    v.push(dev(&(per("P", 0, "", &(body(c1, t1, "A", 0) + &body(c2, t2, "B", 4))) + &per("Q", 0x100, "", &body(c2, t2, "A", 0)) + &per_from("S", "P", 0x200, ""))));
                }
            }
        }
    }
    // arrays count once per element
    for (k, m) in [(1u32, 1u32), (1, 3), (2, 2), (3, 1), (3, 4)] {
        for t in &docs[..4] {
            let f = fldd(&dim(m, 2, None), "F%s", None, 0, 1, t);
            let r = reg("A[%s]", 0).dim(dim(k, 4, None)).fields(&(f.clone() + &fld("G", 20, 1, ""))).x();
            v.push(one(&r));
            v.push(one(&clu(&dim(m, 0x40, None), "C%s", 0x10, &r)));
            v.push(one(&clu("", "C", 0x10, &(r.clone() + &clu(&dim(k, 0x100, None), "D[%s]", 0x100, &r)))));
            v.push(one(&r).replace("<peripheral>", &format!("<peripheral>{}", dim(k, 0x400, None))).replace("<name>P</name>", "<name>P%s</name>"));
        }
    }
    v
}
/// a register derived from the one beside it
fn s_reg_pair(f: &str, own: &str) -> String {
    let b = reg("B", 4).from("A");
    reg("A", 0).desc("source").fields(f).x() + &if own.is_empty() { b.x() } else { b.fields(own).x() }
}
/// documents in which something is inherited
fn inherited(ctx: &Ctx) -> Vec<String> {
    let mut v = vec![];
    for n in 1..=ctx.tier(3, 4) {
        v.extend(derivations(n));
    }
    let doc = fld("F", 0, 2, &evs("E", "", &[("X", 0), ("Y", 2)]));
    let own = fld("G", 4, 1, "<access>read-only</access>");
    let src = reg("A", 0).desc("source").props("<access>read-only</access>").fields(&doc).x();
    let plain = reg("A", 0).desc("source").fields(&(doc.clone() + &fld("H", 8, 1, ""))).x();
    for s in [&src, &plain] {
        // registers, with and without fields of their own, in every direction and depth
        for f in [None, Some(&own)] {
            let mut b = reg("B", 4).from("A");
            let mut c = reg("C", 8).from("B");
            if let Some(f) = f {
                b = b.fields(f);
                c = c.fields(f);
            }
            let bb = b.clone().x();
            v.push(one(&format!("{s}{bb}")));
            v.push(one(&format!("{bb}{s}")));
            for (x, y) in [(b.clone(), reg("C", 8).from("B")), (reg("B", 4).from("A"), c.clone()), (b.clone(), c.clone())] {
                v.push(one(&format!("{s}{}{}", x.x(), y.x())));
                v.push(one(&format!("{}{}{s}", y.x(), x.x())));
            }
            for a in ACCS {
                v.push(one(&format!("{s}{}", b.clone().props(&access(a)).x())));
                v.push(one(&format!("{s}{}", b.clone().desc("d").props(&format!("<size>16</size>{}<resetValue>7</resetValue>", access(a))).x())));
            }
            v.push(one(&format!("{s}{}", clu("", "K", 0x20, &b.clone().from("P.A").x()))));
            v.push(one(&format!("{}{}", clu("", "K", 0x20, s), b.clone().from("P.K.A").x())));
            v.push(dev(&(per("P", 0, "", s) + &per("Q", 0x100, "", &b.clone().from("P.A").x()))));
            v.push(one(&format!("{s}{}", b.clone().dim(dim(2, 4, None)).x().replace("<name>B<", "<name>B%s<"))));
            v.push(one(&format!("{}{}", s.replace("<name>A<", "<name>A%s<").replacen("<register>", &format!("<register>{}", dim(2, 4, None)), 1), reg("B", 0x10).from("A%s").x())));
        }
        // clusters
        for b in [String::new(), reg("Z", 0).fields(&own).x()] {
            for (n, m) in [("K", "L"), ("K%s", "L"), ("K", "L%s"), ("K%s", "L%s")] {
                let dm = |n: &str, k: u32| if n.contains('%') { dim(k, 0x10, None) } else { String::new() };
                let l = clu(&dm(m, 2), m, 0x100, &b).replacen("<cluster>", &format!("<cluster derivedFrom=\"{n}\">"), 1);
                v.push(one(&format!("{}{l}", clu(&dm(n, 3), n, 0, s))));
                v.push(one(&format!("{l}{}", clu(&dm(n, 3), n, 0, &(s.clone() + &clu("", "In", 4, &reg("B", 0).from("P.K.A").x()))).replace("P.K.A", &format!("P.{n}.A")))));
                v.push(one(&clu("", "Up", 0x20, &format!("{}{l}", clu(&dm(n, 3), n, 0, s)))));
                v.push(dev(&(per("P", 0, "", &clu(&dm(n, 3), n, 0, s)) + &per("Q", 0x1000, "", &l.replace("derivedFrom=\"", "derivedFrom=\"P.")))));
            }
        }
    }
    // fields
    let sets = [evs("E", "", &[("X", 0), ("Y", 1)]), "<writeConstraint><range><minimum>0</minimum><maximum>1</maximum></range></writeConstraint>".into(), "<access>read-only</access>".into(), String::new()];
    for a in &sets {
        for b in &sets {
            let f = fld("F", 0, 1, a);
            for order in [true, false] {
                let pair = |x: String, y: String| if order { x + &y } else { y + &x };
                v.push(one(&reg("A", 0).fields(&pair(f.clone(), derived_field("F", "G", 1, 1, b))).x()));
                v.push(one(&reg("A", 0).fields(&pair(f.clone() + &derived_field("F", "G", 1, 1, b), derived_field("G", "H", 2, 1, ""))).x()));
                v.push(one(&pair(reg("A", 0).fields(&f).x(), reg("B", 4).fields(&derived_field("P.A.F", "G", 1, 1, b)).x())));
            }
            v.push(one(&reg("A", 0).fields(&(fldd(&dim(2, 1, None), "F%s", None, 0, 1, a) + &derived_field("F%s", "G", 4, 1, b))).x()));
            v.push(one(&reg("A", 0).fields(&(f.clone() + &derived_field("F", "G%s", 4, 1, b).replace("<name>", &format!("{}<name>", dim(3, 1, None))))).x()));
            v.push(one(&reg("A", 0).fields(&(fldd(&dim(2, 1, None), "F%s", None, 0, 1, a) + &derived_field("F%s", "G%s", 4, 1, b))).x()));
        }
    }
    // relative references inside what is inherited
    let inner = [
        s_reg_pair(&doc, ""),
        s_reg_pair(&doc, &own),
        clu("", "In", 0, &src) + &clu("", "Im", 0x10, "").replacen("<cluster>", "<cluster derivedFrom=\"In\">", 1),
        clu("", "In", 0, &(src.clone() + &reg("B", 4).from("A").x())),
        reg("A", 0).fields(&(doc.clone() + &derived_field("F", "G", 4, 2, ""))).x(),
        reg("A", 0).fields(&(doc.clone() + &fld("G", 4, 2, &from_set("", "E")))).x(),
        reg("A", 0).fields(&(doc.clone() + &fld("G", 4, 2, &from_set("", "F.E")))).x(),
        reg("A", 0).fields(&doc).x() + &reg("B", 4).fields(&derived_field("A.F", "G", 4, 2, "")).x(),
        reg("A", 0).fields(&doc).x() + &reg("B", 4).fields(&fld("G", 4, 2, &from_set("", "A.F.E"))).x(),
    ];
    for i in &inner {
        let cl = |n: &str, at: u64, from: &str, body: &str| {
            let d = if n.contains('%') { dim(2, 0x40, None) } else { String::new() };
            let x = clu(&d, n, at, body);
            if from.is_empty() { x } else { x.replacen("<cluster>", &format!("<cluster derivedFrom=\"{from}\">"), 1) }
        };
        for more in [String::new(), reg("Z", 0x30).fields(&own).x()] {
            v.push(dev(&(per("P", 0, "", i) + &per_from("Q", "P", 0x1000, "").replace("</peripheral>", &if more.is_empty() { "</peripheral>".to_string() } else { format!("<registers>{more}</registers></peripheral>") }) + &per_from("S", "Q", 0x2000, ""))));
            for (k, l) in [("K", "L"), ("K%s", "L"), ("K", "L%s")] {
                let (a, b, c) = (cl(k, 0, "", i), cl(l, 0x100, k, &more), cl("M", 0x200, l, ""));
                v.push(one(&format!("{a}{b}")));
                v.push(one(&format!("{b}{a}{c}")));
                v.push(one(&cl("Up", 0x20, "", &format!("{a}{b}{c}"))));
                v.push(one(&(cl("Up", 0x20, "", &format!("{a}{b}")) + &cl("Uq", 0x800, "Up", ""))));
                v.push(dev(&(per("P", 0, "", &a) + &per("Q", 0x1000, "", &cl(l, 0x100, &format!("P.{k}"), &more)) + &per_from("S", "Q", 0x2000, ""))));
            }
        }
        // registers and fields from elsewhere with relative references of their own
        let r = |n: &str, from: &str, body: &str| if body.is_empty() { reg(n, 0x40).from(from).x() } else { reg(n, 0x40).from(from).fields(body).x() };
        for body in [String::new(), fld("Y", 12, 1, "")] {
            for n in ["A", "B"] {
                if i.contains(&format!("<name>{n}</name>")) && !i.contains("<cluster") {
                    v.push(one(&(i.clone() + &r("X", n, &body))));
                    v.push(one(&(cl("K", 0, "", i) + &r("X", &format!("P.K.{n}"), &body))));
                    v.push(dev(&(per("P", 0, "", i) + &per("Q", 0x1000, "", &r("X", &format!("P.{n}"), &body)) + &per("S", 0x2000, "", &r("W", "Q.X", "")))));
                }
            }
        }
    }
    // fields from elsewhere whose values come from their own neighbours
    let other = fld("F", 0, 2, &evs("E", "", &[("OTHER", 1)]));
    for set in ["E", "F.E"] {
        let src = fld("F", 0, 2, &evs("E", "", &[("X", 0), ("Y", 2)])) + &fld("G", 2, 2, &from_set("", set)) + &derived_field("G", "H", 4, 2, "");
        for (k, from) in ["G", "H"].iter().enumerate() {
            for near in [String::new(), other.clone()] {
                let g = |p: &str| near.clone() + &derived_field(&format!("{p}{from}"), "Q", 8 + k as u32, 2, "");
                let a = reg("A", 0).fields(&src).x();
                let b = |p: &str| reg("B", 0x10).fields(&g(p)).x();
                v.push(one(&(a.clone() + &b("A."))));
                v.push(one(&(b("P.A.") + &a)));
                v.push(one(&(clu("", "K", 0, &a) + &b("P.K.A."))));
                v.push(one(&(clu("", "K", 0x20, &b("P.A.")) + &a)));
                v.push(dev(&(per("P", 0, "", &a) + &per("S", 0x100, "", &b("P.A.")))));
                v.push(dev(&(per("S", 0, "", &b("P.A.")) + &per("P", 0x100, "", &a))));
                v.push(one(&(a.clone() + &reg("B", 0x10).fields(&(g("A.") + &derived_field("Q", "R", 20, 2, ""))).x())));
                v.push(dev(&(per("P", 0, "", &(a.clone() + &b("P.A."))) + &per("S", 0x100, "", &reg("C", 0).fields(&derived_field("P.B.Q", "R", 20, 2, "")).x()))));
            }
        }
    }
    // sets of enumerated values
    let e = fld("F", 0, 1, &evs("E", "", &[("X", 0), ("Y", 1)]));
    let at = |x: &str, from: &str| {
        let r = |n: &str, o: u64, f: &str| reg(n, o).fields(f).x();
        match x {
            "reg" => one(&r("A", 0, &(e.clone() + &fld("G", 1, 1, &from_set("", from))))),
            "back" => one(&r("A", 0, &(fld("G", 1, 1, &from_set("", from)) + &e))),
            "per" => one(&(r("A", 0, &e) + &r("B", 4, &fld("G", 1, 1, &from_set("", from))))),
            "clu" => one(&clu("", "K", 0, &(r("A", 0, &e) + &r("B", 4, &fld("G", 1, 1, &from_set("", from)))))),
            "dev" => dev(&(per("P", 0, "", &r("A", 0, &e)) + &per("Q", 0x100, "", &r("B", 4, &fld("G", 1, 1, &from_set("", from)))))),
            _ => one(&(r("A", 0, &(e.clone() + &fld("G", 1, 1, &from_set("S", from)))) + &r("B", 4, &fld("H", 1, 1, &from_set("", "P.A.G.S"))) + &reg("C", 8).from("A").x() + &reg("D", 12).from("B").x())),
        }
    };
    for (x, from) in [
        ("reg", "E"), ("reg", "F.E"), ("reg", "A.F.E"), ("reg", "P.A.F.E"), ("back", "E"), ("back", "F.E"), ("per", "A.F.E"), ("per", "P.A.F.E"), ("per", "E"), ("clu", "A.F.E"), ("clu", "P.K.A.F.E"),
        ("dev", "P.A.F.E"), ("dev", "A.F.E"), ("two", "E"), ("two", "F.E"), ("reg", "NONE"), ("reg", "G.E"),
    ] {
        let t = at(x, from);
        v.push(t.clone());
        v.push(t.replace("</peripherals>", &format!("{}</peripherals>", per_from("T", "P", 0x3000, ""))));
        v.push(t.replacen("<peripherals>", &format!("<peripherals>{}", per_from("T", "P", 0x3000, "")), 1));
    }
    v
}
/// documents whose point is where registers and fields are shown
fn placed(ctx: &Ctx) -> Vec<String> {
    let mut v = vec![];
    let cuts: &[u32] = &[0, 1, 7, 8, 15, 16, 17, 24, 31, 32];
    let mut ranges = vec![];
    for a in cuts {
        for b in cuts {
            if a < b {
                ranges.push((*a, b - a));
            }
        }
    }
    for a in &ranges {
        v.push(one(&reg("A", 0).fields(&fld("F", a.0, a.1, "")).x()));
        for b in &ranges {
            let (x, y) = (fld("F", a.0, a.1, "<access>read-only</access>"), fld("G", b.0, b.1, &evs("", "", &[("X", 0)])));
            v.push(one(&reg("A", 0).fields(&(x + &y)).x()));
        }
    }
    for size in [8u32, 16, 24, 32, 64] {
        for (lo, w) in [(0, 1), (0, 8), (7, 1), (7, 2), (8, 1), (15, 1), (12, 8), (16, 1), (16, 9), (31, 1), (31, 2), (32, 1), (40, 8), (63, 1), (0, 64), (0, 63), (1, 63), (63, 2)] {
            let t = reg("A", 0).props(&format!("<size>{size}</size>")).fields(&(fld("F", lo, w, "") + &fld("Z", 0, 1, ""))).x();
            v.push(one(&t));
            v.push(one(&t).replace("</bitWidth></field></fields>", "</bitWidth><access>write-only</access></field></fields>"));
        }
    }
    // three fields in every document order
    let f = [fld("A", 10, 2, ""), fld("B", 2, 8, ""), fld("C", 2, 3, "<access>read-only</access>"), fld("a", 14, 6, ""), fld("E", 16, 16, "")];
    let r = [reg("A", 0x10).x(), reg("b", 4).x(), reg("B", 4).x(), clu("", "A", 4, &(reg("a", 0).x() + &reg("Z", 8).x())), reg("R%s", 0).dim(dim(5, 4, Some("9,10,a,B,2"))).x()];
    let p = [per("A", 0x100, "", ""), per("b", 0x20, "", &r[0]), per("B1", 0x20, "", ""), per("_c", 0, "", ""), per_from("Aa", "b", 1, "")];
    for i in 0..5 {
        for j in 0..5 {
            for k in 0..5 {
                if i != j && j != k && i != k {
                    v.push(one(&reg("A", 0).fields(&format!("{}{}{}", f[i], f[j], f[k])).x()));
                    v.push(one(&format!("{}{}{}", r[i], r[j], r[k])));
                    if [i, j, k].contains(&1) {
                        v.push(dev(&format!("{}{}{}", p[i], p[j], p[k])));
                    }
                }
            }
        }
    }
    // reading and writing
    for a in ACCS {
        for m in ["", "oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle", "clear", "set", "modify"] {
            for x in ["", "clear", "set", "modify", "modifyExternal"] {
                let mut e = access(a);
                if !m.is_empty() {
                    e += &format!("<modifiedWriteValues>{m}</modifiedWriteValues>");
                }
                if !x.is_empty() {
                    e += &format!("<readAction>{x}</readAction>");
                }
                v.push(one(&reg("A", 0).fields(&fld("F", 0, 1, &e)).x()));
                v.push(one(&reg("A", 0).props(&access(a)).fields(&fld("F", 14, 4, &e.replace(&access(a), ""))).x()));
            }
        }
    }
    // names and indexes of arrays
    for name in ["X%s", "X[%s]", "%s", "a%sb", "X%s_%s"] {
        for (n, idx) in [(1, None), (3, None), (2, Some("0-1")), (3, Some("A,B,C")), (11, Some("7-17")), (3, Some("01,02,03"))] {
            for inc in [0u32, 1, 2, 4, 0x10] {
                let dm = dim(n, inc, idx);
                v.push(one(&reg(name, 4).desc("d %s [%s]").dim(dm.clone()).x()));
                v.push(one(&clu(&dm, name, 4, &(reg("A", 8).x() + &clu(&dim(2, 4, None), "Q%s", 0x20, &reg("B[%s]", 0).dim(dim(2, 1, None)).x())))));
                v.push(one(&reg("A", 4).fields(&fldd(&dm, name, Some("x%s"), 0, 1, "")).x()));
                v.push(dev(&per(name, 0x40, "", &reg("A", 4).x()).replace("<peripheral>", &format!("<peripheral>{dm}"))));
            }
        }
    }
    // texts
    for t in ["", "one", "two  words", " lead", "trail ", "a\n   b", "a \n\n b\n", "a\r\nb", "x &lt; y &amp; &gt;z", "&lt;br&gt;", "é %s", "{{ x }} {% if %}", "&quot;q&quot;"] {
        v.push(dev(&per("P", 0, &format!("<description>{t}</description>"), &reg("A", 0).desc(t).fields(&fldd("", "F", Some(t), 0, 1, "")).x())));
        v.push(one(&reg("A", 0).fields(&fld("F", 0, 2, &evs("", "", &[("X", 0), ("Y", 3)]).replace("X d", t))).x()));
        v.push(one(&clu("", "K", 0, &reg("A", 0).desc(t).x())));
    }
    // values
    for w in [1u32, 2, 3, 64] {
        for set in 0..8u32 {
            let vals: Vec<(&str, u32)> = [("N0", 0), ("N1", 1), ("N2", 2)].into_iter().filter(|x| set >> x.1 & 1 == 1).collect();
            if w == 1 && set >> 2 & 1 == 1 {
                continue;
            }
            let size = format!("<size>{}</size>", w.max(32));
            for e in [evs("", "", &vals), ev_default(&vals)] {
                v.push(one(&reg("A", 0).props(&size).fields(&fld("F", 0, w, &e)).x()));
                let back: String = evs("", "", &vals.iter().rev().cloned().collect::<Vec<_>>());
                v.push(one(&reg("A", 0).props(&size).fields(&fld("F", 0, w, &back)).x()));
            }
        }
    }
    // properties
    for s in ["", "<size>8</size>", "<size>16</size>", "<size>64</size>"] {
        for x in ["", "<resetValue>0</resetValue>", "<resetValue>0xAB</resetValue>"] {
            for w in ["", "<writeConstraint><range><minimum>2</minimum><maximum>0x12</maximum></range></writeConstraint>", "<writeConstraint><writeAsRead>true</writeAsRead></writeConstraint>"] {
                v.push(one(&reg("A", 0).props(&format!("{s}{x}{w}")).x()));
                v.push(dev(&per("P", 0, &format!("{s}{x}"), &reg("A", 0).props(w).x())));
                v.push(one(&clu("", "K", 0, &format!("{s}{x}{}", reg("A", 0).props(w).x()))));
            }
        }
    }
    for b in [0u64, 9, 0xABC, 0xDEADBEEF, 0xFFFF_FFFF, 0x1_0000_0000, 0xFEDC_BA98_7654_3210] {
        for o in [0u64, 10, 0xABCDE, 0xFFFF_FFF0] {
            v.push(dev(&per("P", b, "", &reg("A", o).x())));
        }
    }
    if ctx.thorough {
        for (i, a) in ranges.iter().enumerate() {
            for (j, b) in ranges.iter().enumerate() {
                for c in ranges.iter().skip(i.max(j)) {
                    v.push(one(&reg("A", 0).fields(&(fld("F", a.0, a.1, "") + &fld("G", b.0, b.1, "<access>read-only</access>") + &fld("H", c.0, c.1, ""))).x()));
                }
            }
        }
    }
    v
}
fn named(svd: &str, n: &str) -> String {
    svd.replacen("<name>D</name>", &format!("<name>{n}</name>"), 1)
}
fn common() -> Vec<String> {
    let mut v = micro();
    v.extend(["@dev", "@nest", "@chain", "@full", "@wide"].map(String::from));
    v.push(small_svd());
    v
}
/// several devices in one call
fn several() -> Vec<Value> {
    let docs: Vec<String> = (0..4)
        .map(|i| {
            let f: String = (0..i).map(|k| fld(&format!("F{k}"), k, 1, if k > 0 { "<access>read-only</access>" } else { "" })).collect();
            one(&if i == 0 { reg("A", 0).x() } else { reg("A", 0).fields(&f).x() })
        })
        .collect();
    let names = ["B", "a", "C1", "A_long-Name"];
    let mut v = vec![];
    let n = 4;
    for m in 1..5usize.pow(n) {
        let pick: Vec<usize> = (0..n).map(|i| m / 5usize.pow(i) % 5).take_while(|x| *x > 0).map(|x| x - 1).collect();
        let mut s = pick.clone();
        s.sort();
        s.dedup();
        if s.len() != pick.len() || pick.is_empty() || m >= 5usize.pow(pick.len() as u32) {
            continue;
        }
        let mut files = Map::new();
        for (k, i) in pick.iter().enumerate() {
            files.insert(format!("{k}.svd"), json!(named(&docs[*i], names[*i])));
        }
        v.push(Value::Object(files));
    }
    for bad in ["", "<device>", "x"] {
        v.push(json!({"0.svd": docs[1], "1.svd": bad}));
        v.push(json!({"0.svd": bad}));
    }
    v
}
fn run(ctx: &Ctx, what: &str, docs: Vec<String>) {
    ctx.note("devices", docs.len());
    let mut cases: Vec<Case> = docs.into_iter().map(|s| Case::new("html", json!({"svds": {"d.svd": s}, "what": what}))).collect();
    cases.extend(several().into_iter().map(|s| Case::new("html", json!({"svds": s, "what": what}))));
    ctx.run(cases.into_iter());
}
pub fn html_coverage(ctx: &Ctx) {
    let mut d = common();
    d.extend(covered(ctx));
    d.extend(inherited(ctx));
    run(ctx, "coverage", d);
}
pub fn html_pages(ctx: &Ctx) {
    let mut d = common();
    d.extend(inherited(ctx));
    d.extend(placed(ctx));
    run(ctx, "all", d);
}

// ------------------------------------------------------------------ comparison
type Row = (Vec<String>, Option<String>);
/// an expanded device: (peripheral, base) -> (offset, register) -> (offset, width, field)
type Flat = std::collections::BTreeMap<(String, u64), std::collections::BTreeMap<(u32, String), std::collections::BTreeSet<(u32, u32, String)>>>;
fn copies(name: &str, d: &Option<DimElement>) -> Vec<(String, u32)> {
    match d {
        None => vec![(name.into(), 0)],
        Some(d) => elements(name, &None, d).into_iter().enumerate().map(|(i, e)| (e.1, i as u32 * d.dim_increment)).collect(),
    }
}
fn flat_nodes(nodes: &[Node], prefix: &str, base: u32, out: &mut std::collections::BTreeMap<(u32, String), std::collections::BTreeSet<(u32, u32, String)>>) {
    for n in nodes {
        match n {
            Node::Clu(c, d, sub) => {
                for (n, o) in copies(&c.name, d) {
                    flat_nodes(sub, &format!("{prefix}{n}_"), base + c.address_offset + o, out)
                }
            }
            Node::Reg(r, d, fs) => {
                for (n, o) in copies(&r.name, d) {
                    let e = out.entry((base + r.address_offset + o, format!("{prefix}{n}"))).or_default();
                    for f in fs {
                        for (n, o) in copies(&f.info.name, &f.dim) {
                            e.insert((f.info.bit_range.offset + o, f.info.bit_range.width, n));
                        }
                    }
                }
            }
        }
    }
}
fn flat(dev: &Device) -> Res<Flat> {
    let mut m = Flat::new();
    for p in resolve(dev)? {
        for (n, o) in copies(&p.info.name, &p.dim) {
            flat_nodes(&p.nodes, "", 0, m.entry((n, p.info.base_address + o as u64)).or_default());
        }
    }
    Ok(m)
}
fn table(head: &[&str], devs: &[String], rows: impl Iterator<Item = (Row, Vec<bool>)>) -> Vec<String> {
    let mut o = Out(vec![]);
    for h in head.iter().copied().chain(devs.iter().map(|d| d.as_str())) {
        o.cell("th", 1, false);
        o.w(h);
    }
    for ((cells, link), has) in rows {
        for (i, c) in cells.iter().enumerate() {
            o.cell("td", 1, false);
            if let (0, Some(l)) = (i, &link) {
                o.href(l, false);
            }
            o.w(c);
        }
        for h in has {
            o.t(if h { "<td 1 -#ccffcc>" } else { "<td 1 -#ffcccc>" }.into());
            o.w(if h { "&#10004;" } else { "&#10008;" });
        }
    }
    o.0
}
/// kind "compare": {svds: {file: text}}
pub fn h_compare(c: &Case) -> Outcome {
    let d = fresh();
    write_tree(&d, &c.input["svds"]);
    let files: Vec<&String> = c.input["svds"].as_object().unwrap().keys().collect();
    let mut args = vec!["htmlcompare", "up/out"];
    args.extend(files.iter().map(|s| s.as_str()));
    let r = cli(&d, &args);
    let mut o = Outcome { transitions: 1, ..Default::default() };
    let (mut names, mut devs) = (vec![], vec![]);
    for f in &files {
        let text = std::fs::read_to_string(d.join(f)).unwrap();
        let dev = svd_parser::parse_with_config(&text, &svd_parser::Config::default().ignore_enums(true)).map_err(|e| format!("{e:?}"));
        match dev.and_then(|dev| oracle(&c.input, || flat(&dev)).map(|f| (dev.name, f))) {
            Ok((n, f)) => {
                names.push(n);
                devs.push(f);
            }
            Err(e) => {
                if r.ok() {
                    return Outcome::fail(format!("succeeded although {e}\n{text}"));
                }
                o.class = "refused".into();
                return o;
            }
        }
    }
    if !r.ok() {
        return Outcome::fail(format!("failed: {}\n{}", r.err, c.input));
    }
    let mut want = std::collections::BTreeMap::new();
    let pers: std::collections::BTreeSet<_> = devs.iter().flat_map(|d| d.keys().cloned()).collect();
    want.insert(
        "index.html".to_string(),
        table(
            &["Peripheral", "Address"],
            &names,
            pers.iter().map(|p| {
                let b = format!("0x{:08X}", p.1);
                ((vec![p.0.clone(), b.clone()], Some(format!("{}_{b}.html", p.0))), devs.iter().map(|d| d.contains_key(p)).collect())
            }),
        ),
    );
    for p in &pers {
        let base = format!("{}_0x{:08X}", p.0, p.1);
        let regs: std::collections::BTreeSet<_> = devs.iter().filter_map(|d| d.get(p)).flat_map(|m| m.keys().cloned()).collect();
        want.insert(
            format!("{base}.html"),
            table(
                &["Register", "Offset"],
                &names,
                regs.iter().map(|r| {
                    let off = format!("0x{:04X}", r.0);
                    ((vec![r.1.clone(), off.clone()], Some(format!("{base}_{}_{off}.html", r.1))), devs.iter().map(|d| d.get(p).is_some_and(|m| m.contains_key(r))).collect())
                }),
            ),
        );
        for r in &regs {
            let fs: std::collections::BTreeSet<_> = devs.iter().filter_map(|d| d.get(p)?.get(r)).flatten().cloned().collect();
            want.insert(
                format!("{base}_{}_0x{:04X}.html", r.1, r.0),
                table(
                    &["Field", "Offset", "Width"],
                    &names,
                    fs.iter().map(|f| {
                        ((vec![f.2.clone(), f.0.to_string(), f.1.to_string()], None), devs.iter().map(|d| d.get(p).and_then(|m| m.get(r)).is_some_and(|s| s.contains(f))).collect())
                    }),
                ),
            );
        }
    }
    let got = snapshot(&d.join("up/out"));
    if got.keys().ne(want.keys()) {
        return Outcome::fail(format!("{}\nexpected pages {:?}\nactual pages {:?}", c.input, want.keys(), got.keys()));
    }
    for (n, w) in &want {
        let g = tokens(&String::from_utf8_lossy(&got[n]), "<table", "</table>");
        if let Some(e) = differ(n, w, &g) {
            return Outcome::fail(format!("{}\n{e}", c.input));
        }
        o.states.push(fnv(g.join(" ").as_bytes()));
    }
    o.nontrivial = pers.len() > 1;
    o.class = format!("{} devices", devs.len());
    o
}
pub fn html_compare(ctx: &Ctx) {
    let mut cases = vec![];
    let mut put = |v: &[&String]| {
        // names that differ only after a dot, only in the directory, or at the start
        let kind = cases.len() % 3;
        let m: Map<String, Value> = v.iter().enumerate().map(|(i, s)| ([format!("dev.{i}.svd"), format!("{i}/dev.svd"), format!("{i}.svd")][kind].clone(), json!(s))).collect();
        cases.push(Case::new("compare", json!({"svds": m})));
    };
    // variants of one small device that differ in one place
    let f = |n: &str, o: u32, w: u32| fld(n, o, w, "");
    let r = |n: &str, o: u64, f: &str| reg(n, o).fields(f).x();
    let a = r("A", 0, &(f("F", 0, 1) + &f("G", 1, 2)));
    let b = r("B", 4, &f("F", 0, 1));
    let base = |x: &str| named(&dev(&per("P", 0x40, "", x)), "D1");
    let mut vars = vec![
        base(&(a.clone() + &b)),
        named(&base(&(b.clone() + &a)), "D2"),
        base(&a),
        base(&r("A", 0, &f("F", 0, 1))),
        base(&r("A", 0, &(f("F", 0, 2) + &f("G", 2, 2)))),
        base(&r("A", 0, &(f("F", 3, 1) + &f("G", 1, 2)))),
        base(&r("A", 8, &(f("F", 0, 1) + &f("G", 1, 2)))),
        base(&r("C", 0, &(f("F", 0, 1) + &f("G", 1, 2)))),
        base(""),
        named(&dev(&per("P", 0x80, "", &a)), "D3"),
        named(&dev(&per("Q", 0x40, "", &a)), "D3"),
        dev(&(per("P", 0x40, "", &a) + &per_from("Q", "P", 0x80, ""))),
        dev(&(per_from("Q", "P", 0x80, "") + &per("P", 0x40, "", &a) + &per_from("P2", "Q", 0x1_0000_0040, ""))),
        base(&reg("A%s", 0).dim(dim(3, 4, Some("A,B,C"))).fields(&(fldd(&dim(2, 3, None), "F%s", None, 0, 2, ""))).x()),
        base(&reg("A[%s]", 0).dim(dim(3, 4, None)).fields(&f("F", 0, 1)).x()),
        base(&clu("", "A", 0, &r("A", 0, &f("F", 0, 1)))),
        base(&clu(&dim(2, 0x10, None), "C%s", 0x20, &(a.clone() + &clu("", "In", 8, &b) + &reg("Z%s", 12).dim(dim(2, 1, None)).x()))),
        base(&(clu("", "C", 0x20, &a) + &clu("", "E", 0x40, "").replacen("<cluster>", "<cluster derivedFrom=\"C\">", 1))),
        base(&(a.clone() + &reg("B", 4).from("A").x() + &reg("C", 8).from("B").fields(&derived_field("P.A.F", "H", 5, 1, "")).x())),
        dev(&per("P%s", 0x40, "", &a).replace("<peripheral>", &format!("<peripheral>{}", dim(2, 0x40, Some("1,2"))))),
        dev(&(per("P", 0x80, "", &a) + &per("P", 0x40, "", &b))),
        base(&r("A", 0, &(f("F", 0, 1) + &f("F", 4, 1) + &f("G", 10, 22)))),
    ];
    // names that differ in case
    vars.push(base(&(r("a", 0, &(f("f", 0, 1) + &f("Gg", 1, 2))) + &b)));
    vars.push(dev(&per("p", 0x40, "", &r("Ab", 0, &f("f", 0, 1)))));
    vars.dedup();
    for x in &vars {
        put(&[x]);
        for y in &vars {
            put(&[x, y]);
            if ctx.thorough {
                for z in &vars {
                    put(&[x, y, z]);
                }
            } else {
                put(&[x, &vars[0], y]);
            }
        }
    }
    let c = common();
    for x in c.iter().chain(inherited(ctx).iter()) {
        put(&[x]);
        put(&[x, &vars[0]]);
        put(&[&vars[16], x]);
    }
    // large devices that differ in one place
    let w = crate::spaces7::wide();
    for (a, b) in [
        ("", ""),
        ("<name>CH10</name>", "<name>CH99</name>"),
        ("<name>GPIOC</name>", "<name>GPIOZ</name>"),
        ("<name>PIN15</name>", "<name>PIN16</name>"),
        ("<name>L3</name>", "<name>L9</name>"),
        ("<dim>12</dim>", "<dim>11</dim>"),
        ("<bitOffset>15</bitOffset>", "<bitOffset>14</bitOffset>"),
        ("derivedFrom=\"UART2\"", "derivedFrom=\"UART12\""),
        ("<baseAddress>1342177280</baseAddress>", "<baseAddress>1342177281</baseAddress>"),
    ] {
        assert!(w.contains(a), "{a}");
        let x = if a.is_empty() { w.clone() } else { named(&w.replacen(a, b, 1), "OTHER") };
        put(&[&w, &x]);
        put(&[&x, &vars[0], &w]);
    }
    for bad in ["".to_string(), "<device>".into()] {
        put(&[&bad]);
        put(&[&vars[0], &bad]);
        put(&[&bad, &vars[0]]);
    }
    ctx.note("sets of devices", cases.len());
    ctx.run(cases.into_iter());
}

// ------------------------------------------------------------------ regeneration
fn stamp(p: &std::path::Path, t: i64) {
    use std::os::unix::ffi::OsStrExt;
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    let ts = libc::timespec { tv_sec: t, tv_nsec: 0 };
    assert_eq!(unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), [ts, ts].as_ptr(), 0) }, 0);
}
fn mtime(p: &std::path::Path) -> Option<(i64, i64)> {
    use std::os::unix::fs::MetadataExt;
    std::fs::metadata(p).ok().map(|m| (m.mtime(), m.mtime_nsec()))
}
fn version(dev: usize, v: usize) -> String {
    let f: String = (0..=v).map(|k| fld(&format!("F{k}"), k as u32, 1, if k == 1 { "<access>read-only</access>" } else { "" })).collect();
    named(&one(&reg(["A", "B"][dev], 0).fields(&f).x()), ["DA", "db"][dev])
}
/// kind "regen": {layout, ops: ["e0", ..]}
/// e/o/s: edit with a new, an old, the page's time; t: new time; d: delete the page;
/// h0/h1/hb: run with the first, the second, both devices
pub fn h_regen(c: &Case) -> Outcome {
    let d = fresh();
    let (dir, html) = match c.input["layout"].as_str().unwrap() {
        "apart" => ("", "out"),
        "inside" => ("out/", "out"),
        "same" => ("", "."),
        "around" => ("out/../out/", "out"),
        _ => ("sub/", "out"),
    };
    std::fs::create_dir_all(d.join("out")).unwrap();
    std::fs::create_dir_all(d.join("sub")).unwrap();
    let out = d.join(html);
    let svd = |i: usize| d.join(dir).join(format!("{i}.svd"));
    let page_of = |i: usize| out.join(["DA.html", "db.html"][i]);
    let t0 = 1_500_000_000i64;
    let (mut ver, mut time) = ([0usize; 2], [t0; 2]);
    let mut pages: [Option<(usize, i64)>; 2] = [None; 2];
    // version of the copy beside the page
    let mut copy: [Option<usize>; 2] = [None; 2];
    let inside = std::fs::canonicalize(d.join(dir)).ok() == std::fs::canonicalize(&out).ok();
    for i in 0..2 {
        std::fs::write(svd(i), version(i, 0)).unwrap();
        stamp(&svd(i), t0);
    }
    let mut o = Outcome { class: c.input["layout"].as_str().unwrap().into(), ..Default::default() };
    let mut runs = 0;
    for (step, op) in c.input["ops"].as_array().unwrap().iter().enumerate() {
        let op = op.as_str().unwrap();
        let now = t0 + 100 * (step as i64 + 1);
        let i = if op.ends_with('1') { 1 } else { 0 };
        match &op[..1] {
            "e" | "o" | "s" | "t" => {
                if &op[..1] != "t" {
                    ver[i] = (ver[i] + 1) % 4;
                    std::fs::write(svd(i), version(i, ver[i])).unwrap();
                }
                time[i] = match &op[..1] {
                    "o" => t0 - 1000,
                    "s" => pages[i].map(|p| p.1).unwrap_or(t0),
                    _ => now,
                };
                stamp(&svd(i), time[i]);
            }
            "d" => {
                let _ = std::fs::remove_file(page_of(i));
                pages[i] = None;
            }
            _ => {
                let given: Vec<usize> = if op == "hb" { vec![1, 0] } else { vec![i] };
                let names: Vec<String> = given.iter().map(|i| format!("{dir}{i}.svd")).collect();
                let mut args = vec!["html", html, "nothing.svd"];
                args.extend(names.iter().map(|s| s.as_str()));
                args.push("sub");
                let r = cli(&d, &args);
                runs += 1;
                let e = |m: String| Outcome::fail(format!("{} after step {step}: {m}\n{}", c.input, r.err));
                if !r.ok() {
                    return e("failed".into());
                }
                for k in 0..2 {
                    if std::fs::read_to_string(svd(k)).ok() != Some(version(k, ver[k])) {
                        return e(format!("the input {k}.svd was changed"));
                    }
                    if mtime(&svd(k)) != Some((time[k], 0)) {
                        return e(format!("the input {k}.svd was written"));
                    }
                    let due = given.contains(&k) && pages[k].is_none_or(|p| p.1 < time[k]);
                    let written = mtime(&page_of(k)).is_some_and(|m| Some(m) != pages[k].map(|p| (p.1, 0)));
                    if due != written {
                        return e(format!("page {k} is {}written", if written { "" } else { "not " }));
                    }
                    if due {
                        pages[k] = Some((ver[k], now));
                        stamp(&page_of(k), now);
                        copy[k] = Some(ver[k]);
                    }
                    let got = std::fs::read_to_string(page_of(k)).ok().map(|t| tokens(&t, "Overall:", "<script"));
                    let want = pages[k].map(|p| oracle(&c.input, || page(&html_device(&version(k, p.0)).unwrap()).unwrap()).tokens);
                    if got.is_some() != want.is_some() {
                        return e(format!("page {k} exists: {}", got.is_some()));
                    }
                    if let (Some(g), Some(w)) = (&got, &want) {
                        if let Some(x) = differ("page", w, g) {
                            return e(format!("page {k}: {x}"));
                        }
                        o.states.push(fnv(g.join(" ").as_bytes()));
                    }
                    if !inside {
                        let g = std::fs::read_to_string(out.join(format!("{k}.svd"))).ok();
                        if g != copy[k].map(|v| version(k, v)) {
                            return e(format!("the copy of {k}.svd is {g:?}"));
                        }
                    }
                }
                let counts: Vec<_> = given.iter().map(|k| (["DA", "db"][*k].to_string(), page(&html_device(&version(*k, ver[*k])).unwrap()).unwrap().count)).collect();
                let got = tokens(&std::fs::read_to_string(out.join("index.html")).unwrap_or_default(), "Available Devices", "<script");
                if let Some(x) = differ("index.html", &index_tokens(&counts), &got) {
                    return e(x);
                }
            }
        }
    }
    o.transitions = runs;
    o.nontrivial = runs > 1;
    o
}
pub fn html_regenerate(ctx: &Ctx) {
    let mut cases = vec![];
    let both = ["e0", "o0", "s0", "t0", "d0", "e1", "d1", "h0", "h1", "hb"];
    let single = ["e0", "o0", "s0", "t0", "d0", "h0"];
    let mut put = |layout: &str, ops: &[&str], n: usize| {
        for m in 0..ops.len().pow(n as u32) {
            let mut k = m;
            let mut v: Vec<&str> = (0..n)
                .map(|_| {
                    let o = ops[k % ops.len()];
                    k /= ops.len();
                    o
                })
                .collect();
            v.push("hb");
            cases.push(Case::new("regen", json!({"layout": layout, "ops": v})));
        }
    };
    put("apart", &both, ctx.tier(3, 4));
    put("apart", &single, ctx.tier(4, 6));
    for l in ["inside", "same", "around", "sub"] {
        put(l, &single, ctx.tier(3, 4));
        put(l, &both, ctx.tier(2, 3));
    }
    ctx.note("histories", cases.len());
    ctx.run(cases.into_iter());
}
