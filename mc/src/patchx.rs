//! Executing one patch on the real code and on the reference interpreter.
use crate::engine::*;
use crate::model::{self, Cfg, EnumDerive};
use serde_json::{json, Value};
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};
use svd_parser::svd::{Device, ValidateLevel};
use yaml_rust::{Yaml, YamlLoader};

pub fn fixture(n: &str) -> &'static str {
    match n {
        "dev" => include_str!("../fixtures/dev.svd"),
        "nest" => include_str!("../fixtures/nest.svd"),
        "chain" => include_str!("../fixtures/chain.svd"),
        "full" => include_str!("../fixtures/full.svd"),
        "wide" => {
            static W: std::sync::OnceLock<String> = std::sync::OnceLock::new();
            W.get_or_init(crate::spaces7::wide)
        }
        _ => panic!("no fixture {n}"),
    }
}
pub fn svd_text(s: &str) -> String {
    match s.strip_prefix('@') {
        Some(n) => fixture(n).to_string(),
        None => s.to_string(),
    }
}

pub fn parse_lax(xml: &str) -> Result<Device, String> {
    svd_parser::parse_with_config(xml, &svd_parser::Config::default().validate_level(ValidateLevel::Disabled))
        .map_err(|e| e.to_string())
}
pub fn encode(dev: &Device) -> Result<String, String> {
    svd_encoder::encode(dev).map_err(|e| format!("{e:?}"))
}

pub fn cfg_of(v: &Value) -> Cfg {
    Cfg {
        enum_derive: match v["ed"].as_str() {
            Some("field") => EnumDerive::Field,
            Some("none") => EnumDerive::None,
            _ => EnumDerive::Enum,
        },
        update_fields: v["uf"].as_bool().unwrap_or(true),
    }
}
pub fn real_cfg(c: &Cfg) -> svdtools::patch::Config {
    let mut r = svdtools::patch::Config::default();
    r.enum_derive = match c.enum_derive {
        EnumDerive::Enum => svdtools::patch::EnumAutoDerive::Enum,
        EnumDerive::Field => svdtools::patch::EnumAutoDerive::Field,
        EnumDerive::None => svdtools::patch::EnumAutoDerive::None,
    };
    r.update_fields = c.update_fields;
    r
}

/// run `f`, a panic of the code under test being an error like any other
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(format!(
            "panic: {}",
            e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
}
/// run the oracle; its own panics are defects of this harness
pub fn oracle<T>(what: &Value, f: impl FnOnce() -> T) -> T {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            eprintln!(
                "oracle panicked: {:?} on {what}",
                e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()))
            );
            std::process::exit(3)
        }
    }
}

pub fn real_patch(svd: &str, doc: &Yaml, cfg: &Cfg) -> Result<String, String> {
    guarded(|| {
        let mut r = svdtools::patch::process_reader(
            svd.as_bytes(),
            doc,
            &svdtools::patch::EncoderConfig::default(),
            &real_cfg(cfg),
        )
        .map_err(|e| format!("{e:#}"))?;
        let mut s = String::new();
        r.read_to_string(&mut s).map_err(|e| e.to_string())?;
        Ok(s)
    })
}

/// reference result; when it cannot be written down as XML that counts as an error too
pub fn model_patch(svd: &str, doc: &Yaml, cfg: &Cfg) -> Result<(Device, String), String> {
    let mut dev = parse_lax(svd)?;
    model::patch(&mut dev, doc, cfg)?;
    let x = encode(&dev)?;
    Ok((dev, x))
}

/// equal as documents, or at least equal as device descriptions
pub fn same_device(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    match (parse_lax(a), parse_lax(b)) {
        (Ok(a), Ok(b)) => canonical(a) == canonical(b),
        _ => false,
    }
}

/// the notation of a bit range is not part of its meaning
pub fn canonical(mut d: Device) -> Device {
    use svd_parser::svd::{BitRange, RegisterCluster};
    fn go(v: &mut [RegisterCluster]) {
        for k in v {
            match k {
                RegisterCluster::Register(r) => {
                    for f in r.fields.iter_mut().flatten() {
                        f.bit_range = BitRange::from_offset_width(f.bit_range.offset, f.bit_range.width);
                    }
                }
                RegisterCluster::Cluster(c) => go(&mut c.children),
            }
        }
    }
    for p in &mut d.peripherals {
        if let Some(v) = &mut p.registers {
            go(v);
        }
    }
    d
}

pub fn first_diff(a: &str, b: &str) -> String {
    let (x, y): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    let mut s = String::new();
    for i in 0..x.len().max(y.len()) {
        if x.get(i) != y.get(i) {
            let from = i.saturating_sub(3);
            for l in &x[from..i] {
                s += &format!("    {l}\n");
            }
            for k in i..(i + 4) {
                s += &format!(" expected {}\n", x.get(k).unwrap_or(&"<end>"));
            }
            for k in i..(i + 4) {
                s += &format!(" actual   {}\n", y.get(k).unwrap_or(&"<end>"));
            }
            break;
        }
    }
    s
}

pub fn load(doc: &str) -> Option<Yaml> {
    YamlLoader::load_from_str(doc).ok()?.into_iter().next()
}

/// combinations that do not repeat a key
pub fn loadable(mut d: Vec<String>) -> Vec<String> {
    d.retain(|x| load(x).is_some());
    d
}

pub fn h_patch(c: &Case) -> Outcome {
    let svd = svd_text(c.input["svd"].as_str().unwrap());
    let text = c.input["doc"].as_str().unwrap();
    let Some(doc) = load(text) else {
        eprintln!("bad yaml in the alphabet:\n{text}");
        std::process::exit(3)
    };
    let cfg = cfg_of(&c.input["cfg"]);
    let real = real_patch(&svd, &doc, &cfg);
    // the encoder panics on some results; that is a refusal like any other
    let want = guarded(|| model_patch(&svd, &doc, &cfg));
    let mut o = Outcome { transitions: 1, ..Default::default() };
    match (want, real) {
        (Err(e), Err(_)) => {
            o.class = "rejected".into();
            if c.input["expect"] == "ok" {
                eprintln!("alphabet: expected success, got {e}\n{text}");
                std::process::exit(3)
            }
        }
        (Err(e), Ok(_)) => {
            return Outcome::fail(format!("accepted a patch that must be rejected ({e})\n{text}"));
        }
        (Ok(_), Err(e)) => return Outcome::fail(format!("rejected a valid patch: {e}\n{text}")),
        (Ok((_, w)), Ok(r)) => {
            if !same_device(&w, &r) {
                return Outcome::fail(format!("{text}\n{}", first_diff(&w, &r)));
            }
            let before = parse_lax(&svd).and_then(|d| encode(&d)).unwrap_or_default();
            o.states.push(fnv(r.as_bytes()));
            o.nontrivial = before != r;
            o.class = if before == r { "unchanged" } else { "changed" }.into();
            o.next = Some(r);
        }
    }
    o
}

pub fn case(svd: &str, doc: &str, cfg: &Value) -> Case {
    Case::new("patch", json!({"svd": svd, "doc": doc, "cfg": cfg}))
}

/// Breadth-first exploration: every document of the alphabet applied in every
/// state reachable by fewer than `depth` documents.
pub fn bfs(ctx: &Ctx, roots: &[&str], alphabet: &[String], depth: usize, cfg: &Value) {
    let mut seen = std::collections::HashSet::new();
    let mut frontier: Vec<String> = vec![];
    for r in roots {
        let x = encode(&parse_lax(&svd_text(r)).expect("fixture")).expect("fixture");
        seen.insert(fnv(x.as_bytes()));
        frontier.push(r.to_string());
    }
    let mut levels = vec![];
    for level in 0..depth {
        levels.push(frontier.len());
        let f = &frontier;
        let next = ctx.run(f.iter().flat_map(|s| alphabet.iter().map(move |d| case(s, d, cfg))));
        if ctx.failed() || level + 1 == depth {
            break;
        }
        let mut nf = vec![];
        for x in next.into_iter().flatten() {
            if seen.insert(fnv(x.as_bytes())) {
                nf.push(x);
            }
        }
        frontier = nf;
    }
    ctx.note("alphabet", alphabet.len());
    ctx.note("frontier_sizes", json!(levels));
    lifted(ctx, roots, alphabet, cfg);
}

/// The same rules one level deeper: the contents of every peripheral in a cluster, and the rules
/// of a peripheral given for that cluster, in both notations.
pub fn lifted(ctx: &Ctx, roots: &[&str], alphabet: &[String], cfg: &Value) {
    let docs: Vec<String> = alphabet.iter().filter_map(|d| lift_doc(d)).flatten().collect();
    let svds: Vec<String> = roots.iter().filter_map(|r| lift_svd(&svd_text(r))).collect();
    ctx.note("rules_in_a_cluster", docs.len() * svds.len());
    ctx.run(svds.iter().flat_map(|s| docs.iter().map(move |d| case(s, d, cfg))));
}
pub fn lift_svd(s: &str) -> Option<String> {
    if !s.contains("<registers>") {
        return None;
    }
    let t = s
        .replace("<registers>", "<registers><cluster><name>SUB</name><description>sub</description><addressOffset>0</addressOffset>")
        .replace("</registers>", "</cluster></registers>");
    parse_lax(&t).ok().map(|_| t)
}
/// `{PERIPHERAL: RULES}` as `{PERIPHERAL: {SUB: RULES}}` and `{PERIPHERAL: {_clusters: {SUB: RULES}}}`
fn lift_doc(d: &str) -> Option<[String; 2]> {
    let inner = d.strip_prefix('{')?.strip_suffix('}')?;
    let (key, body) = if let Some(r) = inner.strip_prefix('\'') {
        let e = r.find("': ")?;
        (&inner[..e + 2], &r[e + 3..])
    } else {
        inner.split_once(": ")?
    };
    if key.trim_start_matches('\'').starts_with('_') || !body.starts_with('{') {
        return None;
    }
    let (mut depth, mut quoted) = (0, false);
    for (i, c) in body.char_indices() {
        match c {
            '\'' => quoted = !quoted,
            '{' | '[' if !quoted => depth += 1,
            '}' | ']' if !quoted => {
                depth -= 1;
                if depth == 0 && i + 1 != body.len() {
                    return None;
                }
            }
            _ => {}
        }
    }
    Some([format!("{{{key}: {{SUB: {body}}}}}"), format!("{{{key}: {{_clusters: {{SUB: {body}}}}}}}")])
}
