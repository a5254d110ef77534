//! The command line of `patch`: paths and options.
use crate::engine::*;
use crate::files::*;
use crate::patchx::*;
use crate::spaces2::product;
use crate::svd::*;
use serde_json::{json, Map, Value};

/// kind "patchcli": {files, cwd, yaml, svd, out, args, to, ed, fmt, strict, show}
/// `yaml` and `svd` are relative to the tree, `to` is the expected output file
pub fn h_patchcli(c: &Case) -> Outcome {
    let d = fresh().canonicalize().unwrap();
    let i = &c.input;
    let s = |k: &str| i[k].as_str().unwrap_or("");
    let base = d.to_string_lossy().to_string();
    // absolute paths are written with @ in the space
    let mut files = i["files"].clone();
    for (_, v) in files.as_object_mut().unwrap() {
        if let Value::String(t) = v {
            *t = t.replace("@@", &base);
        }
    }
    write_tree(&d, &files);
    std::fs::create_dir_all(d.join(s("cwd"))).unwrap();
    let args: Vec<String> = i["args"].as_array().unwrap().iter().map(|a| a.as_str().unwrap().replace("@@", &base)).collect();
    let args: Vec<&str> = args.iter().map(|a| a.as_str()).collect();
    let want: Result<String, String> = oracle(i, || {
        let mut inc = Includes { files: &files, read: Default::default() };
        let doc = inc.load(s("yaml"))?;
        let svd = svd_text(files[s("svd")].as_str().ok_or("no device")?);
        let (dev, _) = model_patch(&svd, &doc, &cfg_of(&json!({"ed": i["ed"]})))?;
        if i["post"] == true && i["strict"] == true {
            return Err("invalid in strict mode".into());
        }
        let mut e = svd_encoder::Config::default();
        for p in i["fmt"].as_array().into_iter().flatten() {
            e.update(p[0].as_str().unwrap(), p[1].as_str().unwrap());
        }
        svd_encoder::encode_with_config(&dev, &e).map_err(|e| e.to_string())
    });
    let old = d.join(s("to"));
    if !old.exists() && fnv(i.to_string().as_bytes()) % 2 == 0 {
        let _ = std::fs::write(&old, "left over\n".repeat(20_000));
    }
    let before = snapshot(&d);
    let r = cli(&d.join(s("cwd")), &args);
    let mut after = snapshot(&d);
    let what = format!("{}\n{}", i["args"], i["files"]);
    let mut o = Outcome { transitions: 1, nontrivial: true, ..Default::default() };
    match (want, r.ok()) {
        (Err(e), true) => return Outcome::fail(format!("accepted what must fail ({e})\n{what}")),
        (Ok(_), false) => return Outcome::fail(format!("failed: {}\n{what}", r.err)),
        (Err(_), false) => {
            if before != after || r.err.trim().is_empty() {
                return Outcome::fail(format!("failed, but wrote a file or no message\n{what}"));
            }
            o.class = "rejected".into();
            if i["show"] == true && i["post"] != true {
                // the complete patch is shown, every line of it in order
                let x = cli(&d.join(s("cwd")), &["expand-patch", args[1]]);
                let mut lines = r.err.lines().map(|l| l.trim());
                if !x.ok() || x.out.lines().count() < 2 {
                    return Outcome::fail(format!("expand-patch failed\n{what}"));
                }
                for l in x.out.trim().lines() {
                    if !lines.any(|m| m.trim() == l.trim()) {
                        return Outcome::fail(format!("the message does not show `{l}`\n{}\n{what}", r.err));
                    }
                }
                o.class = "rejected, shown".into();
            }
        }
        (Ok(w), true) => {
            let to = s("to");
            let Some(t) = after.remove(to) else {
                return Outcome::fail(format!("{to} is not written but {:?}\n{what}", after.keys().filter(|k| !before.contains_key(*k)).collect::<Vec<_>>()));
            };
            let mut before = before;
            before.remove(to);
            if before != after {
                return Outcome::fail(format!("changed other files than {to}\n{what}"));
            }
            let t = String::from_utf8_lossy(&t).to_string();
            let same = if i["fmt"].is_array() { t.trim_end() == w.trim_end() } else { same_device(&t, &w) };
            if !same {
                return Outcome::fail(format!("{}\n{what}", first_diff(&w, &t)));
            }
            o.class = "written".into();
            o.states.push(fnv(t.as_bytes()));
        }
    }
    o
}

pub fn patch_command(ctx: &Ctx) {
    let svd = dev(&format!(
        "{}{}{}",
        per("PA", 0x1000, &int("I", 1, "i"), &format!("{}{}{}", reg("A1", 0).fields(&(fld("F1", 0, 2, "") + &fld("F2", 2, 2, "") + &fld("F3", 4, 2, ""))).x(), reg("A2", 4).fields(&(fld("F1", 0, 2, "") + &fld("G", 2, 2, "<access>read-only</access>"))).x(), reg("A3", 8).fields(&fld("F1", 3, 2, "")).x())),
        per("PB", 0x2000, "", &reg("A1", 0).fields(&fld("F1", 0, 2, "")).x()),
        per_from("PC", "PA", 0x3000, "")
    ));
    let mut cases = vec![];
    // where the files are, and where the command is called
    let rels = [("", "", "in.svd"), ("", "sub", "sub/in.svd"), ("p", "", "../in.svd"), ("p", "p", "in.svd"), ("p", "p", "./x/../in.svd"), ("p/q", "r", "../../r/in.svd"), ("p", "r", "@@/r/in.svd")];
    let names = ["in.svd", "in.xml", "a.b.svd", "plain", "in.SVD", "in v.svd", "x.svd.patched", ".svd", "d.v1", "in.svd.xml"];
    for (yd, sd, rel) in rels {
        for n in names {
            let at = |d: &str, f: &str| if d.is_empty() { f.to_string() } else { format!("{d}/{f}") };
            let (yaml, sp) = (at(yd, "m.yaml"), at(sd, n));
            for (cwd, up) in [("", ""), ("p", "../"), ("w/x", "../../")] {
                for (out, to) in [(None, format!("{sp}.patched")), (Some("o.svd"), at(cwd, "o.svd")), (Some("o.txt"), at(cwd, "o.txt")), (Some("@@/r/o"), "r/o".to_string()), (Some("../o.svd"), String::new())] {
                    if out == Some("../o.svd") && cwd != "p" {
                        continue;
                    }
                    let to = if to.is_empty() { "o.svd".to_string() } else { to };
                    for abs in [false, true] {
                        let mut f = Map::new();
                        f.insert(yaml.clone(), json!(format!("_svd: '{}'\nPA: {{_delete: A3}}\n", rel.replace("in.svd", n))));
                        f.insert(sp.clone(), json!(svd));
                        // another device of the same name where the command is called must not be taken
                        for other in [at(cwd, n), n.to_string()] {
                            f.entry(other).or_insert(json!("not a device"));
                        }
                        for dir in ["p/x", "r"] {
                            f.insert(format!("{dir}/keep"), json!("k"));
                        }
                        let y = if abs { format!("@@/{yaml}") } else { format!("{up}{yaml}") };
                        let mut a = vec!["patch".to_string(), y];
                        a.extend(out.map(|s| s.to_string()));
                        cases.push(Case::new("patchcli", json!({"files": f, "cwd": cwd, "yaml": yaml, "svd": sp, "args": a, "to": to})));
                    }
                }
            }
        }
    }
    let paths = cases.len();
    // every combination of the options
    let docs: &[(&str, &str, bool)] = &[
        ("PA: {A1: {'F*': {V: [0, v], W: [1, w]}}}", "", false),
        ("PA: {'A*': {F1: {V: [0, v], W: [1, w]}}}", "", false),
        ("PA: {'A*': {'F*': {_read: {V: [0, v]}, _write: {W: [1, w]}}}}", "", false),
        ("'P[AB]': {A1: {F1: {V: [0, v]}}}", "", false),
        ("PA: {A2: {G: {V: [0, v]}}, A1: {'F?': [0, 3]}}", "", false),
        ("_include: [a.yaml]\nPA: {_modify: {A1: {description: x}}}", "PA: {'A*': {'F*': {V: [3, v]}}}", false),
        ("_include: [a.yaml]\nPA: {_modify: {A1: {description: x}}}", "PA: {NOPE: {F: [0, 1]}}", false),
        ("PA: {NOPE: {F1: {V: [0, 'v w']}}}", "", false),
        ("PA: {_modify: {A3: {name: 'not a name'}}}", "", true),
        ("PA: {'A*': {'F*': {V: [4, v]}}}", "", true),
        ("PA: {_modify: {A1: {size: 8, resetValue: 0x100}}}", "", true),
        ("PB: {A1: {_delete: F1}}", "", true),
        ("_modify: {PC: {name: PD}}", "", false),
        ("", "", false),
    ];
    let fmts: [&[(&str, &str)]; 5] = [&[], &[("register_name", "Snake")], &[("field_bit_range", "BitRange"), ("peripheral_base_address", "Dec")], &[("register_name", "odd")], &[("peripheral_sorting", "Name"), ("field_name", "Snake")]];
    let eds = [None, Some("none"), Some("enum"), Some("field"), Some("odd")];
    for (doc, inc, strict) in docs {
        for v in product(&[eds.len(), fmts.len(), 2, 2, 2]) {
            let (ed, fmt, post, show, first) = (eds[v[0]], fmts[v[1]], v[2] == 1, v[3] == 1, v[4] == 1);
            let mut f = Map::new();
            f.insert("m.yaml".into(), json!(format!("_svd: in.svd\n{doc}\n")));
            f.insert("in.svd".into(), json!(svd));
            if !inc.is_empty() {
                f.insert("a.yaml".into(), json!(format!("{inc}\n")));
            }
            let mut a: Vec<String> = vec![];
            if let Some(e) = ed {
                a.extend(["--enum-derive".to_string(), e.to_string()]);
            }
            if !fmt.is_empty() {
                f.insert("c.yaml".into(), json!(fmt.iter().map(|(k, v)| format!("{k}: {v}\n")).collect::<String>()));
                a.extend(["--format-config".to_string(), "c.yaml".to_string()]);
            }
            if post {
                a.push("--post-validate".into());
            }
            if show {
                a.push("--show-patch-on-error".into());
            }
            let pos = ["m.yaml".to_string(), "o.svd".to_string()];
            let a: Vec<String> = if first { std::iter::once("patch".to_string()).chain(a).chain(pos).collect() } else { std::iter::once("patch".to_string()).chain(pos).chain(a).collect() };
            if first && show && fmt.is_empty() && ed.is_none() && !post {
                continue;
            }
            let bad = ed == Some("odd") || fmt.contains(&("register_name", "odd"));
            if bad && !doc.is_empty() {
                continue;
            }
            let mut i = json!({"files": f, "cwd": "", "yaml": "m.yaml", "svd": "in.svd", "args": a, "to": "o.svd", "ed": ed, "post": post, "strict": strict, "show": show && !first});
            if !fmt.is_empty() {
                i["fmt"] = json!(fmt.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>());
            }
            if bad {
                i["yaml"] = json!("missing.yaml");
                i["show"] = json!(false);
            }
            cases.push(Case::new("patchcli", i));
        }
    }
    ctx.note("path arrangements", paths);
    ctx.note("option combinations", cases.len() - paths);
    ctx.run(cases.into_iter());
}
