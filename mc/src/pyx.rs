//! The Python implementation: a worker process per thread.
use crate::engine::*;
use crate::files::{write_tree, Includes};
use crate::model::{self, Cfg};
use crate::patchx::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Py(Child, ChildStdin, BufReader<ChildStdout>);
impl Drop for Py {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
thread_local! {
    static PY: RefCell<Option<Py>> = const { RefCell::new(None) };
}
fn python() -> String {
    let own = "/opt/vp/pyvenv/bin/python";
    if std::path::Path::new(own).exists() { own.into() } else { "python3".into() }
}
fn start() -> Py {
    let mut c = Command::new(python());
    let repo = std::env::var("MC_REPO").unwrap_or("/repo".into());
    c.args(["-B", "-I"]).arg(crate::verif_dir().join("mc/py/worker.py")).arg(repo);
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut c = c.spawn().expect("python");
    let (i, o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
    Py(c, i, o)
}
/// call the main function of a tool; an exception is an error
pub fn py(tool: &str, args: Value) -> Result<Value, String> {
    PY.with(|p| {
        let mut p = p.borrow_mut();
        let w = p.get_or_insert_with(start);
        writeln!(w.1, "{}", json!({"tool": tool, "args": args})).expect("python worker");
        let mut l = String::new();
        w.2.read_line(&mut l).expect("python worker");
        let Ok(v) = serde_json::from_str::<Value>(&l) else {
            // the module cannot be loaded, or the interpreter died
            *p = None;
            return Err("the Python process ended".into());
        };
        match v.get("err") {
            Some(e) => Err(e.as_str().unwrap_or("").into()),
            None => Ok(v["ok"].clone()),
        }
    })
}
/// what only the Rust implementation refuses
const LENIENT: &[&str] = &["different widths", "no field to modify", "nothing to modify", "no register to modify", "split needs exactly one field", "usage incompatible", "exactly once", "texts differ", "WriteConstraint error", "irregular", "outside increment"];
/// kind "pypatch": {svd, doc} or {svd, files}
pub fn h_pypatch(c: &Case) -> Outcome {
    let d = crate::files::fresh();
    let svd = svd_text(c.input["svd"].as_str().unwrap());
    let files = &c.input["files"];
    let text = if files.is_null() { c.input["doc"].as_str().unwrap() } else { files["main.yaml"].as_str().unwrap() };
    let doc = if files.is_null() { Ok(load(text).expect("alphabet")) } else { oracle(&c.input, || Includes { files, read: Default::default() }.load("main.yaml")) };
    if !files.is_null() {
        write_tree(&d, files);
    }
    // values of different kinds are not merged
    let Ok(doc) = doc else { return Outcome { class: "stricter".into(), ..Default::default() } };
    std::fs::write(d.join("d.svd"), &svd).unwrap();
    let with = match text.strip_prefix('{') {
        Some("}") => "{_svd: d.svd}".to_string(),
        Some(t) => format!("{{_svd: d.svd, {t}"),
        None => format!("_svd: d.svd\n{text}"),
    };
    std::fs::write(d.join("p.yaml"), with).unwrap();
    // one in eight through the command line
    let r = if fnv(c.input.to_string().as_bytes()) % 8 == 0 { py("cli", json!(["patch", d.join("p.yaml")])) } else { py("patch", json!([d.join("p.yaml")])) };
    let want = guarded(|| {
        let mut dev = parse_lax(&svd)?;
        model::patch(&mut dev, &doc, &Cfg { enum_derive: model::EnumDerive::Enum, update_fields: true })?;
        let x = encode(&dev)?;
        Ok(x)
    });
    let mut o = Outcome { transitions: 1, ..Default::default() };
    match (want, r) {
        (Err(_), Err(_)) => o.class = "rejected".into(),
        (Err(e), Ok(_)) if LENIENT.iter().any(|l| e.contains(l)) => o.class = "stricter".into(),
        (Err(e), Ok(_)) => return Outcome::fail(format!("accepted a patch that must be rejected ({e})\n{text}")),
        (Ok(_), Err(e)) => return Outcome::fail(format!("rejected a valid patch: {e}\n{text}")),
        (Ok(w), Ok(_)) => {
            let got = std::fs::read_to_string(d.join("d.svd.patched")).unwrap_or_default();
            let g = match parse_lax(&got) {
                Ok(g) => encode(&g).unwrap_or_else(|e| e),
                Err(e) => return Outcome::fail(format!("unreadable result: {e}\n{text}\n{got}")),
            };
            if normal(&w) != normal(&g) {
                return Outcome::fail(format!("{text}\n{}", first_diff(&normal(&w), &normal(&g))));
            }
            o.states.push(fnv(g.as_bytes()));
            o.class = if parse_lax(&svd).and_then(|d| encode(&d)).unwrap_or_default() == g { "unchanged" } else { "changed" }.into();
            o.nontrivial = o.class == "changed";
        }
    }
    o
}

/// independent of the order of elements and of what is the default anyway
fn normal(xml: &str) -> String {
    use svd_parser::svd::{ModifiedWriteValues, RegisterCluster, Usage};
    fn go(v: &mut [RegisterCluster]) {
        for k in v.iter_mut() {
            match k {
                RegisterCluster::Register(r) => {
                    if let Some(fs) = &mut r.fields {
                        fs.sort_by_key(|f| (f.name.clone(), f.bit_range.offset));
                        for f in fs.iter_mut() {
                            if f.modified_write_values == Some(ModifiedWriteValues::Modify) {
                                f.modified_write_values = None;
                            }
                            f.enumerated_values.sort_by_key(|e| (e.derived_from.clone(), e.name.clone()));
                        }
                        for e in fs.iter_mut().flat_map(|f| f.enumerated_values.iter_mut()) {
                            if e.derived_from.is_none() {
                                e.usage.get_or_insert(Usage::ReadWrite);
                            } else {
                                // that of the origin
                                e.usage = None;
                            }
                            e.values.sort_by_key(|v| (v.value, v.name.clone()));
                        }
                    }
                }
                RegisterCluster::Cluster(c) => go(&mut c.children),
            }
        }
        v.sort_by_key(|k| match k {
            RegisterCluster::Register(r) => (1, r.name.clone(), r.address_offset),
            RegisterCluster::Cluster(c) => (0, c.name.clone(), c.address_offset),
        });
    }
    let mut d = canonical(parse_lax(xml).unwrap());
    for p in &mut d.peripherals {
        p.interrupt.sort_by_key(|i| (i.value, i.name.clone()));
        if let Some(v) = &mut p.registers {
            go(v);
        }
    }
    d.peripherals.sort_by_key(|p| p.name.clone());
    encode(&d).unwrap_or_else(|e| e)
}
