//! Running the command line program on a small file tree, and the reference
//! semantics of `_include`.
use crate::engine::*;
use crate::glob::R;
use crate::model::{as_hash, as_str, list};
use serde_json::Value;
use std::collections::BTreeMap;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use yaml_rust::yaml::Hash;
use yaml_rust::{Yaml, YamlLoader};

pub fn cli_path() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("svdtools-cli")
}

pub struct Run {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}
impl Run {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
}

fn exec(cmd: &mut Command) -> Run {
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let o = cmd.stdin(Stdio::null()).output().expect("svdtools-cli");
    Run {
        code: o.status.code(),
        out: String::from_utf8_lossy(&o.stdout).into(),
        err: String::from_utf8_lossy(&o.stderr).into(),
    }
}
pub fn command(dir: &Path, args: &[&str]) -> Command {
    let mut c = Command::new(cli_path());
    c.args(args).current_dir(dir).env_remove("RUST_LOG").env("RUST_BACKTRACE", "0").env("RAYON_NUM_THREADS", "1");
    c
}
pub fn cli(dir: &Path, args: &[&str]) -> Run {
    exec(&mut command(dir, args))
}
/// standard output goes to `to`
pub fn cli_to(dir: &Path, args: &[&str], to: &str) -> Run {
    let f = std::fs::OpenOptions::new().write(true).open(to).unwrap();
    let mut c = command(dir, args);
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let o = c.stdin(Stdio::null()).stdout(f).stderr(Stdio::piped()).spawn().unwrap().wait_with_output().unwrap();
    Run { code: o.status.code(), out: String::new(), err: String::from_utf8_lossy(&o.stderr).into() }
}

/// an empty directory of this thread
pub fn fresh() -> PathBuf {
    let d = thread_dir().join("w");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// entries: text | {"link": target} | {"dir": true} | {"bytes": [..]}
pub fn write_tree(dir: &Path, files: &Value) {
    for (n, v) in files.as_object().unwrap() {
        let p = dir.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        match v {
            Value::String(t) => std::fs::write(&p, crate::patchx::svd_text(t)).unwrap(),
            _ if v["link"].is_string() => std::os::unix::fs::symlink(v["link"].as_str().unwrap(), &p).unwrap(),
            _ if v["bytes"].is_array() => {
                let b: Vec<u8> = v["bytes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                std::fs::write(&p, b).unwrap()
            }
            _ => std::fs::create_dir_all(&p).unwrap(),
        }
    }
}

/// every file below `dir` with its content (links are followed)
pub fn snapshot(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    fn go(base: &Path, d: &Path, m: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).unwrap().flatten() {
            let p = e.path();
            if p.is_dir() {
                go(base, &p, m);
            } else {
                m.insert(p.strip_prefix(base).unwrap().to_string_lossy().into(), std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    let mut m = BTreeMap::new();
    go(dir, dir, &mut m);
    m
}

// ------------------------------------------------------------------ includes

pub struct Includes<'a> {
    pub files: &'a Value,
    /// every YAML file read apart from the root
    pub read: std::collections::BTreeSet<String>,
}

fn k(s: &str) -> Yaml {
    Yaml::String(s.into())
}

impl Includes<'_> {
    fn resolve(&self, from: &str, rel: &str) -> R<String> {
        let mut parts: Vec<&str> = if rel.starts_with('/') { vec![] } else { from.split('/').collect() };
        parts.pop();
        for c in rel.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    parts.pop().ok_or("outside")?;
                }
                c => parts.push(c),
            }
        }
        let mut p = parts.join("/");
        for _ in 0..4 {
            match &self.files[&p] {
                Value::String(_) => return Ok(p),
                v if v["link"].is_string() => {
                    let mut q: Vec<&str> = p.split('/').collect();
                    q.pop();
                    let t = v["link"].as_str().unwrap().to_string();
                    for c in t.split('/') {
                        match c {
                            ".." => drop(q.pop()),
                            c => q.push(c),
                        }
                    }
                    p = q.join("/");
                }
                _ => break,
            }
        }
        Err(format!("no file {p}"))
    }
    fn first_doc(&self, p: &str) -> R<Option<Yaml>> {
        let real = if self.files[p].is_string() { p.to_string() } else { self.resolve(p, p.rsplit('/').next().unwrap())? };
        let t = self.files[&real].as_str().ok_or("no file")?;
        Ok(YamlLoader::load_from_str(t).map_err(|e| e.to_string())?.into_iter().next())
    }
    /// the document with every include merged in
    pub fn load(&mut self, root: &str) -> R<Yaml> {
        let mut d = self.first_doc(root)?.ok_or("empty")?;
        let Yaml::Hash(h) = &mut d else { return Err("not a map".into()) };
        self.expand(h, root, &mut vec![root.to_string()])?;
        Ok(d)
    }
    fn expand(&mut self, h: &mut Hash, me: &str, chain: &mut Vec<String>) -> R<Vec<String>> {
        let mut done = vec![];
        for (key, v) in h.iter_mut() {
            if !as_str(key)?.starts_with('_') {
                if let Yaml::Hash(p) = v {
                    if p.contains_key(&k("_include")) {
                        done.extend(self.expand(p, me, chain)?);
                    }
                }
            }
        }
        let names: Vec<String> = list(h, "_include")?.iter().map(|s| s.to_string()).collect();
        for n in names {
            let p = self.resolve(me, &n)?;
            if done.contains(&p) {
                continue;
            }
            if chain.contains(&p) {
                return Err("circular include".into());
            }
            done.push(p.clone());
            self.read.insert(p.clone());
            let Some(mut d) = self.first_doc(&p)? else { continue };
            let Yaml::Hash(c) = &mut d else { return Err("not a map".into()) };
            chain.push(p.clone());
            let more = self.expand(c, &p, chain)?;
            chain.pop();
            done.extend(more);
            merge(h, c)?;
        }
        h.remove(&k("_include"));
        Ok(done)
    }
}

/// `theirs` added to `ours`, which wins
pub fn merge(ours: &mut Hash, theirs: &Hash) -> R<()> {
    for (key, v) in theirs {
        if *key == k("_path") || *key == k("_include") {
            continue;
        }
        let Some(mine) = ours.get_mut(key) else {
            ours.insert(key.clone(), v.clone());
            continue;
        };
        if mine == v {
            continue;
        }
        match (&mut *mine, v) {
            (Yaml::Array(a), Yaml::Array(b)) => a.extend(b.iter().cloned()),
            (Yaml::Array(a), Yaml::String(_)) => {
                if !a.contains(v) {
                    a.push(v.clone())
                }
            }
            (Yaml::String(_), Yaml::Array(b)) => {
                let mut all = b.clone();
                if !all.contains(mine) {
                    all.insert(0, mine.clone());
                }
                *mine = Yaml::Array(all);
            }
            (Yaml::Hash(h), v) => merge(h, as_hash(v)?)?,
            _ => {}
        }
    }
    Ok(())
}

/// the same document without what loading adds to it
pub fn without_paths(y: &Yaml) -> Yaml {
    match y {
        Yaml::Hash(h) => {
            Yaml::Hash(h.iter().filter(|(n, _)| **n != k("_path")).map(|(n, v)| (n.clone(), without_paths(v))).collect())
        }
        Yaml::Array(a) => Yaml::Array(a.iter().map(without_paths).collect()),
        y => y.clone(),
    }
}
