//! Independent resolution of `derivedFrom`: the tree of peripherals, clusters,
//! registers and fields with everything they inherit.
use crate::spaces5::elements;
use svd_parser::svd::{
    Cluster, ClusterInfo, DeriveFrom, Device, DimElement, EnumeratedValues, Field, FieldInfo, MaybeArray, Peripheral, PeripheralInfo, Register,
    RegisterCluster, RegisterInfo,
};

pub type Res<T> = Result<T, String>;
type Path = Vec<String>;

pub struct RField {
    pub info: FieldInfo,
    pub dim: Option<DimElement>,
    /// sets of enumerated values, with the values they are derived from
    pub enums: Vec<EnumeratedValues>,
}
pub enum Node {
    Reg(RegisterInfo, Option<DimElement>, Vec<RField>),
    Clu(ClusterInfo, Option<DimElement>, Vec<Node>),
}
pub struct RPer {
    pub info: PeripheralInfo,
    pub dim: Option<DimElement>,
    pub nodes: Vec<Node>,
}

fn split<T: Clone>(m: &MaybeArray<T>) -> (T, Option<DimElement>) {
    match m {
        MaybeArray::Single(i) => (i.clone(), None),
        MaybeArray::Array(i, d) => (i.clone(), Some(d.clone())),
    }
}
fn called<T: svd_parser::svd::Name>(m: &MaybeArray<T>, name: &str) -> bool {
    use svd_parser::svd::Name;
    m.name() == name
        || match m {
            MaybeArray::Array(i, d) => elements(i.name(), &None, d).iter().any(|e| e.1 == name),
            _ => false,
        }
}

struct Doc<'a>(&'a Device);

impl<'a> Doc<'a> {
    fn per(&self, name: &str) -> Option<&'a Peripheral> {
        self.0.peripherals.iter().find(|p| called(p, name))
    }
    /// what is written inside the peripheral or cluster at `path`
    fn block(&self, path: &[String]) -> Option<&'a [RegisterCluster]> {
        let mut b: &[RegisterCluster] = self.per(path.first()?)?.registers.as_deref().unwrap_or(&[]);
        for n in &path[1..] {
            b = &self.clu(b, n)?.children;
        }
        Some(b)
    }
    fn clu<'b>(&self, b: &'b [RegisterCluster], name: &str) -> Option<&'b Cluster> {
        b.iter().find_map(|x| match x {
            RegisterCluster::Cluster(c) if called(c, name) => Some(c),
            _ => None,
        })
    }
    fn reg<'b>(&self, b: &'b [RegisterCluster], name: &str) -> Option<&'b Register> {
        b.iter().find_map(|x| match x {
            RegisterCluster::Register(r) if called(r, name) => Some(r),
            _ => None,
        })
    }
    /// the path a reference denotes when written in the block or register `here`
    fn target(&self, from: &str, here: &[String]) -> (Path, String) {
        let mut v: Path = from.split('.').map(String::from).collect();
        let n = v.pop().unwrap();
        (if v.is_empty() { here.to_vec() } else { v }, n)
    }
    fn at(path: &[String], name: &str) -> Path {
        path.iter().cloned().chain([name.to_string()]).collect()
    }

    fn peripheral(&self, p: &Peripheral) -> Res<RPer> {
        let mut m = p.clone();
        let mut home = p.name.clone();
        let mut seen = vec![p.name.clone()];
        let mut from = p.derived_from.clone();
        while let Some(f) = from {
            if seen.contains(&f) {
                return Err(format!("circular {f}"));
            }
            seen.push(f.clone());
            let s = self.per(&f).ok_or(format!("no peripheral {f}"))?;
            if m.registers.is_none() {
                home = f;
            }
            m = m.derive_from(s);
            from = s.derived_from.clone();
        }
        let (info, dim) = split(&m);
        let nodes = self.nodes(info.registers.as_deref().unwrap_or(&[]), &[home])?;
        Ok(RPer { info, dim, nodes })
    }
    fn nodes(&self, b: &[RegisterCluster], here: &[String]) -> Res<Vec<Node>> {
        b.iter()
            .map(|x| match x {
                RegisterCluster::Register(r) => self.register(r, here),
                RegisterCluster::Cluster(c) => self.cluster(c, here),
            })
            .collect()
    }
    fn cluster(&self, c: &Cluster, here: &[String]) -> Res<Node> {
        let mut m = c.clone();
        let mut home = Self::at(here, &c.name);
        let mut seen = vec![home.clone()];
        let mut from = c.derived_from.clone().map(|f| self.target(&f, here));
        while let Some((b, n)) = from {
            let path = Self::at(&b, &n);
            if seen.contains(&path) {
                return Err(format!("circular {path:?}"));
            }
            seen.push(path.clone());
            let s = self.block(&b).and_then(|x| self.clu(x, &n)).ok_or(format!("no cluster {path:?}"))?;
            if m.children.is_empty() {
                home = path;
            }
            m = m.derive_from(s);
            from = s.derived_from.clone().map(|f| self.target(&f, &b));
        }
        let (info, dim) = split(&m);
        let nodes = self.nodes(&info.children, &home)?;
        Ok(Node::Clu(info, dim, nodes))
    }
    fn register(&self, r: &Register, here: &[String]) -> Res<Node> {
        let mut m = r.clone();
        let mut home = Self::at(here, &r.name);
        let mut seen = vec![home.clone()];
        let mut from = r.derived_from.clone().map(|f| self.target(&f, here));
        while let Some((b, n)) = from {
            let path = Self::at(&b, &n);
            if seen.contains(&path) {
                return Err(format!("circular {path:?}"));
            }
            seen.push(path.clone());
            let s = self.block(&b).and_then(|x| self.reg(x, &n)).ok_or(format!("no register {path:?}"))?;
            if m.fields.is_none() {
                home = path;
            }
            m = m.derive_from(s);
            from = s.derived_from.clone().map(|f| self.target(&f, &b));
        }
        let (info, dim) = split(&m);
        let fields = info.fields.iter().flatten().map(|f| self.field(f, &home)).collect::<Res<Vec<_>>>()?;
        Ok(Node::Reg(info, dim, fields))
    }
    fn find_reg(&self, path: &[String]) -> Option<&'a Register> {
        let (n, b) = path.split_last()?;
        self.reg(self.block(b)?, n)
    }
    fn field(&self, f: &Field, here: &[String]) -> Res<RField> {
        let mut m = f.clone();
        let mut home = Self::at(here, &f.name);
        let mut seen = vec![home.clone()];
        let mut from = f.derived_from.clone().map(|f| self.target(&f, here));
        while let Some((r, n)) = from {
            let path = Self::at(&r, &n);
            if seen.contains(&path) {
                return Err(format!("circular {path:?}"));
            }
            seen.push(path.clone());
            let s = self.find_reg(&r).and_then(|x| x.fields().find(|x| called(x, &n))).ok_or(format!("no field {path:?}"))?;
            if m.enumerated_values.is_empty() {
                home = path;
            }
            m = m.derive_from(s);
            from = s.derived_from.clone().map(|f| self.target(&f, &r));
        }
        let (info, dim) = split(&m);
        let enums = info.enumerated_values.iter().map(|e| self.enums(e, &home)).collect::<Res<Vec<_>>>()?;
        Ok(RField { info, dim, enums })
    }
    /// values of the set `e` written in the field at `field`
    fn enums(&self, e: &EnumeratedValues, field: &[String]) -> Res<EnumeratedValues> {
        let mut m = e.clone();
        let mut here = field.to_vec();
        let mut from = e.derived_from.clone();
        let mut fuel = 20;
        while let Some(t) = from {
            fuel -= 1;
            if fuel == 0 {
                return Err("circular".into());
            }
            let mut v: Path = t.split('.').map(String::from).collect();
            let name = v.pop().unwrap();
            let reg = &here[..here.len() - 1];
            let named = |f: &Field| f.enumerated_values.iter().find(|e| e.name.as_deref() == Some(&name)).cloned();
            let (s, at) = if v.is_empty() {
                let r = self.find_reg(reg).ok_or(format!("no register {reg:?}"))?;
                r.fields().find_map(|f| named(f).map(|e| (e, Self::at(reg, &f.name)))).ok_or(format!("no values {t}"))?
            } else {
                let path: Path = match v.len() {
                    1 => Self::at(reg, &v[0]),
                    2 => reg[..reg.len() - 1].iter().chain(&v).cloned().collect(),
                    _ => v,
                };
                let (n, r) = path.split_last().unwrap();
                let f = self.find_reg(r).and_then(|x| x.fields().find(|x| called(x, n))).ok_or(format!("no field {path:?}"))?;
                (named(f).ok_or(format!("no values {t}"))?, path)
            };
            m = m.derive_from(&s);
            from = s.derived_from.clone();
            here = at;
        }
        Ok(m)
    }
}

pub fn resolve(dev: &Device) -> Res<Vec<RPer>> {
    let d = Doc(dev);
    dev.peripherals.iter().map(|p| d.peripheral(p)).collect()
}

/// What a program sees of a device: for every register, with arrays written
/// out, its absolute address, the properties it has or inherits and its
/// fields.  Names play no part.
pub fn effective(dev: &Device) -> Res<Vec<String>> {
    use svd_parser::svd::RegisterProperties as P;
    fn under(own: P, outer: P) -> P {
        let mut p = own;
        p.size = p.size.or(outer.size);
        p.access = p.access.or(outer.access);
        p.protection = p.protection.or(outer.protection);
        p.reset_value = p.reset_value.or(outer.reset_value);
        p.reset_mask = p.reset_mask.or(outer.reset_mask);
        p
    }
    fn steps(d: &Option<DimElement>) -> Vec<u64> {
        d.as_ref().map_or(vec![0], |d| (0..d.dim as u64).map(|i| i * d.dim_increment as u64).collect())
    }
    fn walk(base: u64, outer: P, nodes: &[Node], out: &mut Vec<String>) {
        for n in nodes {
            match n {
                Node::Clu(c, d, kids) => {
                    for s in steps(d) {
                        walk(base + c.address_offset as u64 + s, under(c.default_register_properties, outer), kids, out);
                    }
                }
                Node::Reg(r, d, fields) => {
                    let p = under(r.properties, outer);
                    let mut fs = vec![];
                    for f in fields {
                        for s in steps(&f.dim) {
                            let e: Vec<String> = f
                                .enums
                                .iter()
                                .map(|e| {
                                    let mut v: Vec<_> = e.values.iter().map(|v| format!("{}={:?}{:?}", v.name, v.value, v.is_default)).collect();
                                    v.sort();
                                    format!("{:?}{v:?}", e.usage)
                                })
                                .collect();
                            fs.push(format!(
                                "{}+{} {:?} {:?} {:?} {:?} {e:?}",
                                f.info.bit_range.offset as u64 + s,
                                f.info.bit_range.width,
                                f.info.access.or(p.access),
                                f.info.modified_write_values.or(r.modified_write_values),
                                f.info.read_action.or(r.read_action),
                                f.info.write_constraint
                            ));
                        }
                    }
                    fs.sort();
                    for s in steps(d) {
                        out.push(format!(
                            "{:#x} {:?} {:?} {:?} {:?} {:?} {:?} {fs:?}",
                            base + r.address_offset as u64 + s,
                            p.size,
                            p.access,
                            p.protection,
                            p.reset_value,
                            p.reset_mask,
                            r.write_constraint
                        ));
                    }
                }
            }
        }
    }
    let mut out = vec![];
    for p in resolve(dev)? {
        for s in steps(&p.dim) {
            walk(p.info.base_address + s, under(p.info.default_register_properties, dev.default_register_properties), &p.nodes, &mut out);
        }
    }
    out.sort();
    Ok(out)
}
