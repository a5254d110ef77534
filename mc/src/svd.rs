//! Small SVD documents written by the spaces.
pub fn dev(peripherals: &str) -> String {
    format!("<device schemaVersion=\"1.3\"><name>D</name><version>1</version><description>d</description><addressUnitBits>8</addressUnitBits><width>32</width><size>32</size><resetValue>0</resetValue><resetMask>0xFFFFFFFF</resetMask><peripherals>{peripherals}</peripherals></device>")
}
/// `body`: registers and clusters; `head`: elements between base address and registers
pub fn per(name: &str, base: u64, head: &str, body: &str) -> String {
    let r = if body.is_empty() { String::new() } else { format!("<registers>{body}</registers>") };
    format!("<peripheral><name>{name}</name><baseAddress>{base}</baseAddress>{head}{r}</peripheral>")
}
pub fn per_from(name: &str, from: &str, base: u64, head: &str) -> String {
    format!("<peripheral derivedFrom=\"{from}\"><name>{name}</name><baseAddress>{base}</baseAddress>{head}</peripheral>")
}
pub fn int(name: &str, v: u32, desc: &str) -> String {
    let d = if desc.is_empty() { String::new() } else { format!("<description>{desc}</description>") };
    format!("<interrupt><name>{name}</name>{d}<value>{v}</value></interrupt>")
}
#[derive(Clone, Default)]
pub struct Reg {
    pub dim: String,
    pub from: String,
    pub name: String,
    pub display: Option<String>,
    pub desc: Option<String>,
    pub altreg: Option<String>,
    pub off: u64,
    /// size, access, reset...
    pub props: String,
    pub fields: String,
    pub nofields: bool,
}
pub fn reg(name: &str, off: u64) -> Reg {
    Reg { name: name.into(), off, nofields: true, ..Default::default() }
}
pub fn tag(t: &str, v: &Option<String>) -> String {
    v.as_ref().map(|v| format!("<{t}>{v}</{t}>")).unwrap_or_default()
}
pub fn dim(n: u32, inc: u32, idx: Option<&str>) -> String {
    format!("<dim>{n}</dim><dimIncrement>{inc}</dimIncrement>{}", tag("dimIndex", &idx.map(String::from)))
}
impl Reg {
    pub fn desc(mut self, d: &str) -> Self {
        self.desc = Some(d.into());
        self
    }
    pub fn display(mut self, d: &str) -> Self {
        self.display = Some(d.into());
        self
    }
    pub fn altreg(mut self, d: &str) -> Self {
        self.altreg = Some(d.into());
        self
    }
    pub fn props(mut self, d: &str) -> Self {
        self.props = d.into();
        self
    }
    pub fn from(mut self, d: &str) -> Self {
        self.from = d.into();
        self
    }
    pub fn dim(mut self, d: String) -> Self {
        self.dim = d;
        self
    }
    pub fn fields(mut self, d: &str) -> Self {
        self.fields = d.into();
        self.nofields = false;
        self
    }
    pub fn x(&self) -> String {
        let f = if self.from.is_empty() { String::new() } else { format!(" derivedFrom=\"{}\"", self.from) };
        let fs = if self.nofields { String::new() } else { format!("<fields>{}</fields>", self.fields) };
        format!(
            "<register{f}>{}<name>{}</name>{}{}{}<addressOffset>{}</addressOffset>{}{fs}</register>",
            self.dim,
            self.name,
            tag("displayName", &self.display),
            tag("description", &self.desc),
            tag("alternateRegister", &self.altreg),
            self.off,
            self.props
        )
    }
}
/// `extra`: access, modifiedWriteValues, writeConstraint, readAction, enumeratedValues
pub fn fld(name: &str, off: u32, w: u32, extra: &str) -> String {
    fldd("", name, Some(&format!("{name} desc")), off, w, extra)
}
pub fn fldd(dim: &str, name: &str, desc: Option<&str>, off: u32, w: u32, extra: &str) -> String {
    format!(
        "<field>{dim}<name>{name}</name>{}<bitOffset>{off}</bitOffset><bitWidth>{w}</bitWidth>{extra}</field>",
        tag("description", &desc.map(String::from))
    )
}
pub fn clu(dim: &str, name: &str, off: u64, body: &str) -> String {
    format!("<cluster>{dim}<name>{name}</name><description>{name} desc</description><addressOffset>{off}</addressOffset>{body}</cluster>")
}
pub fn evs(name: &str, usage: &str, vals: &[(&str, u32)]) -> String {
    let n = if name.is_empty() { String::new() } else { format!("<name>{name}</name>") };
    let u = if usage.is_empty() { String::new() } else { format!("<usage>{usage}</usage>") };
    let v: String = vals
        .iter()
        .map(|(n, v)| format!("<enumeratedValue><name>{n}</name><description>{n} d</description><value>{v}</value></enumeratedValue>"))
        .collect();
    format!("<enumeratedValues>{n}{u}{v}</enumeratedValues>")
}
