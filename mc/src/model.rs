//! Reference interpreter for patch files: the documented meaning of every rule,
//! written over plain `svd_rs` structures.  Used as the oracle of the
//! exploration; shares no code with svdtools.
#![allow(clippy::too_many_arguments)]
use crate::glob::{self, matches, opt, R};
use std::path::Path;
use svd_parser::svd::*;
use yaml_rust::{yaml::Hash, Yaml};

const W: ValidateLevel = ValidateLevel::Weak;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EnumDerive {
    Enum,
    Field,
    None,
}

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub enum_derive: EnumDerive,
    pub update_fields: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { enum_derive: EnumDerive::Enum, update_fields: true }
    }
}

type RC = RegisterCluster;

fn e<T>(s: impl Into<String>) -> R<T> {
    Err(s.into())
}
fn sv<T, E: std::fmt::Display>(r: Result<T, E>) -> R<T> {
    r.map_err(|x| x.to_string())
}

// ---------------------------------------------------------------- YAML access

fn y(k: &str) -> Yaml {
    Yaml::String(k.into())
}
fn get<'a>(h: &'a Hash, k: &str) -> Option<&'a Yaml> {
    h.get(&y(k))
}
pub fn as_str(v: &Yaml) -> R<&str> {
    v.as_str().ok_or(format!("not a string {v:?}"))
}
pub fn as_hash(v: &Yaml) -> R<&Hash> {
    v.as_hash().ok_or(format!("not a hash {v:?}"))
}
/// documented integer notations: decimal, 0x/0X, 0b, # with x as don't-care (0); `_` separators
pub fn int(v: &Yaml) -> R<i64> {
    let t = match v {
        Yaml::Integer(i) => return Ok(*i),
        Yaml::String(t) => t.replace('_', ""),
        _ => return e("not an integer"),
    };
    let (radix, digits) = if let Some(d) = t.strip_prefix("0x").or(t.strip_prefix("0X")) {
        (16, d.to_string())
    } else if let Some(d) = t.strip_prefix('#') {
        (2, d.replace(['x', 'X'], "0"))
    } else if let Some(d) = t.strip_prefix("0b") {
        (2, d.replace('x', "0"))
    } else {
        (10, t.clone())
    };
    i64::from_str_radix(&digits, radix).map_err(|_| format!("bad integer {t}"))
}
pub fn boolean(v: &Yaml) -> R<bool> {
    match v {
        Yaml::Boolean(b) => Ok(*b),
        Yaml::Integer(0) => Ok(false),
        Yaml::Integer(1) => Ok(true),
        Yaml::String(s) if s == "true" || s == "True" => Ok(true),
        Yaml::String(s) if s == "false" || s == "False" => Ok(false),
        _ => e("not a bool"),
    }
}
fn gs<'a>(h: &'a Hash, k: &str) -> R<Option<&'a str>> {
    get(h, k).map(as_str).transpose()
}
fn gstr(h: &Hash, k: &str) -> R<Option<String>> {
    Ok(gs(h, k)?.map(String::from))
}
fn gi(h: &Hash, k: &str) -> R<Option<i64>> {
    get(h, k).map(int).transpose()
}
/// a number of an attribute that has 32 bits
fn u32of(v: &Yaml) -> R<u32> {
    u32::try_from(int(v)?).map_err(|_| "does not fit 32 bits".into())
}
fn gu(h: &Hash, k: &str) -> R<Option<u32>> {
    get(h, k).map(u32of).transpose()
}
fn gb(h: &Hash, k: &str) -> R<Option<bool>> {
    get(h, k).map(boolean).transpose()
}
fn gh<'a>(h: &'a Hash, k: &str) -> R<Option<&'a Hash>> {
    get(h, k).map(as_hash).transpose()
}
/// pairs under `k` when it is a hash
fn pairs<'a>(h: &'a Hash, k: &str) -> R<Vec<(&'a str, &'a Yaml)>> {
    match get(h, k) {
        Some(Yaml::Hash(h)) => h.iter().map(|(k, v)| Ok((as_str(k)?, v))).collect(),
        _ => Ok(vec![]),
    }
}
/// string or list of strings under `k`
pub fn list<'a>(h: &'a Hash, k: &str) -> R<Vec<&'a str>> {
    match get(h, k) {
        None => Ok(vec![]),
        Some(Yaml::String(s)) => Ok(vec![s]),
        Some(Yaml::Array(a)) => a.iter().map(as_str).collect(),
        _ => e(format!("{k} must be string or list")),
    }
}

// ---------------------------------------------------------------- paths

/// `P.C1.C2` plus optional register
#[derive(Clone)]
struct Path_ {
    blocks: Vec<String>,
    reg: Option<String>,
}
impl Path_ {
    fn block(name: &str) -> Self {
        Path_ { blocks: vec![name.into()], reg: None }
    }
    fn sub(&self, name: &str) -> Self {
        let mut p = self.clone();
        p.blocks.push(name.into());
        p
    }
    fn register(&self, name: &str) -> Self {
        Path_ { blocks: self.blocks.clone(), reg: Some(name.into()) }
    }
    fn interp(&self, s: &str) -> String {
        let bp = self.blocks.join(".");
        let mut s = s.replace("`peripheral`", &self.blocks[0]).replace("`block_path`", &bp);
        if let Some(r) = &self.reg {
            s = s.replace("`register`", r).replace("`register_path`", &format!("{bp}.{r}"));
        }
        s
    }
}
fn interp(p: Option<&Path_>, s: Option<&str>) -> Option<String> {
    s.map(|s| match p {
        Some(p) => p.interp(s),
        None => s.into(),
    })
}

// ---------------------------------------------------------------- element descriptions

fn props(h: &Hash) -> R<RegisterProperties> {
    let mut p = RegisterProperties::new();
    p.size = gu(h, "size")?;
    p.access = gs(h, "access")?.and_then(Access::parse_str);
    p.protection = gs(h, "protection")?.and_then(Protection::parse_str);
    p.reset_value = gi(h, "resetValue")?.map(|v| v as u64);
    p.reset_mask = gi(h, "resetMask")?.map(|v| v as u64);
    Ok(p)
}

/// outer None: key absent; inner None: "none"
fn wconstraint(h: &Hash) -> R<Option<Option<WriteConstraint>>> {
    let Some(v) = get(h, "_write_constraint").or(get(h, "writeConstraint")) else {
        return Ok(None);
    };
    Ok(Some(match v {
        Yaml::String(s) if s == "none" => None,
        Yaml::String(s) if s == "enum" => Some(WriteConstraint::UseEnumeratedValues(true)),
        Yaml::Array(a) if a.len() >= 2 => Some(range(&a[0], &a[1])?),
        _ => return e("bad writeConstraint"),
    }))
}
fn range(a: &Yaml, b: &Yaml) -> R<WriteConstraint> {
    Ok(WriteConstraint::Range(WriteConstraintRange { min: int(a)? as u64, max: int(b)? as u64 }))
}

fn dim_of(h: &Hash) -> R<Option<svd_rs::DimElementBuilder>> {
    let keys = ["dim", "dimIncrement", "dimIndex", "dimName", "dimArrayIndex"];
    if !keys.iter().any(|k| get(h, k).is_some()) {
        return Ok(None);
    }
    let mut d = DimElement::builder();
    d = d.dim_index(match get(h, "dimIndex") {
        None => None,
        Some(Yaml::String(s)) => Some(DimElement::parse_indexes(s).ok_or("dimIndex")?),
        Some(Yaml::Array(a)) => {
            Some(a.iter().map(|s| s.as_str().map(String::from).ok_or("dimIndex".to_string())).collect::<R<Vec<_>>>()?)
        }
        _ => return e("dimIndex"),
    });
    d = d.dim_name(gstr(h, "dimName")?);
    if let Some(a) = gh(h, "dimArrayIndex")? {
        let mut values = vec![];
        for (n, v) in a {
            as_str(n)?;
            if let Some(v) = v.as_vec() {
                if v.len() < 2 {
                    return e("dimArrayIndex entry");
                }
                values.push(sv(EnumeratedValue::builder()
                    .value(Some(int(&v[0])? as u64))
                    .description(Some(as_str(&v[1])?.into()))
                    .build(W))?);
            }
        }
        d = d.dim_array_index(Some(svd_rs::DimArrayIndex { header_enum_name: gstr(a, "headerEnumName")?, values }));
    }
    if let Some(v) = gu(h, "dim")? {
        d = d.dim(v);
    }
    if let Some(v) = gu(h, "dimIncrement")? {
        d = d.dim_increment(v);
    }
    Ok(Some(d))
}

fn set_dim<T: Clone>(t: &mut MaybeArray<T>, d: &Option<svd_rs::DimElementBuilder>) -> R<()> {
    if let Some(d) = d {
        match t {
            MaybeArray::Array(_, x) => sv(x.modify_from(d.clone(), W))?,
            MaybeArray::Single(i) => *t = MaybeArray::Array(i.clone(), sv(d.clone().build(W))?),
        }
    }
    Ok(())
}
fn with_dim<T>(i: T, d: Option<svd_rs::DimElementBuilder>) -> R<MaybeArray<T>> {
    Ok(match d {
        Some(d) => MaybeArray::Array(i, sv(d.build(W))?),
        None => MaybeArray::Single(i),
    })
}

fn field_of(h: &Hash, p: Option<&Path_>) -> R<svd_rs::field::FieldInfoBuilder> {
    let mut f = FieldInfo::builder()
        .description(interp(p, gs(h, "description")?))
        .derived_from(interp(p, gs(h, "derivedFrom")?))
        .access(gs(h, "access")?.and_then(Access::parse_str))
        .modified_write_values(gs(h, "modifiedWriteValues")?.and_then(ModifiedWriteValues::parse_str))
        .read_action(gs(h, "readAction")?.and_then(ReadAction::parse_str))
        .write_constraint(wconstraint(h)?.flatten());
    if let Some(n) = gs(h, "name")? {
        f = f.name(n.into());
    }
    let (msb, lsb) = (gu(h, "msb")?, gu(h, "lsb")?);
    if let (Some(m), Some(l)) = (msb, lsb) {
        f = f.bit_range(BitRange::from_msb_lsb(m, l));
    } else if let Some(b) = gs(h, "bitRange")?.and_then(BitRange::from_bit_range) {
        f = f.bit_range(b);
    } else {
        if let Some(o) = gu(h, "bitOffset")? {
            f = f.bit_offset(o);
        }
        if let Some(w) = gu(h, "bitWidth")? {
            f = f.bit_width(w);
        }
    }
    Ok(f)
}

fn register_of(h: &Hash, p: Option<&Path_>) -> R<svd_rs::register::RegisterInfoBuilder> {
    let fields = match gh(h, "fields")? {
        None => None,
        Some(fs) => {
            let mut v = vec![];
            for (n, d) in fs {
                let d = as_hash(d)?;
                let f = sv(field_of(d, None)?.name(as_str(n)?.into()).build(W))?;
                v.push(with_dim(f, dim_of(d)?)?);
            }
            Some(v)
        }
    };
    let mut r = RegisterInfo::builder()
        .display_name(gstr(h, "displayName")?)
        .description(interp(p, gs(h, "description")?))
        .derived_from(interp(p, gs(h, "derivedFrom")?))
        .alternate_group(gstr(h, "alternateGroup")?)
        .alternate_register(gstr(h, "alternateRegister")?)
        .properties(props(h)?)
        .datatype(gs(h, "dataType")?.and_then(DataType::parse_str))
        .modified_write_values(gs(h, "modifiedWriteValues")?.and_then(ModifiedWriteValues::parse_str))
        .read_action(gs(h, "readAction")?.and_then(ReadAction::parse_str))
        .write_constraint(wconstraint(h)?.flatten())
        .fields(fields);
    if let Some(n) = gs(h, "name")? {
        r = r.name(n.into());
    }
    if let Some(a) = gu(h, "addressOffset")? {
        r = r.address_offset(a);
    }
    Ok(r)
}

fn registers_of(h: &Hash) -> R<Option<Vec<RC>>> {
    let Some(rs) = gh(h, "registers")? else { return Ok(None) };
    let mut v = vec![];
    for (n, d) in rs {
        let d = as_hash(d)?;
        let r = sv(register_of(d, None)?.name(as_str(n)?.into()).build(W))?;
        v.push(RC::Register(with_dim(r, dim_of(d)?)?));
    }
    Ok(Some(v))
}

fn cluster_of(h: &Hash, p: Option<&Path_>) -> R<svd_rs::cluster::ClusterInfoBuilder> {
    let mut c = ClusterInfo::builder()
        .description(interp(p, gs(h, "description")?))
        .derived_from(interp(p, gs(h, "derivedFrom")?))
        .alternate_cluster(gstr(h, "alternateCluster")?)
        .header_struct_name(gstr(h, "headerStructName")?)
        .default_register_properties(props(h)?);
    if let Some(v) = registers_of(h)? {
        c = c.children(v);
    }
    if let Some(n) = gs(h, "name")? {
        c = c.name(n.into());
    }
    if let Some(a) = gu(h, "addressOffset")? {
        c = c.address_offset(a);
    }
    Ok(c)
}

fn interrupt_of(h: &Hash) -> R<svd_rs::interrupt::InterruptBuilder> {
    let mut i = Interrupt::builder().description(gstr(h, "description")?);
    if let Some(n) = gstr(h, "name")? {
        i = i.name(n);
    }
    if let Some(v) = gu(h, "value")? {
        i = i.value(v);
    }
    Ok(i)
}

fn ablock_of(h: &Hash) -> R<svd_rs::addressblock::AddressBlockBuilder> {
    let mut a = AddressBlock::builder();
    if let Some(v) = gu(h, "offset")? {
        a = a.offset(v);
    }
    if let Some(v) = gu(h, "size")? {
        a = a.size(v);
    }
    if let Some(u) = gs(h, "usage")?.and_then(AddressBlockUsage::parse_str) {
        a = a.usage(u);
    }
    a = a.protection(gs(h, "protection")?.and_then(Protection::parse_str));
    Ok(a)
}
fn ablocks_of(v: &[Yaml]) -> R<Vec<AddressBlock>> {
    v.iter().map(|b| sv(ablock_of(as_hash(b)?)?.build(W))).collect()
}

fn peripheral_of(h: &Hash, modify: bool) -> R<svd_rs::peripheral::PeripheralInfoBuilder> {
    let mut ints = None;
    if !modify {
        if let Some(hh) = gh(h, "interrupts")? {
            let mut v = vec![];
            for (n, d) in hh {
                v.push(sv(interrupt_of(as_hash(d)?)?.name(as_str(n)?.into()).build(W))?);
            }
            ints = Some(v);
        }
    }
    let mut p = PeripheralInfo::builder()
        .display_name(gstr(h, "displayName")?)
        .version(gstr(h, "version")?)
        .description(gstr(h, "description")?)
        .group_name(gstr(h, "groupName")?)
        .alternate_peripheral(gstr(h, "alternatePeripheral")?)
        .prepend_to_name(gstr(h, "prependToName")?)
        .append_to_name(gstr(h, "appendToName")?)
        .header_struct_name(gstr(h, "headerStructName")?)
        .interrupt(ints);
    if let Some(n) = gs(h, "name")? {
        p = p.name(n.into());
    }
    if let Some(a) = gi(h, "baseAddress")? {
        p = p.base_address(a as u64);
    }
    p = p.derived_from(gstr(h, "derivedFrom")?);
    p = p.default_register_properties(props(h)?);
    if !modify {
        p = p.address_block(match (get(h, "addressBlock"), get(h, "addressBlocks")) {
            (Some(Yaml::Hash(b)), _) => Some(vec![sv(ablock_of(b)?.build(W))?]),
            (_, Some(Yaml::Array(bs))) => Some(ablocks_of(bs)?),
            _ => None,
        });
    }
    Ok(p.registers(registers_of(h)?))
}

fn cpu_of(h: &Hash) -> R<svd_rs::cpu::CpuBuilder> {
    let mut c = Cpu::builder()
        .fpu_double_precision(gb(h, "fpuDP")?)
        .dsp_present(gb(h, "dspPresent")?)
        .icache_present(gb(h, "icachePresent")?)
        .dcache_present(gb(h, "dcachePresent")?)
        .itcm_present(gb(h, "itcmPresent")?)
        .dtcm_present(gb(h, "dtcmPresent")?)
        .vtor_present(gb(h, "vtorPresent")?)
        .device_num_interrupts(gu(h, "deviceNumInterrupts")?)
        .sau_num_regions(gu(h, "sauNumRegions")?);
    if let Some(v) = gstr(h, "name")? {
        c = c.name(v);
    }
    if let Some(v) = gstr(h, "revision")? {
        c = c.revision(v);
    }
    if let Some(v) = gs(h, "endian")?.and_then(Endian::parse_str) {
        c = c.endian(v);
    }
    if let Some(v) = gb(h, "mpuPresent")? {
        c = c.mpu_present(v);
    }
    if let Some(v) = gb(h, "fpuPresent")? {
        c = c.fpu_present(v);
    }
    if let Some(v) = gu(h, "nvicPrioBits")? {
        c = c.nvic_priority_bits(v);
    }
    if let Some(v) = gb(h, "vendorSystickConfig")? {
        c = c.has_vendor_systick(v);
    }
    Ok(c)
}

/// Where a new element goes: right after the last sibling carrying the highest
/// address not above its own, else in front.
fn insert_pos(addrs: impl Iterator<Item = u64>, new: u64) -> usize {
    let a: Vec<u64> = addrs.collect();
    match a.iter().filter(|x| **x <= new).max() {
        None => 0,
        Some(m) => a.iter().rposition(|x| x == m).unwrap() + 1,
    }
}

// ---------------------------------------------------------------- device

pub fn patch(dev: &mut Device, doc: &Yaml, cfg: &Cfg) -> R<()> {
    let h = as_hash(doc)?;
    for spec in list(h, "_delete")? {
        let mut keep = vec![];
        for p in dev.peripherals.drain(..) {
            if !matches(spec, &p.name)? {
                keep.push(p);
            }
        }
        dev.peripherals = keep;
    }
    for (n, d) in pairs(h, "_copy")? {
        copy_peripheral(dev, n, as_hash(d)?, gs(h, "_path")?.unwrap_or("."))?;
    }
    for (k, v) in pairs(h, "_modify")? {
        modify_device(dev, k, v)?;
    }
    for spec in list(h, "_clear_fields")? {
        for p in &mut dev.peripherals {
            if matches(spec, &p.name)? && p.derived_from.is_none() {
                clear_in(&mut p.registers, "*")?;
            }
        }
    }
    for (n, d) in pairs(h, "_add")? {
        if dev.peripherals.iter().any(|p| p.name == n) {
            return e("duplicate peripheral");
        }
        let d = as_hash(d)?;
        let p = sv(peripheral_of(d, false)?.name(n.into()).build(W))?;
        let p = with_dim(p, dim_of(d)?)?;
        let at = insert_pos(dev.peripherals.iter().map(|p| p.base_address), p.base_address);
        dev.peripherals.insert(at, p);
    }
    for (n, d) in pairs(h, "_derive")? {
        derive_peripheral(dev, n, d)?;
    }
    for (n, d) in pairs(h, "_rebase")? {
        rebase(dev, n, as_str(d)?)?;
    }
    let kw = [
        "_svd", "_include", "_path", "_delete", "_copy", "_modify", "_clear_fields", "_add", "_derive", "_rebase",
    ];
    for (k, v) in h {
        let k = as_str(k)?;
        if kw.contains(&k) {
            continue;
        }
        let v = as_hash(v)?;
        let (spec, optional) = opt(k);
        let mut any = false;
        for p in &mut dev.peripherals {
            if matches(spec, &p.name)? {
                any = true;
                peripheral(p, v, cfg)?;
            }
        }
        if !any && !optional {
            return e(format!("no peripheral {spec}"));
        }
    }
    Ok(())
}

/// a peripheral with everything it takes from its ancestors, own interrupts only
fn inherited(dev: &Device, n: &str) -> Option<Peripheral> {
    let find = |n: &str| dev.peripherals.iter().find(|p| p.name == n);
    let mut p = find(n)?.clone();
    p.derived_from = None;
    for a in ancestors(n, dev.peripherals.iter().map(|p| (&*p.name, p.derived_from.as_deref()))).iter().skip(1) {
        let Some(b) = find(a) else { break };
        let own = std::mem::take(&mut p.interrupt);
        p = p.derive_from(b);
        p.interrupt = own;
    }
    Some(p)
}

fn copy_peripheral(dev: &mut Device, n: &str, d: &Hash, path: &str) -> R<()> {
    let from: Vec<&str> = gs(d, "from")?.ok_or("from missing")?.split(':').collect();
    let mut new = match from[..] {
        [src] => {
            let mut p = inherited(dev, src).ok_or("copy source")?;
            p.interrupt.clear();
            p
        }
        [file, src] => {
            let f = Path::new(path).parent().unwrap_or(Path::new(".")).join(file);
            let t = sv(std::fs::read_to_string(f))?;
            let d = sv(svd_parser::parse(&t))?;
            inherited(&d, src).ok_or("copy source")?
        }
        _ => return e("from"),
    };
    new.name = n.into();
    match dev.peripherals.iter_mut().find(|p| p.name == n) {
        Some(t) => {
            new.base_address = t.base_address;
            new.interrupt = t.interrupt.clone();
            *t = new;
        }
        None => dev.peripherals.push(new),
    }
    Ok(())
}

fn modify_device(dev: &mut Device, k: &str, v: &Yaml) -> R<()> {
    let s = || as_str(v).map(String::from);
    match k {
        "cpu" => {
            let b = cpu_of(as_hash(v)?)?;
            match &mut dev.cpu {
                Some(c) => sv(c.modify_from(b, W))?,
                None => dev.cpu = Some(sv(b.build(W))?),
            }
        }
        "_peripherals" => {
            for (n, d) in as_hash(v)? {
                modify_peripherals(dev, as_str(n)?, as_hash(d)?)?;
            }
        }
        "vendor" => dev.vendor = Some(s()?),
        "vendorID" => dev.vendor_id = Some(s()?),
        "name" => dev.name = s()?,
        "series" => dev.series = Some(s()?),
        "version" => dev.version = s()?,
        "description" => dev.description = s()?,
        "licenseText" => dev.license_text = Some(s()?),
        "headerSystemFilename" => dev.header_system_filename = Some(s()?),
        "headerDefinitionsPrefix" => dev.header_definitions_prefix = Some(s()?),
        "addressUnitBits" => dev.address_unit_bits = u32of(v)?,
        "width" => dev.width = u32of(v)?,
        "size" => dev.default_register_properties.size = Some(u32of(v)?),
        "access" => dev.default_register_properties.access = Access::parse_str(as_str(v)?),
        "resetValue" => dev.default_register_properties.reset_value = Some(int(v)? as u64),
        "resetMask" => dev.default_register_properties.reset_mask = Some(int(v)? as u64),
        "protection" => dev.default_register_properties.protection = Protection::parse_str(as_str(v)?),
        _ => modify_peripherals(dev, k, as_hash(v)?)?,
    }
    Ok(())
}

fn modify_peripherals(dev: &mut Device, spec: &str, d: &Hash) -> R<()> {
    let mut renamed = vec![];
    for p in &mut dev.peripherals {
        if !matches(spec, &p.name)? {
            continue;
        }
        renamed.push(p.name.clone());
        let b = peripheral_of(d, true)?;
        set_dim(p, &dim_of(d)?)?;
        sv(p.modify_from(b.clone(), W))?;
        sv(p.modify_from(b.derived_from(None), W))?; // given values survive becoming derived
        if let Some(ints) = gh(d, "interrupts")? {
            for (n, v) in ints {
                let b = interrupt_of(as_hash(v)?)?;
                let n = as_str(n)?;
                if let Some(i) = p.interrupt.iter_mut().find(|i| i.name == n) {
                    sv(i.modify_from(b, W))?;
                }
            }
        }
        if let Some(Yaml::Hash(b)) = get(d, "addressBlock") {
            let b = ablock_of(b)?;
            match p.address_block.as_deref_mut() {
                Some([one]) => sv(one.modify_from(b, W))?,
                _ => p.address_block = Some(vec![sv(b.build(W))?]),
            }
        } else if let Some(Yaml::Array(bs)) = get(d, "addressBlocks") {
            p.address_block = Some(ablocks_of(bs)?);
        }
    }
    if let Some(new) = gs(d, "name")? {
        for p in &mut dev.peripherals {
            if p.derived_from.as_ref().is_some_and(|o| renamed.contains(o)) {
                p.derived_from = Some(new.into());
            }
        }
    }
    Ok(())
}

fn derive_peripheral(dev: &mut Device, n: &str, d: &Yaml) -> R<()> {
    let (src, b) = match d {
        Yaml::String(s) => (s.as_str(), PeripheralInfo::builder()),
        Yaml::Hash(h) => (gs(h, "_from")?.ok_or("_from")?, peripheral_of(h, true)?),
        _ => return e("derive"),
    };
    let b = b.derived_from(Some(src.into()));
    let i = dev.peripherals.iter().position(|p| p.name == src).ok_or("derive source")?;
    if ancestors(src, dev.peripherals.iter().map(|p| (&*p.name, p.derived_from.as_deref()))).iter().any(|a| a == n) {
        return e("derived from itself");
    }
    let mut users = vec![];
    match dev.peripherals.iter().position(|p| p.name == n) {
        Some(i) => {
            let p = &mut dev.peripherals[i];
            sv(p.modify_from(PeripheralInfo::builder().derived_from(Some(src.into())), W))?;
            sv(p.modify_from(b.derived_from(None), W))?;
            users.push(i);
        }
        None => dev.peripherals.push(MaybeArray::Single(sv(b.name(n.into()).build(W))?)),
    }
    repoint(dev, n, src, &mut users);
    // the source must be declared before what the rule made depend on it
    declare_before(dev, i, &users);
    Ok(())
}

/// `n` and everything it is derived from, directly or not
fn ancestors<'a>(n: &str, all: impl Iterator<Item = (&'a str, Option<&'a str>)>) -> Vec<String> {
    let all: Vec<_> = all.collect();
    let mut up = vec![n.to_string()];
    while let Some((_, Some(b))) = all.iter().find(|x| x.0 == up[up.len() - 1]) {
        if up.iter().any(|u| u == b) {
            break;
        }
        up.push(b.to_string());
    }
    up
}
fn repoint(dev: &mut Device, from: &str, to: &str, users: &mut Vec<usize>) {
    for (i, p) in dev.peripherals.iter_mut().enumerate() {
        if p.derived_from.as_deref() == Some(from) {
            p.derived_from = Some(to.into());
            users.push(i);
        }
    }
}
fn declare_before(dev: &mut Device, i: usize, users: &[usize]) {
    if let Some(&m) = users.iter().min() {
        if m < i {
            let p = dev.peripherals.remove(i);
            dev.peripherals.insert(m, p);
        }
    }
}

fn rebase(dev: &mut Device, new: &str, old: &str) -> R<()> {
    let oi = dev.peripherals.iter().position(|p| p.name == old).ok_or("rebase old")?;
    let ni = dev.peripherals.iter().position(|p| p.name == new).ok_or("rebase new")?;
    let mut users = vec![oi];
    if oi != ni {
        let o = dev.peripherals[oi].clone();
        let n = dev.peripherals[ni].clone();
        if ancestors(old, dev.peripherals.iter().map(|p| (&*p.name, p.derived_from.as_deref()))).iter().any(|a| a == new) {
            return e("already based on it");
        }
        let mut content = o.clone();
        content.name = n.name.clone();
        content.base_address = n.base_address;
        content.interrupt = n.interrupt.clone();
        let mut left = PeripheralInfo::builder().name(old.into()).base_address(o.base_address);
        if !o.interrupt.is_empty() {
            left = left.interrupt(Some(o.interrupt.clone()));
        }
        dev.peripherals[oi] = MaybeArray::Single(sv(left.derived_from(Some(new.into())).build(W))?);
        dev.peripherals[ni] = content;
    }
    repoint(dev, old, new, &mut users);
    declare_before(dev, ni, &users);
    Ok(())
}

// ---------------------------------------------------------------- peripheral

fn peripheral(p: &mut Peripheral, h: &Hash, cfg: &Cfg) -> R<()> {
    if p.derived_from.is_some() {
        if let Some(Yaml::Hash(d)) = get(h, "_delete") {
            for s in list(d, "_interrupts")? {
                delete_interrupts(&mut p.interrupt, s)?;
            }
        }
        for (phase, f) in [
            ("_modify", modify_interrupts as fn(&mut Vec<Interrupt>, &Yaml) -> R<()>),
            ("_add", add_interrupts),
        ] {
            if let Some(Yaml::Hash(d)) = get(h, phase) {
                if let Some(v) = get(d, "_interrupts") {
                    f(&mut p.interrupt, v)?;
                }
            }
        }
        return Ok(());
    }
    let path = Path_::block(&p.name);
    let mut ints = std::mem::take(&mut p.interrupt);
    let mut kids = p.registers.take();
    common(&mut kids, h, &path, Some(&mut ints), false)?;
    let kw = [
        "_include", "_path", "_delete", "_copy", "_strip", "_strip_end", "_prefix", "_suffix", "_modify",
        "_clear_fields", "_add", "_derive", "_expand_array", "_expand_cluster", "_array", "_cluster", "_clusters",
        "_interrupts",
    ];
    for (k, v) in h {
        let k = as_str(k)?;
        if !kw.contains(&k) {
            child(&mut kids, k, as_hash(v)?, &path, cfg)?;
        }
    }
    collect_phase(&mut kids, h, &path, cfg)?;
    for (k, v) in pairs(h, "_clusters")? {
        clusters(&mut kids, k, as_hash(v)?, &path, cfg)?;
    }
    match get(h, "_expand_cluster") {
        None => {}
        Some(Yaml::String(s)) => expand_cluster(&mut kids, s, None)?,
        Some(Yaml::Array(a)) => {
            for s in a {
                expand_cluster(&mut kids, as_str(s)?, None)?
            }
        }
        Some(Yaml::Hash(hh)) => {
            for (s, o) in hh {
                expand_cluster(&mut kids, as_str(s)?, o.as_hash())?
            }
        }
        _ => return e("_expand_cluster"),
    }
    p.registers = kids;
    p.interrupt = ints;
    Ok(())
}

fn delete_interrupts(v: &mut Vec<Interrupt>, spec: &str) -> R<()> {
    for i in std::mem::take(v) {
        if !matches(spec, &i.name)? {
            v.push(i);
        }
    }
    Ok(())
}
fn modify_interrupts(v: &mut Vec<Interrupt>, d: &Yaml) -> R<()> {
    for (s, m) in as_hash(d)? {
        let (s, m) = (as_str(s)?, as_hash(m)?);
        for i in v.iter_mut() {
            if matches(s, &i.name)? {
                sv(i.modify_from(interrupt_of(m)?, W))?;
            }
        }
    }
    Ok(())
}
fn add_interrupts(v: &mut Vec<Interrupt>, d: &Yaml) -> R<()> {
    for (n, a) in as_hash(d)? {
        let n = as_str(n)?;
        if v.iter().any(|i| i.name == n) {
            return e("duplicate interrupt");
        }
        v.push(sv(interrupt_of(as_hash(a)?)?.name(n.into()).build(W))?);
    }
    Ok(())
}

type Kids = Option<Vec<RC>>;

fn regs(k: &mut Kids) -> impl Iterator<Item = &mut Register> {
    k.iter_mut().flatten().filter_map(|c| match c {
        RC::Register(r) => Some(r),
        _ => None,
    })
}
fn clus(k: &mut Kids) -> impl Iterator<Item = &mut Cluster> {
    k.iter_mut().flatten().filter_map(|c| match c {
        RC::Cluster(r) => Some(r),
        _ => None,
    })
}

fn delete_kids(kids: &mut Kids, spec: &str, r: bool, c: bool) -> R<usize> {
    let Some(v) = kids else { return e("no registers") };
    let mut n = 0;
    for k in std::mem::take(v) {
        let kind = match &k {
            RC::Register(_) => r,
            RC::Cluster(_) => c,
        };
        if kind && matches(spec, k.name())? {
            n += 1;
        } else {
            v.push(k);
        }
    }
    Ok(n)
}

/// delete / copy / strip / prefix / suffix / modify / clear / add / derive
fn common(kids: &mut Kids, h: &Hash, path: &Path_, mut ints: Option<&mut Vec<Interrupt>>, in_cluster: bool) -> R<()> {
    match get(h, "_delete") {
        None => {}
        Some(Yaml::Hash(d)) => {
            for k in d.keys() {
                if !["_registers", "_clusters", "_interrupts"].contains(&as_str(k)?) {
                    return e("_delete key");
                }
            }
            for s in list(d, "_registers")? {
                delete_kids(kids, s, true, false)?;
            }
            for s in list(d, "_clusters")? {
                let (s, optional) = opt(s);
                if delete_kids(kids, s, false, true)? == 0 && !optional {
                    return e("no cluster to delete");
                }
            }
            if let Some(i) = ints.as_deref_mut() {
                for s in list(d, "_interrupts")? {
                    delete_interrupts(i, s)?;
                }
            }
        }
        Some(_) => {
            for s in list(h, "_delete")? {
                delete_kids(kids, s, true, true)?;
            }
        }
    }
    for (n, d) in pairs(h, "_copy")? {
        match n {
            "_registers" => {
                for (n, d) in as_hash(d)? {
                    copy_register(kids, as_str(n)?, as_hash(d)?, path)?;
                }
            }
            "_clusters" => {
                if !as_hash(d)?.is_empty() {
                    return e("copying clusters is not supported");
                }
            }
            _ => copy_register(kids, n, as_hash(d)?, path)?,
        }
    }
    for s in list(h, "_strip")? {
        rename(kids, &|n| strip_start(n, s))?;
    }
    for s in list(h, "_strip_end")? {
        rename(kids, &|n| strip_end(n, s))?;
    }
    let mut affix = |f: &dyn Fn(&str) -> String| {
        for r in regs(kids) {
            r.name = f(&r.name);
            r.display_name = r.display_name.as_deref().map(f);
            r.alternate_register = r.alternate_register.as_deref().map(f);
        }
    };
    if let Some(p) = gs(h, "_prefix")? {
        affix(&|n| format!("{p}{n}"));
    }
    if let Some(p) = gs(h, "_suffix")? {
        affix(&|n| format!("{n}{p}"));
    }
    for (k, d) in pairs(h, "_modify")? {
        let d = as_hash(d)?;
        match k {
            "_registers" => {
                for (s, m) in d {
                    let (s, optional) = opt(as_str(s)?);
                    if modify_regs(kids, s, as_hash(m)?, path)? == 0 && !optional {
                        return e("no register to modify");
                    }
                }
            }
            "_clusters" => {
                for (s, m) in d {
                    let (s, optional) = opt(as_str(s)?);
                    if modify_clus(kids, s, as_hash(m)?, path)? == 0 && !optional {
                        return e("no cluster to modify");
                    }
                }
            }
            "_interrupts" if ints.is_some() => {
                modify_interrupts(ints.as_deref_mut().unwrap(), &Yaml::Hash(d.clone()))?;
            }
            _ => {
                let (s, optional) = opt(k);
                if modify_regs(kids, s, d, path)? == 0 && modify_clus(kids, s, d, path)? == 0 && !optional {
                    return e("nothing to modify");
                }
            }
        }
    }
    for s in list(h, "_clear_fields")? {
        clear_in(kids, s)?;
    }
    for (k, d) in pairs(h, "_add")? {
        let d = as_hash(d)?;
        match k {
            "_registers" => {
                for (n, a) in d {
                    add_register(kids, as_str(n)?, as_hash(a)?, path)?;
                }
            }
            "_clusters" => {
                for (n, a) in d {
                    let n = as_str(n)?;
                    let a = as_hash(a)?;
                    if clus(kids).any(|c| c.name == n) {
                        return e("duplicate cluster");
                    }
                    let c = sv(cluster_of(a, Some(path))?.name(n.into()).build(W))?;
                    put_kid(kids, RC::Cluster(with_dim(c, dim_of(a)?)?));
                }
            }
            "_interrupts" if ints.is_some() => {
                add_interrupts(ints.as_deref_mut().unwrap(), &Yaml::Hash(d.clone()))?;
            }
            n => add_register(kids, n, d, path)?,
        }
    }
    for (k, d) in pairs(h, "_derive")? {
        match k {
            "_registers" => {
                for (n, a) in as_hash(d)? {
                    derive_register(kids, as_str(n)?, a, path)?;
                }
            }
            "_clusters" => {
                if !as_hash(d)?.is_empty() {
                    return e("deriving clusters is not supported");
                }
            }
            n => derive_register(kids, n, d, path)?,
        }
    }
    let _ = in_cluster;
    Ok(())
}

fn put_kid(kids: &mut Kids, k: RC) {
    let v = kids.get_or_insert_with(Vec::new);
    let at = insert_pos(v.iter().map(|c| c.address_offset() as u64), k.address_offset() as u64);
    v.insert(at, k);
}

fn add_register(kids: &mut Kids, n: &str, a: &Hash, path: &Path_) -> R<()> {
    if regs(kids).any(|r| r.name == n) {
        return e("duplicate register");
    }
    let r = sv(register_of(a, Some(path))?.name(n.into()).build(W))?;
    put_kid(kids, RC::Register(with_dim(r, dim_of(a)?)?));
    Ok(())
}

fn copy_register(kids: &mut Kids, n: &str, d: &Hash, path: &Path_) -> R<()> {
    let src = gs(d, "_from")?.ok_or("_from")?;
    let mut new = regs(kids).find(|r| r.name == src).ok_or("copy source")?.clone();
    new.display_name = None;
    set_dim(&mut new, &dim_of(d)?)?;
    let b = register_of(d, Some(path))?.name(n.into());
    sv(new.modify_from(b.clone(), W))?;
    sv(new.modify_from(b.derived_from(None), W))?;
    if let Some(t) = regs(kids).find(|r| r.name == n) {
        if get(d, "addressOffset").is_none() {
            new.address_offset = t.address_offset;
        }
        *t = new;
        return Ok(());
    }
    kids.get_or_insert_with(Vec::new).push(RC::Register(new));
    Ok(())
}

pub fn strip_start(n: &str, pat: &str) -> R<String> {
    let l = glob::prefix_lens(pat, n).ok_or("malformed")?;
    Ok(n[l.first().copied().unwrap_or(0)..].into())
}
pub fn strip_end(n: &str, pat: &str) -> R<String> {
    let l = glob::suffix_starts(pat, n).ok_or("malformed")?;
    Ok(n[..l.last().copied().unwrap_or(n.len())].into())
}

/// registers: name, displayName, alternateRegister; clusters: name, headerStructName, alternateCluster
fn rename(kids: &mut Kids, f: &dyn Fn(&str) -> R<String>) -> R<()> {
    for r in regs(kids) {
        r.name = f(&r.name)?;
        r.display_name = r.display_name.as_deref().map(f).transpose()?;
        r.alternate_register = r.alternate_register.as_deref().map(f).transpose()?;
    }
    for c in clus(kids) {
        c.name = f(&c.name)?;
        c.header_struct_name = c.header_struct_name.as_deref().map(f).transpose()?;
        c.alternate_cluster = c.alternate_cluster.as_deref().map(f).transpose()?;
    }
    Ok(())
}

fn modify_regs(kids: &mut Kids, s: &str, m: &Hash, path: &Path_) -> R<usize> {
    let mut n = 0;
    for r in regs(kids) {
        if matches(s, &r.name)? {
            n += 1;
            let b = register_of(m, Some(path))?;
            set_dim(r, &dim_of(m)?)?;
            sv(r.modify_from(b.clone(), W))?;
            sv(r.modify_from(b.derived_from(None), W))?; // given values survive becoming derived
            if gs(m, "access")? == Some("") {
                r.properties.access = None;
            }
            if let Some(None) = wconstraint(m)? {
                r.write_constraint = None;
            }
        }
    }
    Ok(n)
}
fn modify_clus(kids: &mut Kids, s: &str, m: &Hash, path: &Path_) -> R<usize> {
    let mut n = 0;
    for c in clus(kids) {
        if matches(s, &c.name)? {
            n += 1;
            let b = cluster_of(m, Some(path))?;
            set_dim(c, &dim_of(m)?)?;
            sv(c.modify_from(b.clone(), W))?;
            sv(c.modify_from(b.derived_from(None), W))?; // given values survive becoming derived
        }
    }
    Ok(n)
}

fn clear_fields(r: &mut Register, spec: &str) -> R<()> {
    for f in r.fields.iter_mut().flatten() {
        if matches(spec, &f.name)? && f.derived_from.is_none() {
            f.enumerated_values.clear();
            f.write_constraint = None;
        }
    }
    Ok(())
}
/// all registers at any cluster depth
fn clear_in(kids: &mut Kids, spec: &str) -> R<()> {
    for k in kids.iter_mut().flatten() {
        match k {
            RC::Register(r) => {
                if matches(spec, &r.name)? && r.derived_from.is_none() {
                    clear_fields(r, "*")?;
                }
            }
            RC::Cluster(c) => {
                let mut inner = Some(std::mem::take(&mut c.children));
                clear_in(&mut inner, spec)?;
                c.children = inner.unwrap();
            }
        }
    }
    Ok(())
}

const NAME_CHARS: fn(char) -> bool = |c| c.is_ascii_alphanumeric() || c == '_';
/// a legal element name, possibly containing one `%s`
pub fn dimable(n: &str) -> bool {
    let ident = |s: &str| s.chars().all(NAME_CHARS);
    let ident0 = |s: &str| ident(s) && s.chars().next().is_some_and(|c| !c.is_ascii_digit());
    if n == "%s" {
        return true;
    }
    if let Some(p) = n.strip_suffix("[%s]") {
        return ident0(p);
    }
    match n.split_once("%s") {
        None => ident0(n),
        Some(("", b)) => ident0(b),
        Some((a, b)) => ident0(a) && ident(b),
    }
}

fn derive_register(kids: &mut Kids, spec: &str, d: &Yaml, path: &Path_) -> R<()> {
    let (spec, optional) = opt(spec);
    let (src, dim, b) = match d {
        Yaml::String(s) => (s.as_str(), None, RegisterInfo::builder()),
        Yaml::Hash(h) => (gs(h, "_from")?.ok_or("_from")?, dim_of(h)?, register_of(h, Some(path))?),
        _ => return e("derive"),
    };
    // `cluster.register` inside a cluster means a sibling cluster
    let parts: Vec<&str> = src.split('.').collect();
    let full = if path.blocks.len() > 1 && parts.len() == 2 {
        format!("{}.{src}", path.blocks[..path.blocks.len() - 1].join("."))
    } else {
        src.to_string()
    };
    let b = b.derived_from(Some(full.clone()));
    if parts.len() == 1 && !regs(kids).any(|r| r.name == src) {
        return e("derive source");
    }
    let mut found = vec![];
    for r in regs(kids) {
        if matches(spec, &r.name)? {
            found.push(r.name.clone());
        }
    }
    if parts.len() == 1 {
        let up = ancestors(src, kids.iter().flatten().filter_map(|k| match k {
            RC::Register(r) => Some((&*r.name, r.derived_from.as_deref())),
            _ => None,
        }));
        if up.iter().any(|n| found.contains(n)) {
            return e("derived from itself");
        }
    }
    for r in regs(kids) {
        if found.contains(&r.name) {
            set_dim(r, &dim)?;
            sv(r.modify_from(RegisterInfo::builder().derived_from(Some(full.clone())), W))?;
            sv(r.modify_from(b.clone().derived_from(None), W))?;
        }
    }
    if found.is_empty() && !optional {
        if !dimable(spec) {
            return e("bad name");
        }
        let r = sv(b.name(spec.into()).build(W))?;
        kids.get_or_insert_with(Vec::new).push(RC::Register(with_dim(r, dim)?));
    }
    for r in regs(kids) {
        if r.derived_from.as_ref().is_some_and(|x| found.contains(x)) {
            r.derived_from = Some(full.clone());
        }
    }
    Ok(())
}

fn in_cluster<T>(c: &mut Cluster, f: impl FnOnce(&mut Kids) -> R<T>) -> R<T> {
    let mut k = Some(std::mem::take(&mut c.children));
    let r = f(&mut k);
    c.children = k.unwrap_or_default();
    r
}

fn child(kids: &mut Kids, k: &str, d: &Hash, path: &Path_, cfg: &Cfg) -> R<()> {
    let (s, optional) = opt(k);
    let mut any = false;
    for r in regs(kids) {
        if matches(s, &r.name)? {
            any = true;
            register(r, d, path, cfg)?;
        }
    }
    if any {
        return Ok(());
    }
    for c in clus(kids) {
        if matches(s, &c.name)? {
            any = true;
            cluster(c, d, path, cfg)?;
        }
    }
    if !any && !optional {
        return e(format!("no {s}"));
    }
    Ok(())
}

fn clusters(kids: &mut Kids, k: &str, d: &Hash, path: &Path_, cfg: &Cfg) -> R<()> {
    let (s, optional) = opt(k);
    let mut any = false;
    for c in clus(kids) {
        if matches(s, &c.name)? {
            any = true;
            cluster(c, d, path, cfg)?;
        }
    }
    if !any && !optional {
        return e(format!("no cluster {s}"));
    }
    Ok(())
}

const CLUSTER_KW: [&str; 17] = [
    "_include", "_path", "_delete", "_copy", "_strip", "_strip_end", "_prefix", "_suffix", "_modify", "_clear_fields",
    "_add", "_derive", "_expand_array", "_expand_cluster", "_array", "_cluster", "_clusters",
];

fn cluster(c: &mut Cluster, h: &Hash, parent: &Path_, cfg: &Cfg) -> R<()> {
    let path = parent.sub(&c.name);
    in_cluster(c, |kids| {
        common(kids, h, &path, None, true)?;
        for (k, v) in pairs(h, "_clusters")? {
            clusters(kids, k, as_hash(v)?, &path, cfg)?;
        }
        for (k, v) in h {
            let k = as_str(k)?;
            if !CLUSTER_KW.contains(&k) {
                child(kids, k, as_hash(v)?, &path, cfg)?;
            }
        }
        collect_phase(kids, h, &path, cfg)
    })
}

// ---------------------------------------------------------------- collecting and expanding

/// where the index token of a spec sits: (chars before, chars after)
pub fn token(spec: &str) -> Option<(usize, usize)> {
    let spec = spec.split(',').next().unwrap();
    let b = spec.as_bytes();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'%';
    let li = b.iter().take_while(|c| word(**c)).count();
    let ri = b.iter().rev().take_while(|c| word(**c)).count();
    if li == b.len() {
        return None;
    }
    let mut t = &spec[li..b.len() - ri];
    while !t.is_empty() {
        if t.starts_with(['?', '*']) {
            t = &t[1..];
            continue;
        }
        let inner = t.strip_prefix('[')?.split_once(']')?;
        let ok = |s: &str, p: fn(char) -> bool| !s.is_empty() && s.chars().all(p);
        let good = |p: fn(char) -> bool| match inner.0.split_once('-') {
            None => ok(inner.0, p),
            Some((a, b)) => ok(a, p) && ok(b, p),
        };
        if !good(|c| c.is_ascii_digit()) && !good(|c| c.is_ascii_alphabetic()) {
            return None;
        }
        t = inner.1;
    }
    Some((li, ri))
}

fn regular(offs: &[u32], inc: u32) -> bool {
    offs.windows(2).all(|w| w[1].wrapping_sub(w[0]) == inc)
}

fn mask(r: &RegisterInfo) -> u128 {
    let mut m = 0u128;
    for f in r.fields.iter().flatten() {
        for b in 0..f.bit_range.width {
            m |= 1u128.checked_shl(f.bit_range.offset + b).unwrap_or(0);
        }
    }
    m
}

/// One text for the whole array: identical texts, or texts differing only in the index (then `%s`).
fn common_text(d: &[Option<&str>], idx: &[String]) -> R<Option<String>> {
    if let Some(first) = d[0] {
        let mut from = 0;
        while let Some(p) = first[from..].find(idx[0].as_str()).map(|p| p + from) {
            let (a, b) = (&first[..p], &first[p + idx[0].len()..]);
            let t = format!("{a}%s{b}");
            if d.iter().zip(idx).skip(1).all(|(x, i)| *x == Some(t.replacen("%s", i, 1).as_str())) {
                return Ok(Some(t));
            }
            from = p + idx[0].len().max(1);
            if from > first.len() {
                break;
            }
        }
    }
    if d.iter().all(|x| *x == d[0]) {
        return Ok(d[0].map(String::from));
    }
    e("texts differ")
}

fn text_rule(rule: Option<&str>, all: Vec<Option<&str>>, idx: &[String]) -> R<Option<String>> {
    match rule {
        Some("_original") => Ok(all[0].map(String::from)),
        Some(t) => Ok(Some(t.into())),
        None => common_text(&all, idx),
    }
}

fn collect_phase(kids: &mut Kids, h: &Hash, path: &Path_, cfg: &Cfg) -> R<()> {
    for (k, v) in pairs(h, "_expand_array")? {
        as_hash(v)?;
        let Some(v) = kids else { return e("no registers") };
        let mut found = false;
        for c in std::mem::take(v) {
            match c {
                RC::Register(MaybeArray::Array(r, d)) if matches(k, &r.name)? => {
                    found = true;
                    v.extend(svd_rs::register::expand(&r, &d).map(|r| RC::Register(MaybeArray::Single(r))));
                }
                c => v.push(c),
            }
        }
        if !found {
            return e("no register array");
        }
    }
    for (k, v) in pairs(h, "_array")? {
        let d = as_hash(v)?;
        let Some(v) = kids else { return e("no registers") };
        register_array(v, k, d, path, cfg)?;
    }
    for (k, v) in pairs(h, "_cluster")? {
        let d = as_hash(v)?;
        let Some(v) = kids else { return e("no registers") };
        register_cluster(v, k, d, path, cfg)?;
    }
    Ok(())
}

fn take_matching(v: &mut Vec<RC>, spec: &str, singles_only: bool) -> R<(Vec<Register>, usize)> {
    let mut out = vec![];
    let mut place = usize::MAX;
    for c in std::mem::take(v) {
        match c {
            RC::Register(r) if (!singles_only || r.is_single()) && matches(spec, &r.name)? => {
                place = place.min(v.len());
                out.push(r);
            }
            c => v.push(c),
        }
    }
    out.sort_by_key(|r| r.address_offset);
    Ok((out, place))
}

fn slice_name(n: &str, li: usize, ri: usize) -> R<String> {
    n.get(li..n.len().saturating_sub(ri)).map(String::from).ok_or("index".into())
}

/// The name and the indices of the array made of elements with these names: what precedes and
/// what follows the index has to be common, unless the rule gives the name.
fn array_name(names: Vec<&str>, (li, ri): (usize, usize), d: &Hash) -> R<(String, Vec<String>)> {
    let mut idx = names.iter().map(|n| slice_name(n, li, ri)).collect::<R<Vec<_>>>()?;
    let around: std::collections::HashSet<(&str, &str)> = names.iter().map(|n| (&n[..li], &n[n.len() - ri..])).collect();
    let name = match gs(d, "name")? {
        Some(n) => n.into(),
        None if around.len() == 1 => format!("{}%s{}", &names[0][..li], &names[0][names[0].len() - ri..]),
        None => return e("names without anything in common"),
    };
    if get(d, "_start_from_zero").is_some() {
        idx = (0..names.len()).map(|i| i.to_string()).collect();
    }
    Ok((name, idx))
}

fn register_array(v: &mut Vec<RC>, spec: &str, d: &Hash, path: &Path_, cfg: &Cfg) -> R<()> {
    let (spec, optional) = opt(spec);
    let (rs, place) = take_matching(v, spec, true)?;
    if rs.is_empty() {
        return if optional { Ok(()) } else { e("no registers for array") };
    }
    let at = token(spec).ok_or("no token")?;
    let (name, idx) = array_name(rs.iter().map(|r| r.name.as_str()).collect(), at, d)?;
    let offs: Vec<u32> = rs.iter().map(|r| r.address_offset).collect();
    let inc = if rs.len() > 1 {
        offs[1] - offs[0]
    } else {
        match gu(d, "dimIncrement")? {
            Some(i) => i,
            None => rs[0].properties.size.map(|s| s / 8).unwrap_or(0),
        }
    };
    if !regular(&offs, inc) {
        return e("uneven registers");
    }
    if inc == 0 {
        return e("irregular");
    }
    if rs.iter().any(|r| mask(r) != mask(&rs[0])) {
        return e("different fields");
    }
    let mut first = (*rs[0]).clone();
    first.name = name;
    first.description =
        text_rule(gs(d, "description")?, rs.iter().map(|r| r.description.as_deref()).collect(), &idx)?;
    first.display_name =
        text_rule(gs(d, "displayName")?, rs.iter().map(|r| r.display_name.as_deref()).collect(), &idx)?;
    let dim = sv(DimElement::builder().dim(rs.len() as u32).dim_increment(inc).dim_index(Some(idx)).build(W))?;
    let mut r = MaybeArray::Array(first, dim);
    register(&mut r, d, path, &Cfg { update_fields: true, ..*cfg })?;
    v.insert(place, RC::Register(r));
    Ok(())
}

fn register_cluster(v: &mut Vec<RC>, cname: &str, d: &Hash, path: &Path_, cfg: &Cfg) -> R<()> {
    let single = !cname.contains("%s");
    let mut groups: Vec<(String, &Yaml, Vec<Register>)> = vec![];
    let mut place = usize::MAX;
    let mut inc = gu(d, "dimIncrement")?.unwrap_or(0);
    let mut index: Option<Vec<String>> = None;
    for (k, m) in d {
        let k = as_str(k)?;
        if k == "description" || k == "dimIncrement" || CLUSTER_KW.contains(&k) {
            continue;
        }
        let (spec, optional) = opt(k);
        let (rs, at) = take_matching(v, spec, false)?;
        if rs.is_empty() {
            if optional {
                continue;
            }
            return e(format!("no registers {spec} for cluster"));
        }
        place = place.min(at);
        if single {
            if rs.len() > 1 {
                return e("several registers");
            }
        } else {
            let dim0 = match &rs[0] {
                MaybeArray::Array(_, d) => Some(d),
                _ => None,
            };
            for r in &rs {
                let dim = match r {
                    MaybeArray::Array(_, d) => Some(d),
                    _ => None,
                };
                if dim != dim0 {
                    return e("different dims");
                }
            }
            let mut idx = vec![];
            for r in &rs {
                let sub = glob::subspec(spec, &r.name)?.unwrap();
                let (li, ri) = token(sub).ok_or("no token")?;
                idx.push(slice_name(&r.name, li, ri)?);
            }
            let offs: Vec<u32> = rs.iter().map(|r| r.address_offset).collect();
            match &index {
                None => {
                    if rs.len() > 1 {
                        inc = offs[1] - offs[0];
                    }
                    index = Some(idx);
                }
                Some(i) if *i != idx => return e("different indices"),
                _ => {}
            }
            // every group must repeat with the cluster's increment
            if !regular(&offs, inc) {
                return e("uneven groups");
            }
            if rs.iter().any(|r| mask(r) != mask(&rs[0])) {
                return e("different fields");
            }
        }
        groups.push((spec.to_string(), m, rs));
    }
    if groups.is_empty() {
        return e("empty cluster");
    }
    let base = groups.iter().map(|g| g.2[0].address_offset).min().unwrap();
    let cpath = path.sub(cname);
    let cfg = Cfg { update_fields: true, ..*cfg };
    let desc = match gs(d, "description")? {
        Some(t) => t.to_string(),
        None => format!(
            "Cluster {cname}, containing {}",
            groups.iter().map(|g| g.0.as_str()).collect::<Vec<_>>().join(", ")
        ),
    };
    let mut kids = vec![];
    for (spec, m, rs) in &groups {
        let m = as_hash(m)?;
        let mut r = rs[0].clone();
        register(&mut r, m, &cpath, &cfg)?;
        match gs(m, "name")? {
            Some(n) => r.name = n.into(),
            None if !single => {
                let spec = spec.split(',').next().unwrap();
                let (li, ri) = token(spec).ok_or("no token")?;
                r.name = format!("{}{}", &spec[..li], &spec[spec.len() - ri..]);
            }
            _ => {}
        }
        if let Some(t) = gs(m, "description")? {
            r.description = Some(t.into());
        }
        r.address_offset -= base;
        if !single && r.address_offset >= inc {
            return e("outside increment");
        }
        kids.push(RC::Register(r));
    }
    let c = sv(ClusterInfo::builder()
        .name(cname.into())
        .description(Some(desc))
        .address_offset(base)
        .children(kids)
        .build(W))?;
    let mut c = if single {
        MaybeArray::Single(c)
    } else {
        let idx = index.unwrap();
        MaybeArray::Array(
            c,
            sv(DimElement::builder().dim(idx.len() as u32).dim_increment(inc).dim_index(Some(idx)).build(W))?,
        )
    };
    in_cluster(&mut c, |kids| {
        common(kids, d, &cpath, None, true)?;
        collect_phase(kids, d, &cpath, &cfg)
    })?;
    v.insert(place, RC::Cluster(c));
    Ok(())
}

/// what an element with these properties has inside one with those
fn inherit(mut p: RegisterProperties, o: RegisterProperties) -> RegisterProperties {
    p.size = p.size.or(o.size);
    p.access = p.access.or(o.access);
    p.protection = p.protection.or(o.protection);
    p.reset_value = p.reset_value.or(o.reset_value);
    p.reset_mask = p.reset_mask.or(o.reset_mask);
    p
}

fn expand_cluster(kids: &mut Kids, spec: &str, o: Option<&Hash>) -> R<()> {
    let (spec, optional) = opt(spec);
    let empty = Hash::new();
    let o = o.unwrap_or(&empty);
    for k in o.keys() {
        if !["_preindex", "_postindex", "_zeroindex", "_noprefix"].contains(&as_str(k)?) {
            return e("option");
        }
    }
    let pre = gs(o, "_preindex")?.unwrap_or("_");
    let post = gs(o, "_postindex")?.unwrap_or("_");
    let zero = gb(o, "_zeroindex")?.unwrap_or(false);
    let bare = gb(o, "_noprefix")?.unwrap_or(false);
    let Some(v) = kids else { return e("no registers") };
    let mut out = vec![];
    let mut any = false;
    for c in std::mem::take(v) {
        match c {
            RC::Cluster(MaybeArray::Array(ci, d)) if matches(spec, &ci.name)? => {
                any = true;
                if ci.children.is_empty() {
                    return e("empty cluster");
                }
                for i in 0..d.dim {
                    let indexed = d.dim > 1 || zero;
                    if bare && indexed {
                        return e("noprefix");
                    }
                    let prefix = if bare {
                        String::new()
                    } else if !indexed {
                        ci.name.replace("[%s]", "").replace("%s", "") + post
                    } else {
                        let n = match &d.dim_index {
                            Some(ix) => {
                                if ci.name.contains("[%s]") || ix.len() != d.dim as usize {
                                    return e("dimIndex");
                                }
                                ix[i as usize].clone()
                            }
                            None => i.to_string(),
                        };
                        let t = if ci.name.contains("[%s]") { "[%s]" } else { "%s" };
                        if ci.name.contains(t) {
                            ci.name.replace(t, &format!("{pre}{n}")) + post
                        } else if d.dim_index.is_some() {
                            ci.name.clone() + post
                        } else {
                            format!("{}{pre}{n}{post}", ci.name)
                        }
                    };
                    let base = ci.address_offset + i * d.dim_increment;
                    let (rr, cc): (Vec<&RC>, Vec<&RC>) =
                        ci.children.iter().partition(|k| matches!(k, RC::Register(_)));
                    let own: Vec<&str> = ci.children.iter().map(|k| k.name().as_str()).collect();
                    let source = |d: &mut Option<String>| {
                        if d.as_ref().is_some_and(|d| own.contains(&d.as_str())) {
                            *d = d.as_ref().map(|d| format!("{prefix}{d}"));
                        }
                    };
                    for k in rr.into_iter().chain(cc) {
                        let mut k = k.clone();
                        match &mut k {
                            RC::Register(r) => {
                                r.name = format!("{prefix}{}", r.name);
                                r.address_offset += base;
                                if r.derived_from.is_none() {
                                    r.properties = inherit(r.properties, ci.default_register_properties);
                                }
                                source(&mut r.derived_from);
                            }
                            RC::Cluster(r) => {
                                r.name = format!("{prefix}{}", r.name);
                                if r.derived_from.is_none() {
                                    r.default_register_properties = inherit(r.default_register_properties, ci.default_register_properties);
                                }
                                source(&mut r.derived_from);
                                r.address_offset += base;
                            }
                        }
                        out.push(k);
                    }
                }
            }
            c => v.push(c),
        }
    }
    v.extend(out);
    if !any && !optional {
        return e("no cluster to expand");
    }
    Ok(())
}

// ---------------------------------------------------------------- register

const REG_KW: [&str; 14] = [
    "_include", "_path", "_delete", "_derive", "_strip", "_strip_end", "_prefix", "_suffix", "_clear", "_modify",
    "_add", "_merge", "_split", "_array",
];

fn register(r: &mut Register, h: &Hash, bpath: &Path_, cfg: &Cfg) -> R<()> {
    if r.derived_from.is_some() {
        return Ok(());
    }
    let path = bpath.register(&r.name);
    for s in list(h, "_delete")? {
        if let Some(v) = &mut r.fields {
            for f in std::mem::take(v) {
                if !matches(s, &f.name)? {
                    v.push(f);
                }
            }
        }
    }
    for s in list(h, "_strip")? {
        for f in r.fields.iter_mut().flatten() {
            f.name = strip_start(&f.name, s)?;
        }
    }
    for s in list(h, "_strip_end")? {
        for f in r.fields.iter_mut().flatten() {
            f.name = strip_end(&f.name, s)?;
        }
    }
    if let Some(p) = gs(h, "_prefix")? {
        for f in r.fields.iter_mut().flatten() {
            f.name = format!("{p}{}", f.name);
        }
    }
    if let Some(p) = gs(h, "_suffix")? {
        for f in r.fields.iter_mut().flatten() {
            f.name = format!("{}{p}", f.name);
        }
    }
    for s in list(h, "_clear")? {
        clear_fields(r, s)?;
    }
    for (k, m) in pairs(h, "_modify")? {
        let (s, optional) = opt(k);
        let m = as_hash(m)?;
        let b = field_of(m, Some(&path))?;
        let dim = dim_of(m)?;
        let mut any = false;
        for f in r.fields.iter_mut().flatten() {
            if matches(s, &f.name)? {
                any = true;
                set_dim(f, &dim)?;
                sv(f.modify_from(b.clone(), W))?;
                if let Some(wc) = wconstraint(m)? {
                    f.write_constraint = wc;
                }
                sv(f.modify_from(b.clone().derived_from(None), W))?; // given values survive becoming derived
                if gs(m, "access")? == Some("") {
                    f.access = None;
                }
            }
        }
        if !any && !optional {
            return e("no field to modify");
        }
    }
    for (n, a) in pairs(h, "_add")? {
        let a = as_hash(a)?;
        if r.fields.iter().flatten().any(|f| f.name == n) {
            return e("duplicate field");
        }
        let f = sv(field_of(a, Some(&path))?.name(n.into()).build(W))?;
        r.fields.get_or_insert_with(Vec::new).push(with_dim(f, dim_of(a)?)?);
    }
    for (k, d) in pairs(h, "_derive")? {
        derive_field(r, k, d, &path)?;
    }
    match get(h, "_merge") {
        Some(Yaml::Hash(m)) => {
            for (k, v) in m {
                merge(r, as_str(k)?, Some(v))?;
            }
        }
        Some(Yaml::Array(a)) => {
            for k in a {
                merge(r, as_str(k)?, None)?;
            }
        }
        Some(Yaml::String(k)) => merge(r, k, None)?,
        _ => {}
    }
    let none = Hash::new();
    match get(h, "_split") {
        Some(Yaml::Hash(m)) => {
            for (k, v) in m {
                split(r, as_str(k)?, as_hash(v)?)?;
            }
        }
        Some(Yaml::Array(a)) => {
            for k in a {
                split(r, as_str(k)?, &none)?;
            }
        }
        Some(Yaml::String(k)) => split(r, k, &none)?,
        _ => {}
    }
    if cfg.update_fields {
        for (k, v) in h {
            let k = as_str(k)?;
            if !REG_KW.contains(&k) {
                field_rule(r, k, v, cfg)?;
            }
        }
    }
    for (k, v) in pairs(h, "_array")? {
        field_array(r, k, as_hash(v)?)?;
    }
    Ok(())
}

fn derive_field(r: &mut Register, k: &str, d: &Yaml, path: &Path_) -> R<()> {
    let (s, optional) = opt(k);
    let (src, dim, b) = match d {
        Yaml::String(t) => (t.as_str(), None, FieldInfo::builder()),
        Yaml::Hash(h) => (gs(h, "_from")?.ok_or("_from")?, dim_of(h)?, field_of(h, Some(path))?),
        _ => return e("derive"),
    };
    let n = src.split('.').count();
    let full = if n == 2 {
        format!("{}.{src}", path.blocks.join("."))
    } else if n == 3 && path.blocks.len() > 1 {
        format!("{}.{src}", path.blocks[..path.blocks.len() - 1].join("."))
    } else {
        src.into()
    };
    let b = b.derived_from(Some(full.clone()));
    if n == 1 {
        // an element of an array can be meant as well
        let own: Vec<(String, Vec<String>, Option<String>)> = r.fields.iter().flatten().map(|f| {
            let all = match f {
                MaybeArray::Single(_) => vec![],
                MaybeArray::Array(i, d) => crate::spaces5::elements(&i.name, &None, d).into_iter().map(|e| e.1).collect(),
            };
            (f.name.clone(), all, f.derived_from.clone())
        }).collect();
        let find = |s: &str| own.iter().find(|f| f.0 == s || f.1.iter().any(|n| n == s));
        let mut up = vec![find(src).ok_or("derive source")?];
        while let Some(f) = up[up.len() - 1].2.as_deref().and_then(find) {
            if up.iter().any(|u| u.0 == f.0) {
                break;
            }
            up.push(f);
        }
        for f in up {
            if matches(s, &f.0)? {
                return e("derived from itself");
            }
        }
    }
    let mut any = false;
    for f in r.fields.iter_mut().flatten() {
        if matches(s, &f.name)? {
            any = true;
            set_dim(f, &dim)?;
            sv(f.modify_from(FieldInfo::builder().derived_from(Some(full.clone())), W))?;
            sv(f.modify_from(b.clone().derived_from(None), W))?;
        }
    }
    if !any && !optional {
        if !dimable(s) {
            return e("bad name");
        }
        let f = sv(b.name(s.into()).build(W))?;
        r.fields.get_or_insert_with(Vec::new).push(with_dim(f, dim)?);
    }
    Ok(())
}

fn merge(r: &mut Register, key: &str, v: Option<&Yaml>) -> R<()> {
    let specs: Vec<&str> = match v {
        None => vec![key],
        Some(Yaml::String(s)) => vec![s],
        Some(Yaml::Array(a)) => a.iter().map(as_str).collect::<R<_>>()?,
        _ => return e("merge"),
    };
    let mut names: Vec<String> = vec![];
    for f in r.fields.iter().flatten() {
        for s in &specs {
            if matches(s, &f.name)? {
                names.push(f.name.clone());
                break;
            }
        }
    }
    if names.is_empty() {
        return e("nothing to merge");
    }
    let name = match v {
        Some(_) => key.to_string(),
        None => {
            let mut p = names[0].clone();
            while !names.iter().all(|n| n.starts_with(&p)) {
                p.pop();
            }
            p
        }
    };
    if name.is_empty() {
        return e("no name for the merged field");
    }
    let fields = r.fields.as_mut().unwrap();
    let picked: Vec<Field> = fields.iter().filter(|f| names.contains(&f.name)).cloned().collect();
    let at = fields.iter().position(|f| names.contains(&f.name)).unwrap();
    fields.retain(|f| !names.contains(&f.name));
    let f = sv(FieldInfo::builder()
        .name(name)
        .description(picked[0].description.clone())
        .access(if picked.iter().all(|f| f.access == picked[0].access) { picked[0].access } else { None })
        .bit_range(BitRange::from_offset_width(
            picked.iter().map(|f| f.bit_range.offset).min().unwrap(),
            picked.iter().map(|f| f.bit_range.width).sum(),
        ))
        .build(W))?;
    fields.insert(at, MaybeArray::Single(f));
    Ok(())
}

fn split(r: &mut Register, k: &str, h: &Hash) -> R<()> {
    let (s, optional) = opt(k);
    let mut hit = vec![];
    for f in r.fields.iter().flatten() {
        if matches(s, &f.name)? {
            hit.push(f.clone());
        }
    }
    let f = match &hit[..] {
        [] if optional => return Ok(()),
        [f] => f.clone(),
        _ => return e("split needs exactly one field"),
    };
    let name = match gs(h, "name")? {
        Some(n) => n.to_string(),
        None => format!("{}%s", f.name),
    };
    let desc = match gs(h, "description")? {
        Some(n) => Some(n.to_string()),
        None => f.description.clone(),
    };
    let fields = r.fields.as_mut().unwrap();
    fields.retain(|x| x.name != f.name);
    for i in 0..f.bit_range.width {
        let b = sv(FieldInfo::builder()
            .name(name.replace("%s", &i.to_string()))
            .description(desc.as_ref().map(|d| d.replace("%s", &i.to_string())))
            .bit_range(BitRange::from_offset_width(f.bit_range.offset + i, 1))
            .build(W))?;
        fields.push(MaybeArray::Single(b));
    }
    Ok(())
}

fn field_array(r: &mut Register, k: &str, d: &Hash) -> R<()> {
    let (s, optional) = opt(k);
    let Some(fields) = &mut r.fields else { return Ok(()) };
    let mut hit: Vec<FieldInfo> = vec![];
    let mut place = usize::MAX;
    for f in std::mem::take(fields) {
        match f {
            MaybeArray::Single(f) if matches(s, &f.name)? => {
                place = place.min(fields.len());
                hit.push(f);
            }
            f => fields.push(f),
        }
    }
    if hit.is_empty() {
        return if optional { Ok(()) } else { e("no fields for array") };
    }
    hit.sort_by_key(|f| f.bit_range.offset);
    let at = token(s).ok_or("no token")?;
    let (name, idx) = array_name(hit.iter().map(|f| f.name.as_str()).collect(), at, d)?;
    let offs: Vec<u32> = hit.iter().map(|f| f.bit_range.offset).collect();
    let inc = if hit.len() > 1 { offs[1] - offs[0] } else { 0 };
    if !regular(&offs, inc) {
        return e("uneven fields");
    }
    if hit.iter().any(|f| f.bit_range.width != hit[0].bit_range.width) {
        return e("fields of different width");
    }
    let mut f = hit[0].clone();
    f.name = name;
    f.description = text_rule(gs(d, "description")?, hit.iter().map(|f| f.description.as_deref()).collect(), &idx)?;
    let dim = sv(DimElement::builder().dim(hit.len() as u32).dim_increment(inc).dim_index(Some(idx)).build(W))?;
    fields.insert(place, MaybeArray::Array(f, dim));
    Ok(())
}

// ---------------------------------------------------------------- field values

fn field_rule(r: &mut Register, k: &str, v: &Yaml, cfg: &Cfg) -> R<()> {
    let reads = [
        ("_read", None),
        ("_RM", Some(ReadAction::Modify)),
        ("_RS", Some(ReadAction::Set)),
        ("_RC", Some(ReadAction::Clear)),
        ("_RME", Some(ReadAction::ModifyExternal)),
    ];
    use ModifiedWriteValues as M;
    let writes = [
        ("_write", None),
        ("_WM", Some(None)),
        ("_WS", Some(Some(M::Set))),
        ("_WC", Some(Some(M::Clear))),
        ("_W1S", Some(Some(M::OneToSet))),
        ("_W0C", Some(Some(M::ZeroToClear))),
        ("_W1C", Some(Some(M::OneToClear))),
        ("_W0S", Some(Some(M::ZeroToSet))),
        ("_W1T", Some(Some(M::OneToToggle))),
        ("_W0T", Some(Some(M::ZeroToToggle))),
    ];
    match v {
        Yaml::Hash(h) => {
            let rd: Vec<_> = reads.iter().filter(|x| get(h, x.0).is_some()).collect();
            let wr: Vec<_> = writes.iter().filter(|x| get(h, x.0).is_some()).collect();
            if rd.is_empty() && wr.is_empty() {
                return values(r, k, h, None, cfg);
            }
            let (s, optional) = opt(k);
            let mut any = false;
            for f in r.fields.iter().flatten() {
                any |= matches(s, &f.name)?;
            }
            if !any {
                return if optional { Ok(()) } else { e("no field") };
            }
            for (key, act) in rd {
                let hh = gh(h, key)?.unwrap();
                if !hh.is_empty() {
                    values(r, k, hh, Some(Usage::Read), cfg)?;
                }
                if let Some(a) = act {
                    for f in r.fields.iter_mut().flatten() {
                        if matches(s, &f.name)? {
                            f.read_action = Some(*a);
                        }
                    }
                }
            }
            for (key, act) in wr {
                let hh = gh(h, key)?.unwrap();
                if !hh.is_empty() {
                    values(r, k, hh, Some(Usage::Write), cfg)?;
                }
                if let Some(a) = act {
                    for f in r.fields.iter_mut().flatten() {
                        if matches(s, &f.name)? {
                            f.modified_write_values = *a;
                        }
                    }
                }
            }
            Ok(())
        }
        Yaml::Array(a) if a.len() >= 2 => {
            let (s, optional) = opt(k);
            let mut any = false;
            for f in r.fields.iter_mut().flatten() {
                if matches(s, &f.name)? {
                    any = true;
                    f.write_constraint = Some(range(&a[0], &a[1])?);
                }
            }
            if !any && !optional {
                return e("no field");
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

/// usage an enumeration gets on a field of this access, or an incompatibility
fn usage_for(a: Access, u: Option<Usage>) -> R<Usage> {
    let (rd, wr) = match a {
        Access::ReadOnly => (true, false),
        Access::WriteOnly | Access::WriteOnce => (false, true),
        Access::ReadWrite | Access::ReadWriteOnce => (true, true),
    };
    match u {
        None if rd && wr => Ok(Usage::ReadWrite),
        None if rd => Ok(Usage::Read),
        None => Ok(Usage::Write),
        Some(Usage::Read) if rd => Ok(Usage::Read),
        Some(Usage::Write) if wr => Ok(Usage::Write),
        Some(Usage::ReadWrite) if rd && wr => Ok(Usage::ReadWrite),
        _ => e("usage incompatible with access"),
    }
}
/// usage that has to be written down: only when it isn't the field's natural one
fn explicit_usage(a: Access, u: Usage) -> Option<Usage> {
    if usage_for(a, None) == Ok(u) {
        None
    } else {
        Some(u)
    }
}

fn ev_list(h: &Hash) -> R<Vec<EnumeratedValue>> {
    let mut v: Vec<(u64, EnumeratedValue)> = vec![];
    for (n, d) in h {
        let n = as_str(n)?;
        if n.starts_with('_') {
            continue;
        }
        if n.is_empty() || n.starts_with(|c: char| c.is_ascii_digit()) {
            return e("name starts with digit");
        }
        let d = d.as_vec().ok_or("value")?;
        if d.len() < 2 {
            return e("value needs description");
        }
        let val = int(&d[0])?;
        let b = EnumeratedValue::builder().name(n.into()).description(Some(as_str(&d[1])?.into()));
        let b = if val == -1 { b.is_default(Some(true)) } else { b.value(Some(val as u64)) };
        if v.iter().any(|x| x.0 == val as u64) {
            return e("duplicate value");
        }
        v.push((val as u64, sv(b.build(W))?));
    }
    v.sort_by_key(|x| x.0);
    Ok(v.into_iter().map(|x| x.1).collect())
}

fn values(r: &mut Register, k: &str, h: &Hash, usage: Option<Usage>, cfg: &Cfg) -> R<()> {
    let (h, replace) = match gh(h, "_replace_enum")? {
        Some(x) => (x, true),
        None => (h, false),
    };
    let reg_access = r.properties.access;
    let acc = |f: &FieldInfo| f.access.or(reg_access).unwrap_or_default();
    let known: Vec<(String, Usage)> = r.fields.iter().flatten().flat_map(|f| &f.enumerated_values).filter_map(|v| Some((v.name.clone()?, v.usage?))).collect();
    let (s, optional) = opt(k);
    let mut hits = vec![];
    for (i, f) in r.fields.iter().flatten().enumerate() {
        if matches(s, &f.name)? {
            hits.push(i);
        }
    }
    if let Some(src) = gs(h, "_derivedFrom")? {
        if hits.is_empty() && optional {
            return Ok(());
        }
        let origs: Vec<&EnumeratedValues> = r
            .fields
            .iter()
            .flatten()
            .flat_map(|f| &f.enumerated_values)
            .filter(|v| v.name.as_deref() == Some(src))
            .collect();
        let [o] = origs[..] else { return e("enumeration not found exactly once") };
        let orig = if o.derived_from.is_some() { None } else { Some(o.usage.unwrap_or_default()) };
        let Some(orig) = orig else { return e("multilevel derive") };
        if hits.is_empty() {
            return e("no field");
        }
        let new = sv(EnumeratedValues::builder().derived_from(Some(src.into())).build(W))?;
        for i in hits {
            let f = &mut r.fields.as_mut().unwrap()[i];
            let a = acc(f);
            if usage_for(a, usage)? != orig {
                return e("usage differs from the original");
            }
            if f.enumerated_values.iter().any(|v| v.name.as_deref() == Some(src)) {
                return e("derived from itself");
            }
            put_enum(f, new.clone(), orig, true, a, &known)?;
        }
        return Ok(());
    }
    if hits.is_empty() {
        return if optional { Ok(()) } else { e("no field") };
    }
    let fields = r.fields.as_mut().unwrap();
    if hits.iter().any(|i| fields[*i].bit_range.width != fields[hits[0]].bit_range.width) {
        return e("different widths");
    }
    let lead = *hits.iter().min_by_key(|i| fields[**i].bit_range.offset).unwrap();
    let lead_off = fields[lead].bit_range.offset;
    let lead_name = fields[lead].name.clone();
    let name = match gs(h, "_name")? {
        Some(n) => n.to_string(),
        None => {
            let n = lead_name.replace("%s", "");
            if n.is_empty() || n.starts_with(|c: char| c.is_ascii_digit()) {
                return e("starts with digit");
            }
            n + match usage {
                Some(Usage::Read) => "R",
                Some(Usage::Write) => "W",
                _ => "",
            }
        }
    };
    for &i in &hits {
        let f = &mut fields[i];
        let a = acc(f);
        let u = usage_for(a, usage)?;
        let is_lead = f.bit_range.offset == lead_off;
        if is_lead || cfg.enum_derive == EnumDerive::None {
            let mut b = EnumeratedValues::builder().values(ev_list(h)?).usage(explicit_usage(a, u));
            if is_lead {
                b = b.name(Some(name.clone()));
            }
            put_enum(f, sv(b.build(W))?, u, replace, a, &known)?;
        } else if cfg.enum_derive == EnumDerive::Field && f.enumerated_values.is_empty() {
            sv(f.modify_from(FieldInfo::builder().derived_from(Some(lead_name.clone())), W))?;
        } else {
            let b = sv(EnumeratedValues::builder().derived_from(Some(name.clone())).build(W))?;
            put_enum(f, b, u, replace, a, &known)?;
        }
    }
    let front = *hits.iter().min().unwrap();
    if lead != front {
        let f = fields.remove(lead);
        fields.insert(front, f);
    }
    Ok(())
}

/// Attach one enumeration; at most one per direction.
fn put_enum(f: &mut FieldInfo, mut new: EnumeratedValues, usage: Usage, replace: bool, a: Access, known: &[(String, Usage)]) -> R<()> {
    let rw = matches!(a, Access::ReadWrite | Access::ReadWriteOnce);
    let vs = &mut f.enumerated_values;
    // what is derived is for the same usage as its original
    for v in vs.iter_mut() {
        if v.usage.is_none() && v.derived_from.is_some() {
            v.usage = known.iter().rev().find(|k| Some(&k.0) == v.derived_from.as_ref()).map(|k| k.1);
        }
    }
    if usage == Usage::ReadWrite {
        if !vs.is_empty() && !replace {
            return e("occupied");
        }
        *vs = vec![new];
        return Ok(());
    }
    match vs.len() {
        0 => vs.push(new),
        1 => match vs[0].usage {
            Some(u) if u == usage || u == Usage::ReadWrite => {
                if !replace {
                    return e("occupied");
                }
                vs[0] = new;
            }
            None if rw => {
                // the present one covers both directions: keep it for the other direction
                vs[0].usage = Some(if usage == Usage::Read { Usage::Write } else { Usage::Read });
                new.usage = Some(usage);
                vs.push(new);
            }
            None => {
                if !replace {
                    return e("occupied");
                }
                vs[0] = new;
            }
            Some(_) => vs.push(new),
        },
        2 => {
            if !replace {
                return e("occupied");
            }
            for v in vs.iter_mut() {
                if v.usage == Some(usage) {
                    *v = new.clone();
                }
            }
        }
        _ => return e("too many"),
    }
    Ok(())
}
