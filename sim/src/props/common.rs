//! Shared by the properties: statistics, scenario building.
use crate::gen::{self, ChainOpts, Codec, ExtrinsicParts, TxParts};
use crate::mem::{Fault, FAULT_KINDS};
use crate::meta::{real, MetaInfo, MetaSpec, FORM_FLASH, FORM_V14, FORM_V15, REAL};
use crate::ops::*;
use crate::prng::{fnv, Rng};
use frame_metadata::v14::{StorageEntryType, StorageHasher};
use parity_scale_codec::{Decode, Encode};
use scale_info::TypeDef;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug, Encode, Decode)]
pub struct Violation {
    /// What is wrong, without the particulars; the same for the same bug.
    pub class: String,
    pub msg: String,
    /// Scenario that tries only what failed.
    pub narrow: Option<Scenario>,
}

pub fn violation<T>(class: impl Into<String>, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), msg: msg.into(), narrow: None })
}

/// What a batch of runs covered; merged over all workers.
#[derive(Clone, Debug, Default, Encode, Decode)]
pub struct Stats {
    pub runs: u64,
    pub execs: u64,
    pub checks: u64,
    pub reads: u64,
    pub ticks: u64,
    pub fired: [u64; FAULT_KINDS],
    pub meta_fired: u64,
    pub ops: BTreeMap<String, u64>,
    pub classes: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub metas: BTreeMap<String, u64>,
    /// Distinct executions: by every read made, error returned and the outcome.
    pub traces: BTreeSet<u64>,
    /// Those in which the property's own condition was at stake.
    pub nontrivial: BTreeSet<u64>,
    pub samples: Vec<String>,
    pub digest: u64,
    pub known: BTreeMap<String, u64>,
    /// Distinct interleavings of sessions, and switches made in them.
    pub schedules: BTreeSet<u64>,
    pub switches: u64,
}

impl Stats {
    pub fn probe(&mut self, name: &str) {
        *self.probes.entry(name.into()).or_default() += 1;
    }
    pub fn known(&mut self, name: &str) {
        *self.known.entry(name.into()).or_default() += 1;
    }
    /// Account for one execution on the device.
    pub fn exec(&mut self, w: &World, op: &Op, o: &Outcome, nontrivial: bool) {
        crate::driver::beat();
        self.execs += 1;
        *self.ops.entry(op.name().into()).or_default() += 1;
        let mut d = w.mem.lock();
        self.reads += d.reads;
        self.ticks += d.ticks;
        for i in 0..FAULT_KINDS {
            self.fired[i] += d.fired[i];
        }
        let mut h = fnv(d.digest, op.name().as_bytes());
        h = fnv(h, &o.digest().to_le_bytes());
        d.reads = 0;
        d.ticks = 0;
        d.digest = 0;
        d.fired = Default::default();
        drop(d);
        self.digest = fnv(self.digest, &h.to_le_bytes());
        self.traces.insert(h);
        if nontrivial {
            self.nontrivial.insert(h);
        }
        let c = o.class();
        if self.classes.len() < 400 || self.classes.contains_key(&c) {
            *self.classes.entry(c).or_default() += 1;
        }
    }
    /// Account for sessions run together on this device.
    pub fn sessions(&mut self, w: &World, schedule: (u64, u32, u32)) {
        let mut d = w.mem.lock();
        self.reads += d.reads;
        self.ticks += d.ticks;
        for i in 0..FAULT_KINDS {
            self.fired[i] += d.fired[i];
        }
        let h = fnv(d.digest, &schedule.0.to_le_bytes());
        d.reads = 0;
        d.ticks = 0;
        d.digest = 0;
        d.fired = Default::default();
        self.digest = fnv(self.digest, &h.to_le_bytes());
        self.schedules.insert(schedule.0);
        self.switches += schedule.1 as u64;
    }
    /// One operation of those sessions.
    pub fn part(&mut self, op: &Op, text: u64, schedule: u64, nontrivial: bool) {
        self.execs += 1;
        *self.ops.entry(op.name().into()).or_default() += 1;
        let h = fnv(fnv(text, op.name().as_bytes()), &schedule.to_le_bytes());
        self.digest = fnv(self.digest, &h.to_le_bytes());
        self.traces.insert(h);
        if nontrivial {
            self.nontrivial.insert(h);
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.execs += o.execs;
        self.checks += o.checks;
        self.reads += o.reads;
        self.ticks += o.ticks;
        for i in 0..FAULT_KINDS {
            self.fired[i] += o.fired[i];
        }
        self.meta_fired += o.meta_fired;
        for (a, b) in [
            (&mut self.ops, o.ops),
            (&mut self.classes, o.classes),
            (&mut self.probes, o.probes),
            (&mut self.metas, o.metas),
            (&mut self.known, o.known),
        ] {
            for (k, v) in b {
                *a.entry(k).or_default() += v;
            }
        }
        self.traces.extend(o.traces);
        self.nontrivial.extend(o.nontrivial);
        self.schedules.extend(o.schedules);
        self.switches += o.switches;
        if self.samples.len() < 4 {
            self.samples.extend(o.samples);
            self.samples.truncate(4);
        }
        self.digest = fnv(self.digest, &o.digest.to_le_bytes());
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    TypedAll,
    TypedAt,
    Tx,
    TxUnmarked,
    CallUnmarked,
    ExtsUnmarked,
    Parts,
    Extrinsic,
    Storage,
    Key,
    Version,
}

pub const ALL_KINDS: [Kind; 11] = [
    Kind::TypedAll,
    Kind::TypedAt,
    Kind::Tx,
    Kind::TxUnmarked,
    Kind::CallUnmarked,
    Kind::ExtsUnmarked,
    Kind::Parts,
    Kind::Extrinsic,
    Kind::Storage,
    Kind::Key,
    Kind::Version,
];

pub const WHOLE_KINDS: [Kind; 7] = [
    Kind::TypedAll,
    Kind::Tx,
    Kind::TxUnmarked,
    Kind::ExtsUnmarked,
    Kind::Extrinsic,
    Kind::Storage,
    Kind::Key,
];

/// Which metadata to take for the run.
#[derive(Clone, Copy, Debug)]
pub struct MetaOpts {
    /// Percentage of runs with metadata of existing chains.
    pub real: u64,
    /// Percentage of runs with the type table on the device.
    pub flash: u64,
    pub depth: u32,
}

thread_local! {
    static CODECS: RefCell<BTreeMap<String, Codec>> = const { RefCell::new(BTreeMap::new()) };
}

pub fn codec_for(spec: &MetaSpec, info: &MetaInfo) -> Codec {
    match spec {
        MetaSpec::Real { name, .. } => CODECS.with(|c| {
            c.borrow_mut().entry(name.clone()).or_insert_with(|| Codec::new(info.types.clone())).clone()
        }),
        MetaSpec::Synth(_) => Codec::new(info.types.clone()),
    }
}

/// Scenario under construction.
pub struct Build {
    pub r: Rng,
    pub scn: Scenario,
    pub infos: Vec<MetaInfo>,
    pub codecs: Vec<Codec>,
    /// Types to be decoded directly, per metadata.
    pub direct: Vec<Vec<u32>>,
}

/// Elements that take no bytes make the work unlimited (known finding of C11).
pub fn zero_size_hazard(types: &[crate::meta::Ty]) -> bool {
    fn min(types: &[crate::meta::Ty], id: u32, depth: u32) -> u64 {
        if depth > 40 {
            return 0;
        }
        let Some(t) = types.get(id as usize) else { return 1 };
        match &t.type_def {
            TypeDef::Composite(c) => c.fields.iter().map(|f| min(types, f.ty.id, depth + 1)).max().unwrap_or(0),
            TypeDef::Tuple(c) => c.fields.iter().map(|f| min(types, f.id, depth + 1)).max().unwrap_or(0),
            TypeDef::Array(a) => if a.len == 0 { 0 } else { min(types, a.type_param.id, depth + 1) },
            TypeDef::Variant(v) => !v.variants.is_empty() as u64,
            TypeDef::Compact(c) => min(types, c.type_param.id, depth + 1),
            _ => 1,
        }
    }
    types.iter().any(|t| match &t.type_def {
        TypeDef::Sequence(s) => min(types, s.type_param.id, 0) == 0,
        TypeDef::Array(a) => a.len > 10_000 && min(types, a.type_param.id, 0) == 0,
        _ => false,
    })
}

pub fn pick_meta(r: &mut Rng, index: u64, o: MetaOpts) -> (MetaSpec, Vec<u32>) {
    let flash = r.pct(o.flash);
    if r.pct(o.real) {
        // few loads of the large files per batch
        let name = REAL[(index / 64 % REAL.len() as u64) as usize].to_string();
        (MetaSpec::Real { name, flash }, vec![])
    } else {
        let form = if flash {
            FORM_FLASH
        } else if r.pct(50) {
            FORM_V14
        } else {
            FORM_V15
        };
        let depth = r.range(1, o.depth.max(1) as u64) as u32;
        let cap = *r.pick(&[20usize, 40, 80]);
        let (s, d) = gen::chain(r, ChainOpts { depth, form, cap });
        (MetaSpec::Synth(s), d)
    }
}

impl Build {
    pub fn new(prop: &str, mut r: Rng) -> Self {
        gen::set_huge(matches!(prop, "C01" | "C06" | "C08" | "C11" | "C13" | "C14" | "C18"));
        let seed = r.u64();
        let page = *r.pick(&[1u32, 16, 64, 256, 264, 4096]);
        let giants = match prop {
            "C12" => 6,
            "C01" | "C06" | "C07" | "C11" | "C08" | "C13" | "C14" | "C18" => 2,
            _ => 0,
        };
        gen::set_giant(giants > 0 && r.below(1000) < giants);
        Build {
            r,
            scn: Scenario {
                prop: prop.into(),
                seed,
                page,
                metas: vec![],
                blobs: vec![],
                ops: vec![],
                plan: Plan::default(),
            },
            infos: vec![],
            codecs: vec![],
            direct: vec![],
        }
    }
    pub fn meta(&mut self, index: u64, o: MetaOpts) -> u8 {
        let mut r = self.r.fork();
        let (spec, direct) = pick_meta(&mut r, index, o);
        self.add_meta(spec, direct)
    }
    pub fn add_meta(&mut self, spec: MetaSpec, direct: Vec<u32>) -> u8 {
        let info = spec.info();
        self.codecs.push(codec_for(&spec, &info));
        self.infos.push(info);
        self.direct.push(direct);
        self.scn.metas.push(spec);
        self.scn.metas.len() as u8 - 1
    }
    pub fn blob(&mut self, b: Vec<u8>) -> u8 {
        self.scn.blobs.push(b);
        self.scn.blobs.len() as u8 - 1
    }
    pub fn rand_type(&mut self, m: u8) -> u32 {
        let m = m as usize;
        let n = self.infos[m].types.len();
        if !self.direct[m].is_empty() && self.r.pct(85) {
            let d = self.direct[m].clone();
            let t = *self.r.pick(&d);
            if self.codecs[m].possible(t) {
                return t;
            }
        }
        for _ in 0..20 {
            let t = self.r.usize(n) as u32;
            if self.codecs[m].possible(t) {
                return t;
            }
        }
        self.infos[m].call_ty
    }
    pub fn value(&mut self, m: u8, ty: u32) -> Vec<u8> {
        let budget = *self.r.pick(&[20usize, 100, 300]);
        gen::value_bytes(&self.codecs[m as usize].clone(), ty, &mut self.r, budget)
    }
    pub fn tx(&mut self, m: u8) -> TxParts {
        gen::tx(&self.codecs[m as usize].clone(), &self.infos[m as usize].clone(), &mut self.r)
    }
    pub fn xt(&mut self, m: u8) -> ExtrinsicParts {
        let signed = self.r.pct(60);
        gen::extrinsic(&self.codecs[m as usize].clone(), &self.infos[m as usize].clone(), &mut self.r, signed)
    }
    fn genesis(&mut self, g: [u8; 32]) -> Option<[u8; 32]> {
        self.r.pct(70).then_some(g)
    }
    /// Hashers, key type, key bytes after the prefix; the type of tuple keys
    /// is added to the table of synthetic metadata.
    pub fn key(&mut self, m: u8, prefix: &[u8]) -> (Vec<u8>, u32, Vec<u8>) {
        let mi = m as usize;
        if !self.infos[mi].storage.is_empty() && self.r.pct(80) {
            for _ in 0..20 {
                let s = self.infos[mi].storage.clone();
                let e = self.r.pick(&s).clone();
                if let StorageEntryType::Map { hashers, key, .. } = &e.ty {
                    if !self.codecs[mi].possible(key.id) {
                        continue;
                    }
                    if let Some((k, _)) =
                        gen::storage_key(&self.codecs[mi].clone(), hashers, key.id, prefix, &mut self.r)
                    {
                        return (hasher_numbers(hashers), key.id, k);
                    }
                }
            }
        }
        let mut hashers = gen::rand_hashers(&mut self.r);
        let key_ty = if hashers.len() == 1 {
            self.rand_type(m)
        } else if let MetaSpec::Synth(s) = &mut self.scn.metas[mi] {
            let mut el = vec![];
            for _ in 0..hashers.len() {
                let d = &self.direct[mi];
                let t = if d.is_empty() || self.r.pct(50) {
                    self.r.usize(s.types.len()) as u32
                } else {
                    *self.r.pick(d)
                };
                el.push(if self.codecs[mi].possible(t) { t } else { s.call_ty });
            }
            let docs = if self.r.pct(30) { vec!["key".to_string(), "docs".to_string()] } else { vec![] };
            s.types.push(crate::meta::Ty {
                path: scale_info::Path { segments: vec![] },
                type_params: vec![],
                type_def: scale_info::TypeDefTuple { fields: el.iter().map(|t| crate::meta::sym(*t)).collect() }.into(),
                docs,
            });
            let id = s.types.len() as u32 - 1;
            let info = self.scn.metas[mi].info();
            self.codecs[mi] = Codec::new(info.types.clone());
            self.infos[mi] = info;
            id
        } else {
            let n = self.infos[mi].types.len();
            let from = self.r.usize(n);
            let types = self.infos[mi].types.clone();
            let found = (0..n).map(|i| (from + i) % n).find(|i| match &types[*i].type_def {
                TypeDef::Tuple(t) => t.fields.len() > 1 && self.codecs[mi].possible(*i as u32),
                _ => false,
            });
            match found {
                Some(i) => {
                    if let TypeDef::Tuple(t) = &types[i].type_def {
                        while hashers.len() < t.fields.len() {
                            hashers.push(gen::HASHERS[self.r.usize(7)].clone());
                        }
                        hashers.truncate(t.fields.len());
                    }
                    i as u32
                }
                None => {
                    hashers.truncate(1);
                    self.rand_type(m)
                }
            }
        };
        let (k, _) = gen::storage_key(&self.codecs[mi].clone(), &hashers, key_ty, prefix, &mut self.r)
            .expect("hashers fit the key type");
        (hasher_numbers(&hashers), key_ty, k)
    }
    pub fn storage(&mut self, m: u8) -> (Vec<u8>, Vec<u8>, Entry) {
        let mi = m as usize;
        let prefix = self.r.bytes(32);
        if !self.infos[mi].storage.is_empty() && self.r.pct(85) {
            for _ in 0..20 {
                let s = self.infos[mi].storage.clone();
                let e = self.r.pick(&s).clone();
                let (k, vt) = entry_types(&e);
                let kt = k.as_ref().map(|k| k.1).unwrap_or(vt);
                if !self.codecs[mi].possible(vt) || !self.codecs[mi].possible(kt) {
                    continue;
                }
                let key = match k {
                    None => prefix.clone(),
                    Some((h, kt)) => match gen::storage_key(&self.codecs[mi].clone(), &h, kt, &prefix, &mut self.r) {
                        Some((k, _)) => k,
                        None => continue,
                    },
                };
                let v = self.value(m, vt);
                return (key, v, e);
            }
        }
        let (key, ty): (Vec<u8>, StorageEntryType<scale_info::form::PortableForm>) = if self.r.pct(25) {
            let vt = self.rand_type(m);
            (prefix, StorageEntryType::Plain(crate::meta::sym(vt)))
        } else {
            let (h, kt, k) = self.key(m, &prefix);
            let vt = self.rand_type(m);
            (
                k,
                StorageEntryType::Map {
                    hashers: hashers_from(&h),
                    key: crate::meta::sym(kt),
                    value: crate::meta::sym(vt),
                },
            )
        };
        let vt = match &ty {
            StorageEntryType::Plain(v) => v.id,
            StorageEntryType::Map { value, .. } => value.id,
        };
        let v = self.value(m, vt);
        let e = gen::entry(ty, &mut self.r);
        (key, v, e)
    }
    /// Add a valid record and the operation that reads it.
    pub fn record(&mut self, m: u8, kind: Kind) -> Op {
        let mi = m as usize;
        let info = &self.infos[mi];
        let can = |t: u32| self.codecs[mi].possible(t);
        let kind = match kind {
            // metadata of old chains does not describe the extrinsic
            Kind::Extrinsic if ![info.address_ty, info.signature_ty, info.extra_ty, info.call_ty].into_iter().all(can) => {
                Kind::TypedAll
            }
            k => k,
        };
        match kind {
            Kind::TypedAll => {
                let ty = self.rand_type(m);
                let v = self.value(m, ty);
                let blob = self.blob(v);
                Op::Typed { meta: m, blob, ty, pos: 0, all: true }
            }
            Kind::TypedAt => {
                let ty = self.rand_type(m);
                let before = self.r.below(40) as usize;
                let mut b = self.r.bytes(before);
                b.extend(self.value(m, ty));
                let after = self.r.below(40) as usize;
                b.extend(self.r.bytes(after));
                let blob = self.blob(b);
                Op::Typed { meta: m, blob, ty, pos: before as u32, all: false }
            }
            Kind::Tx => {
                let t = self.tx(m);
                let blob = self.blob(t.marked());
                Op::Tx { meta: m, blob, genesis: self.genesis(t.genesis) }
            }
            Kind::TxUnmarked => {
                let t = self.tx(m);
                let blob = self.blob(t.unmarked());
                Op::TxUnmarked { meta: m, blob, genesis: self.genesis(t.genesis) }
            }
            Kind::CallUnmarked => {
                let t = self.tx(m);
                let blob = self.blob(t.unmarked());
                Op::CallUnmarked { meta: m, blob, pos: 0 }
            }
            Kind::ExtsUnmarked => {
                let t = self.tx(m);
                let pos = t.call.len() as u32;
                let blob = self.blob(t.unmarked());
                Op::ExtsUnmarked { meta: m, blob, pos, genesis: self.genesis(t.genesis) }
            }
            Kind::Parts => {
                let t = self.tx(m);
                let blob = self.blob(t.marked());
                let g = self.genesis(t.genesis);
                let mut steps = vec![Step::Call, Step::Exts(g)];
                if self.r.pct(50) {
                    steps.reverse();
                }
                Op::Marked { meta: m, blob, steps }
            }
            Kind::Extrinsic => {
                let x = self.xt(m);
                let blob = self.blob(x.record());
                Op::Extrinsic { meta: m, blob }
            }
            Kind::Storage => {
                let (k, v, e) = self.storage(m);
                let key = self.blob(k);
                let value = self.blob(v);
                Op::Storage { meta: m, key, value, entry: e.encode() }
            }
            Kind::Key => {
                let n = if self.r.pct(50) { 0 } else { 32 };
                let prefix = self.r.bytes(n);
                let (hashers, key_ty, k) = self.key(m, &prefix);
                let blob = self.blob(k);
                Op::Key { meta: m, blob, pos: n as u32, hashers, key_ty }
            }
            Kind::Version => Op::Version { meta: m },
        }
    }
    pub fn finish(self) -> Scenario {
        self.scn
    }
}

pub fn hasher_numbers(h: &[StorageHasher]) -> Vec<u8> {
    h.iter().map(|h| gen::HASHERS.iter().position(|x| x == h).unwrap() as u8).collect()
}

/// Damage to a record of `n` bytes.
pub fn rand_mut(r: &mut Rng, n: usize) -> Mut {
    let n = n.max(1) as u64;
    // the start of a record decides most
    let at = if r.pct(40) { r.below(n.min(8)) } else { r.below(n) } as u32;
    match r.below(12) {
        0..=3 => Mut::Set { at, val: *r.pick(&[0, 1, 2, 3, 4, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff]) },
        4..=6 => Mut::Xor { at, val: 1 << r.below(8) },
        7 => Mut::Set { at, val: r.u64() as u8 },
        8 => {
            let k = r.range(1, 5) as usize;
            Mut::Insert { at, bytes: r.bytes(k) }
        }
        9 => Mut::Remove { at, len: r.range(1, 5) as u32 },
        10 => {
            let k = r.range(1, 9) as usize;
            Mut::Append { bytes: r.bytes(k) }
        }
        _ => Mut::Truncate { len: r.below(n) as u32 },
    }
}

/// Slow reads only: nothing about the answers may change.
pub fn slow_faults(r: &mut Rng) -> Vec<PFault> {
    if r.pct(50) {
        return vec![];
    }
    (0..r.range(1, 3))
        .map(|_| PFault::Slow {
            at: r.below(60) as u32,
            count: r.range(1, 200) as u32,
            ticks: *r.pick(&[10u32, 1000, 1_000_000]),
        })
        .collect()
}

pub fn note_metas(scn: &Scenario, st: &mut Stats) {
    for m in &scn.metas {
        let n = match m {
            MetaSpec::Real { name, flash } => format!("{name}{}", if *flash { " (table on device)" } else { " (in memory)" }),
            MetaSpec::Synth(s) => match s.form {
                FORM_V14 => "synthetic v14 (in memory)".into(),
                FORM_V15 => "synthetic v15 (in memory)".into(),
                _ => "synthetic (table on device)".to_string(),
            },
        };
        *st.metas.entry(n).or_default() += 1;
    }
}

/// One line about the scenario, for samples and reports.
pub fn describe(scn: &Scenario) -> String {
    let metas: Vec<String> = scn
        .metas
        .iter()
        .map(|m| match m {
            MetaSpec::Real { name, flash } => format!("{name}{}", if *flash { "@device" } else { "" }),
            MetaSpec::Synth(s) => format!("synthetic({} types, form {})", s.types.len(), s.form),
        })
        .collect();
    let ops: Vec<String> = scn.ops.iter().map(|o| o.name().to_string()).collect();
    let blobs: Vec<String> = scn
        .blobs
        .iter()
        .map(|b| if b.len() > 24 { format!("{}…({})", hex::encode(&b[..24]), b.len()) } else { hex::encode(b) })
        .collect();
    let p = &scn.plan;
    format!(
        "metadata [{}], page {}, operations [{}], records [{}], faults {:?}, metadata failures {:?}, damage {:?}, cuts {:?}, switches {}, sweep {}",
        metas.join(", "),
        scn.page,
        ops.join(", "),
        blobs.join(", "),
        &p.faults[..p.faults.len().min(4)],
        &p.meta_fails[..p.meta_fails.len().min(4)],
        &p.muts[..p.muts.len().min(4)],
        &p.cuts[..p.cuts.len().min(6)],
        p.switches.len(),
        p.sweep,
    )
}

/// Load real metadata early so that runs do not pay for it.
#[allow(dead_code)]
pub fn warm(name: &str) -> Arc<crate::meta::RealMeta> {
    real(name)
}

/// A random failure plan over `n` reads.
pub fn rand_read_faults(r: &mut Rng) -> Vec<PFault> {
    let mut v = vec![];
    for _ in 0..r.weighted(&[0, 7, 2, 1]) {
        let code = r.below(1_000_000) as u32;
        let at = r.below(1 << 16) as u32;
        v.push(match r.below(10) {
            0..=4 => PFault::Reads { at, count: 1, code },
            5..=6 => PFault::Reads { at, count: r.range(2, 6) as u32, code },
            _ => PFault::Reads { at, count: u32::MAX, code },
        });
    }
    v
}

/// Bring planned read numbers into the range of reads the operation makes.
pub fn fit(f: &[Fault], n: u32) -> Vec<Fault> {
    let n = n.max(1);
    f.iter()
        .map(|f| match f.clone() {
            Fault::Reads { at, count, code } => Fault::Reads { at: at % n, count, code },
            Fault::Rewrite { at, start, bytes } => Fault::Rewrite { at: at % n, start, bytes },
            Fault::Flip { at, off, xor } => Fault::Flip { at: at % n, off, xor },
            f => f,
        })
        .collect()
}

/// Replace the operations and plan by a single case.
pub fn narrowed(scn: &Scenario, op: Op, plan: Plan) -> Option<Scenario> {
    let mut s = scn.clone();
    s.ops = vec![op];
    s.plan = plan;
    Some(s)
}
