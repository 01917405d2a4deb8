//! Operations of the crate as run in simulated sessions, and their outcomes.
use crate::mem::{far, Device, Fault, SimBuf, SimErr, SimMem};
use crate::meta::{real, relocate, sim_metadata, make_table, sym, Meta, MetaFail, MetaInfo, MetaSpec, SimMetadata, FORM_V14, FORM_V15};
use crate::prng::{fnv, Rng};
use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory, NoEntries};
use frame_metadata::v14::{RuntimeMetadataV14, StorageEntryMetadata, StorageEntryType, StorageHasher};
use parity_scale_codec::{Decode, Encode};
use primitive_types::H256;
use scale_info::form::PortableForm;
use std::cell::RefCell;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use substrate_parser::cards::{Call, ExtendedCard, ExtendedData};
use substrate_parser::error::*;
use substrate_parser::storage_data::{process_key_mapped, KeyData, KeyPart, Storage};
use substrate_parser::traits::SpecNameVersion;
use substrate_parser::unchecked_extrinsic::UncheckedExtrinsic;
use substrate_parser::*;

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub enum Step {
    Arm(Vec<PFault>),
    Clear,
    Call,
    Exts(Option<[u8; 32]>),
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub enum Op {
    /// Value of type `ty` at `pos`; `all`: the record must be used up.
    Typed { meta: u8, blob: u8, ty: u32, pos: u32, all: bool },
    /// `parse_transaction`.
    Tx { meta: u8, blob: u8, genesis: Option<[u8; 32]> },
    /// `parse_transaction_unmarked`.
    TxUnmarked { meta: u8, blob: u8, genesis: Option<[u8; 32]> },
    /// `decode_as_call_unmarked`.
    CallUnmarked { meta: u8, blob: u8, pos: u32 },
    /// `decode_extensions_unmarked`.
    ExtsUnmarked { meta: u8, blob: u8, pos: u32, genesis: Option<[u8; 32]> },
    /// `MarkedData::mark`, then calls on the marked data.
    Marked { meta: u8, blob: u8, steps: Vec<Step> },
    /// `decode_as_unchecked_extrinsic`.
    Extrinsic { meta: u8, blob: u8 },
    /// `decode_as_storage_entry`.
    Storage { meta: u8, key: u8, value: u8, entry: Vec<u8> },
    /// `process_key_mapped`.
    Key { meta: u8, blob: u8, pos: u32, hashers: Vec<u8>, key_ty: u32 },
    /// `spec_name_version`.
    Version { meta: u8 },
}

impl Op {
    pub fn meta(&self) -> usize {
        *match self {
            Op::Typed { meta, .. }
            | Op::Tx { meta, .. }
            | Op::TxUnmarked { meta, .. }
            | Op::CallUnmarked { meta, .. }
            | Op::ExtsUnmarked { meta, .. }
            | Op::Marked { meta, .. }
            | Op::Extrinsic { meta, .. }
            | Op::Storage { meta, .. }
            | Op::Key { meta, .. }
            | Op::Version { meta } => meta,
        } as usize
    }
    pub fn blobs(&self) -> Vec<usize> {
        match self {
            Op::Typed { blob, .. }
            | Op::Tx { blob, .. }
            | Op::TxUnmarked { blob, .. }
            | Op::CallUnmarked { blob, .. }
            | Op::ExtsUnmarked { blob, .. }
            | Op::Marked { blob, .. }
            | Op::Extrinsic { blob, .. }
            | Op::Key { blob, .. } => vec![*blob as usize],
            Op::Storage { key, value, .. } => vec![*key as usize, *value as usize],
            Op::Version { .. } => vec![],
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Op::Typed { all: true, .. } => "typed_value_all",
            Op::Typed { .. } => "typed_value_at_position",
            Op::Tx { .. } => "transaction",
            Op::TxUnmarked { .. } => "transaction_unmarked",
            Op::CallUnmarked { .. } => "call_unmarked",
            Op::ExtsUnmarked { .. } => "extensions_unmarked",
            Op::Marked { .. } => "marked_transaction_parts",
            Op::Extrinsic { .. } => "unchecked_extrinsic",
            Op::Storage { .. } => "storage_entry",
            Op::Key { .. } => "storage_key",
            Op::Version { .. } => "version_record",
        }
    }
    /// Operations that must use up their whole record.
    pub fn whole(&self) -> bool {
        matches!(
            self,
            Op::Typed { all: true, .. }
                | Op::Tx { .. }
                | Op::TxUnmarked { .. }
                | Op::ExtsUnmarked { .. }
                | Op::Extrinsic { .. }
                | Op::Storage { .. }
                | Op::Key { .. }
        )
    }
}

/// Place on the device, independent of where things end up.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode)]
pub enum Place {
    Blob(u8),
    Table(u8),
    /// The gap following object number `.0` (tables come first, then blobs).
    Gap(u8),
}

/// Fault as planned: places are relative.
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub enum PFault {
    Reads { at: u32, count: u32, code: u32 },
    Range { place: Place, off: u32, len: u32, code: u32 },
    Rewrite { at: u32, place: Place, off: u32, bytes: Vec<u8> },
    Slow { at: u32, count: u32, ticks: u32 },
    Flip { at: u32, off: u32, xor: u8 },
    /// Just before read `at` the index entry of type `from` comes to point to
    /// the record of type `to`.
    Relink { at: u32, table: u8, from: u32, to: u32 },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ErrInfo {
    pub text: String,
    /// Error of the device carried in the error.
    pub dev: Option<SimErr>,
    /// The error says the metadata source failed.
    pub meta: bool,
    /// Discriminating name, without numbers.
    pub kind: String,
}

#[derive(Debug, PartialEq)]
pub enum Val {
    Ext(Box<ExtendedData>),
    Exts(Vec<ExtendedData>),
    Call(Box<Call>),
    Tx { exts: Vec<ExtendedData>, call: Result<Box<Call>, ErrInfo> },
    TxUnmarked { call: Box<Call>, exts: Vec<ExtendedData> },
    Xt(Box<UncheckedExtrinsic>),
    Storage(Box<Storage>),
    Key(KeyData),
    Version(SpecNameVersion),
    Many(Vec<Outcome>),
}

#[derive(Debug, PartialEq)]
pub enum Outcome {
    Done { val: Val, end: Option<usize> },
    Fail(ErrInfo),
    Panic(String),
}

/// Memory addresses printed by `BitVec` differ between processes.
pub fn scrub(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("addr: 0x") {
        out.push_str(&rest[..i]);
        out.push_str("addr: _");
        let t = &rest[i + 8..];
        let n = t.find(|c: char| !c.is_ascii_hexdigit()).unwrap_or(t.len());
        rest = &t[n..];
    }
    out.push_str(rest);
    out
}

pub fn brief(x: &impl Debug) -> String {
    let mut s = scrub(&format!("{x:?}"));
    if s.len() > 900 {
        let mut n = 900;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push('…');
    }
    s
}

impl Outcome {
    pub fn ok(&self) -> bool {
        matches!(self, Outcome::Done { .. })
    }
    /// Fully successful: also the call, for transactions.
    pub fn full(&self) -> bool {
        match self {
            Outcome::Done { val: Val::Tx { call, .. }, .. } => call.is_ok(),
            Outcome::Done { val: Val::Many(v), .. } => v.iter().all(|o| o.full()),
            Outcome::Done { .. } => true,
            _ => false,
        }
    }
    pub fn class(&self) -> String {
        match self {
            Outcome::Done { val: Val::Tx { call: Err(e), .. }, .. } => format!("ok, call {}", e.kind),
            Outcome::Done { .. } => "ok".into(),
            Outcome::Fail(e) => e.kind.clone(),
            Outcome::Panic(_) => "panic".into(),
        }
    }
    pub fn digest(&self) -> u64 {
        let h = fnv(0, self.class().as_bytes());
        match self {
            Outcome::Done { end: Some(e), .. } => fnv(h, &(*e as u64).to_le_bytes()),
            Outcome::Fail(e) => fnv(h, e.text.as_bytes()),
            _ => h,
        }
    }
    pub fn panicked(&self) -> Option<&str> {
        match self {
            Outcome::Panic(m) => Some(m),
            Outcome::Done { val: Val::Many(v), .. } => v.iter().find_map(|o| o.panicked()),
            _ => None,
        }
    }
}

/// What is the device error in there.
pub trait Dev: ExternalMemory {
    fn sim(e: &Self::ExternalMemoryError) -> Option<SimErr>;
    fn arm(&mut self, _f: &[Fault]) {}
    fn clear(&mut self) {}
}

impl Dev for SimMem {
    fn sim(e: &SimErr) -> Option<SimErr> {
        Some(e.clone())
    }
    fn arm(&mut self, f: &[Fault]) {
        let s = self.session;
        self.lock().arm_for(s, f)
    }
    fn clear(&mut self) {
        let s = self.session;
        self.lock().arm_for(s, &[])
    }
}

impl Dev for () {
    fn sim(_: &NoEntries) -> Option<SimErr> {
        None
    }
}

fn parser_dev<E: Dev>(e: &ParserError<E>) -> Option<SimErr> {
    match e {
        ParserError::Buffer(BufferError::External(x)) => E::sim(x),
        ParserError::Registry(RegistryError::External(x)) => E::sim(x),
        _ => None,
    }
}

fn kind_of(text: &str) -> String {
    text.chars().filter(|c| !c.is_ascii_digit()).take(60).collect()
}

fn perr<E: Dev>(e: &ParserError<E>) -> ErrInfo {
    let text = format!("{e:?}");
    // the error can also be displayed
    let _ = format!("{e}");
    ErrInfo { kind: kind_of(&text), text, dev: parser_dev(e), meta: false }
}

fn serr<E: Dev, M: AsMetadata<E>>(e: &SignableError<E, M>) -> ErrInfo {
    let text = format!("{e:?}");
    let _ = format!("{e}");
    let (dev, meta) = match e {
        SignableError::Parsing(p) => (parser_dev(p), false),
        SignableError::MetaStructure(_) => (None, true),
        _ => (None, false),
    };
    ErrInfo { kind: kind_of(&text), text, dev, meta }
}

fn uerr<E: Dev, M: AsMetadata<E>>(e: &UncheckedExtrinsicError<E, M>) -> ErrInfo {
    let text = format!("{e:?}");
    let _ = format!("{e}");
    let (dev, meta) = match e {
        UncheckedExtrinsicError::Parsing(p) => (parser_dev(p), false),
        UncheckedExtrinsicError::MetaStructure(_) => (None, true),
        _ => (None, false),
    };
    ErrInfo { kind: kind_of(&text), text, dev, meta }
}

fn sterr<E: Dev>(e: &StorageError<E>) -> ErrInfo {
    let text = format!("{e:?}");
    let _ = format!("{e}");
    let dev = match e {
        StorageError::ParsingKey(p) | StorageError::ParsingValue(p) => parser_dev(p),
        _ => None,
    };
    ErrInfo { kind: kind_of(&text), text, dev, meta: false }
}

fn merr<X: Debug + std::fmt::Display>(e: &X) -> ErrInfo {
    let text = format!("MetaStructure({e:?})");
    let _ = format!("{e}");
    ErrInfo { kind: kind_of(&text), text, dev: None, meta: true }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Keep panic messages out of the output.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = format!("{m} at {at}");
        if std::env::var_os("SIM_PANICS").is_some() {
            eprintln!("{m}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = m);
    }));
}

pub fn guarded(f: impl FnOnce() -> Outcome) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(_) => Outcome::Panic(PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn hashers_from(v: &[u8]) -> Vec<StorageHasher> {
    v.iter().map(|i| crate::gen::HASHERS[*i as usize % 7].clone()).collect()
}

fn done(val: Val) -> Outcome {
    Outcome::Done { val, end: None }
}

/// Run the operation with whatever memory and metadata are given.
fn run_op<B, E, M>(op: &Op, get: &dyn Fn(u8) -> B, faults: &dyn Fn(&[PFault]) -> Vec<Fault>, mem: &mut E, meta: &M) -> Outcome
where
    B: AddressableBuffer<E>,
    E: Dev,
    M: AsCompleteMetadata<E>,
{
    match op {
        Op::Typed { blob, ty, pos, all, .. } => {
            let b = get(*blob);
            let reg = meta.types();
            if *all {
                match decode_all_as_type::<B, E, M>(&sym(*ty), &b, mem, &reg) {
                    Ok(v) => done(Val::Ext(Box::new(v))),
                    Err(e) => Outcome::Fail(perr(&e)),
                }
            } else {
                let mut p = far() + *pos as usize;
                match decode_as_type_at_position::<B, E, M>(&sym(*ty), &b, mem, &reg, &mut p) {
                    Ok(v) => Outcome::Done { val: Val::Ext(Box::new(v)), end: Some(p.wrapping_sub(far())) },
                    Err(e) => Outcome::Fail(perr(&e)),
                }
            }
        }
        Op::Tx { blob, genesis, .. } => {
            let b = get(*blob);
            match parse_transaction::<B, E, M>(&b, mem, meta, genesis.map(H256)) {
                Ok(t) => done(Val::Tx {
                    exts: t.extensions,
                    call: t.call_result.map(Box::new).map_err(|e| serr(&e)),
                }),
                Err(e) => Outcome::Fail(serr(&e)),
            }
        }
        Op::TxUnmarked { blob, genesis, .. } => {
            let b = get(*blob);
            match parse_transaction_unmarked::<B, E, M>(&b, mem, meta, genesis.map(H256)) {
                Ok(t) => done(Val::TxUnmarked { call: Box::new(t.call), exts: t.extensions }),
                Err(e) => Outcome::Fail(serr(&e)),
            }
        }
        Op::CallUnmarked { blob, pos, .. } => {
            let b = get(*blob);
            let mut p = far() + *pos as usize;
            match decode_as_call_unmarked::<B, E, M>(&b, &mut p, mem, meta) {
                Ok(c) => Outcome::Done { val: Val::Call(Box::new(c)), end: Some(p.wrapping_sub(far())) },
                Err(e) => Outcome::Fail(serr(&e)),
            }
        }
        Op::ExtsUnmarked { blob, pos, genesis, .. } => {
            let b = get(*blob);
            let mut p = far() + *pos as usize;
            match decode_extensions_unmarked::<B, E, M>(&b, &mut p, mem, meta, genesis.map(H256)) {
                Ok(x) => Outcome::Done { val: Val::Exts(x), end: Some(p.wrapping_sub(far())) },
                Err(e) => Outcome::Fail(serr(&e)),
            }
        }
        Op::Marked { blob, steps, .. } => {
            let b = get(*blob);
            let marked = match MarkedData::<B, E, M>::mark(&b, mem) {
                Ok(m) => m,
                Err(e) => return Outcome::Fail(serr(&e)),
            };
            let mut out = Vec::new();
            for s in steps {
                match s {
                    Step::Arm(f) => mem.arm(&faults(f)),
                    Step::Clear => mem.clear(),
                    Step::Call => out.push(guarded(|| match decode_as_call::<B, E, M>(&marked, mem, meta) {
                        Ok(c) => done(Val::Call(Box::new(c))),
                        Err(e) => Outcome::Fail(serr(&e)),
                    })),
                    Step::Exts(g) => {
                        out.push(guarded(|| match decode_extensions::<B, E, M>(&marked, mem, meta, g.map(H256)) {
                            Ok(x) => done(Val::Exts(x)),
                            Err(e) => Outcome::Fail(serr(&e)),
                        }))
                    }
                }
            }
            Outcome::Done { val: Val::Many(out), end: Some(marked.extensions_start()) }
        }
        Op::Extrinsic { blob, .. } => {
            let b = get(*blob);
            match decode_as_unchecked_extrinsic::<B, E, M>(&b, mem, meta) {
                Ok(x) => done(Val::Xt(Box::new(x))),
                Err(e) => Outcome::Fail(uerr(&e)),
            }
        }
        Op::Storage { key, value, entry, .. } => {
            let k = get(*key);
            let v = get(*value);
            let reg = meta.types();
            let entry = entry_of(entry);
            match decode_as_storage_entry::<B, E, M>(&k, &v, mem, &entry, &reg) {
                Ok(s) => done(Val::Storage(Box::new(s))),
                Err(e) => Outcome::Fail(sterr(&e)),
            }
        }
        Op::Key { blob, pos, hashers, key_ty, .. } => {
            let b = get(*blob);
            let reg = meta.types();
            match process_key_mapped::<B, E, M>(&hashers_from(hashers), &sym(*key_ty), &b, mem, far() + *pos as usize, &reg) {
                Ok(k) => done(Val::Key(k)),
                Err(e) => Outcome::Fail(sterr(&e)),
            }
        }
        Op::Version { .. } => match meta.spec_name_version() {
            Ok(v) => done(Val::Version(v)),
            Err(e) => Outcome::Fail(merr(&e)),
        },
    }
}

pub type Entry = StorageEntryMetadata<PortableForm>;
pub fn entry_of(raw: &[u8]) -> Entry {
    Decode::decode(&mut &raw[..]).expect("scenario holds a valid storage entry")
}

/// Complete description of one simulated run.
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct Scenario {
    pub prop: String,
    /// Fills the gaps and decides everything the lists below do not.
    pub seed: u64,
    pub page: u32,
    pub metas: Vec<MetaSpec>,
    pub blobs: Vec<Vec<u8>>,
    pub ops: Vec<Op>,
    pub plan: Plan,
}

/// Faults, damage and schedule of the run. What is used how depends on the
/// property.
#[derive(Clone, Debug, Default, PartialEq, Encode, Decode)]
pub struct Plan {
    pub faults: Vec<PFault>,
    pub meta_fails: Vec<MetaFail>,
    pub muts: Vec<Mut>,
    pub cuts: Vec<u32>,
    pub switches: Vec<(u32, u8)>,
    /// Try everything of its kind (all cuts, all failing reads …) instead.
    pub sweep: bool,
    pub nums: Vec<u64>,
    /// Who runs the operations, in parallel to them.
    pub sessions: Vec<Part>,
}

/// How an operation is run in a session.
#[derive(Clone, Debug, Default, PartialEq, Eq, Encode, Decode)]
pub struct Part {
    pub session: u8,
    /// Data and metadata in ordinary memory.
    pub ram: bool,
    pub device: u8,
    /// Armed for this operation in this session.
    pub faults: Vec<PFault>,
    pub meta_fails: Vec<MetaFail>,
}

#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub enum Mut {
    Set { at: u32, val: u8 },
    Xor { at: u32, val: u8 },
    Insert { at: u32, bytes: Vec<u8> },
    Remove { at: u32, len: u32 },
    Append { bytes: Vec<u8> },
    Truncate { len: u32 },
}

impl Mut {
    pub fn apply(&self, b: &mut Vec<u8>) {
        let n = b.len();
        match self {
            Mut::Set { at, val } if n > 0 => b[*at as usize % n] = *val,
            Mut::Xor { at, val } if n > 0 => b[*at as usize % n] ^= *val,
            Mut::Insert { at, bytes } => {
                let at = *at as usize % (n + 1);
                b.splice(at..at, bytes.iter().cloned());
            }
            Mut::Remove { at, len } if n > 0 => {
                let at = *at as usize % n;
                let end = (at + *len as usize).min(n);
                b.drain(at..end);
            }
            Mut::Append { bytes } => b.extend_from_slice(bytes),
            Mut::Truncate { len } => b.truncate(*len as usize % (n + 1)),
            _ => (),
        }
    }
}

/// The simulated device with everything on it.
pub struct World {
    pub mem: SimMem,
    pub metas: Vec<Arc<Meta>>,
    pub infos: Vec<MetaInfo>,
    pub blobs: Vec<SimBuf>,
    pub tables: Vec<(usize, usize)>,
    pub gaps: Vec<(usize, usize)>,
    pub image: Arc<Vec<u8>>,
    placed: Vec<SimBuf>,
}

impl Scenario {
    pub fn world(&self) -> World {
        let mut r = Rng::for_run(self.seed, "layout", 0);
        let mut bytes: Vec<u8> = Vec::new();
        let mut gaps = Vec::new();
        let gap = |bytes: &mut Vec<u8>, r: &mut Rng| {
            let n = r.range(1, 24) as usize;
            let s = bytes.len();
            bytes.extend_from_slice(&r.bytes(n));
            (s, n)
        };
        let _ = gap(&mut bytes, &mut r);
        let mut metas = Vec::new();
        let mut infos = Vec::new();
        let mut tables = Vec::new();
        for m in &self.metas {
            let info = m.info();
            let start = bytes.len();
            let meta = match m {
                MetaSpec::Real { name, flash } => {
                    let rm = real(name);
                    if *flash {
                        bytes.extend_from_slice(&relocate(&rm.table, rm.count, start));
                        Meta::Sim(sim_metadata(&rm.info, start, rm.count, &[]))
                    } else if let Some(v) = &rm.v14 {
                        Meta::V14(v.clone())
                    } else {
                        Meta::V15(rm.v15.clone().unwrap())
                    }
                }
                MetaSpec::Synth(s) => match s.form {
                    FORM_V14 => Meta::V14(Arc::new(s.v14())),
                    FORM_V15 => Meta::V15(Arc::new(s.v15())),
                    _ => {
                        let mut t = relocate(&make_table(&s.types), s.types.len() as u32, start);
                        for (o, x) in &s.damage {
                            let n = t.len();
                            if n > 0 {
                                t[*o as usize % n] ^= x;
                            }
                        }
                        bytes.extend_from_slice(&t);
                        Meta::Sim(sim_metadata(&info, start, s.types.len() as u32, &s.fails))
                    }
                },
            };
            tables.push((start, bytes.len() - start));
            gaps.push(gap(&mut bytes, &mut r));
            metas.push(Arc::new(meta));
            infos.push(info);
        }
        let mut blobs = Vec::new();
        for b in &self.blobs {
            let start = bytes.len();
            bytes.extend_from_slice(b);
            blobs.push(SimBuf { start, len: b.len() });
            gaps.push(gap(&mut bytes, &mut r));
        }
        let image = Arc::new(bytes.clone());
        let mem = SimMem::new(Device {
            bytes,
            page: self.page,
            budget: u64::MAX,
            lo: usize::MAX,
            ..Default::default()
        });
        World { mem, metas, infos, placed: blobs.clone(), blobs, tables, gaps, image }
    }
}

impl World {
    pub fn place(&self, p: Place) -> (usize, usize) {
        match p {
            Place::Blob(i) => {
                let b = &self.blobs[i as usize % self.blobs.len()];
                (b.start, b.len)
            }
            Place::Table(i) => self.tables[i as usize % self.tables.len()],
            Place::Gap(i) => self.gaps[i as usize % self.gaps.len()],
        }
    }
    /// Planned fault on this device; ranges stay within their place.
    pub fn fault(&self, f: &PFault) -> Option<Fault> {
        Some(match f {
            PFault::Reads { at, count, code } => Fault::Reads { at: *at, count: *count, code: *code },
            PFault::Range { place, off, len, code } => {
                let (s, n) = self.place(*place);
                if n == 0 {
                    return None;
                }
                let o = *off as usize % n;
                Fault::Range { start: (s + o) as u32, len: (*len as usize).min(n - o) as u32, code: *code }
            }
            PFault::Rewrite { at, place, off, bytes } => {
                let (s, n) = self.place(*place);
                if n == 0 {
                    return None;
                }
                let o = *off as usize % n;
                let k = bytes.len().min(n - o);
                Fault::Rewrite { at: *at, start: (s + o) as u32, bytes: bytes[..k].to_vec() }
            }
            PFault::Slow { at, count, ticks } => Fault::Slow { at: *at, count: *count, ticks: *ticks },
            PFault::Flip { at, off, xor } => Fault::Flip { at: *at, off: *off, xor: *xor },
            PFault::Relink { at, table, from, to } => {
                let i = *table as usize % self.metas.len();
                let r = &self.sim_meta(i)?.registry;
                if r.count == 0 {
                    return None;
                }
                let entry = |n: u32| r.index_at + 8 * (n % r.count) as usize;
                let bytes = self.image[entry(*to)..entry(*to) + 8].to_vec();
                Fault::Rewrite { at: *at, start: entry(*from) as u32, bytes }
            }
        })
    }
    pub fn faults(&self, f: &[PFault]) -> Vec<Fault> {
        f.iter().filter_map(|x| self.fault(x)).collect()
    }
    /// Undo whatever rewrites did to the device.
    pub fn restore(&self) {
        let mut d = self.mem.lock();
        d.clear();
        let img = self.image.clone();
        d.bytes.truncate(img.len());
        if d.dirty {
            d.bytes.copy_from_slice(&img);
            d.dirty = false;
        }
    }
    /// Another record in place of number `i`, until `reset`.
    pub fn put_blob(&mut self, i: usize, b: &[u8]) {
        let mut d = self.mem.lock();
        let start = d.bytes.len();
        d.bytes.extend_from_slice(b);
        // something follows every record
        d.bytes.extend_from_slice(&[0x5a; 9]);
        drop(d);
        self.blobs[i] = SimBuf { start, len: b.len() };
    }
    /// Records as in the scenario again.
    pub fn reset(&mut self) {
        self.restore();
        self.blobs = self.placed.clone();
    }
    pub fn sim_meta(&self, i: usize) -> Option<&SimMetadata> {
        match &*self.metas[i] {
            Meta::Sim(m) => Some(m),
            _ => None,
        }
    }
    /// Run on the device; faults must be armed beforehand.
    pub fn exec(&self, op: &Op) -> Outcome {
        let mut mem = self.mem.clone();
        self.exec_on(op, &mut mem)
    }
    pub fn exec_on(&self, op: &Op, mem: &mut SimMem) -> Outcome {
        guarded(|| {
            let get = |i: u8| self.blobs[i as usize].clone();
            let faults = |f: &[PFault]| self.faults(f);
            match &*self.metas[op.meta()] {
                Meta::Sim(m) => run_op(op, &get, &faults, mem, m),
                Meta::V14(m) => run_op(op, &get, &faults, mem, &**m),
                Meta::V15(m) => run_op(op, &get, &faults, mem, &**m),
            }
        })
    }
    /// With these faults armed from the start of the operation.
    pub fn exec_faulty(&self, op: &Op, faults: &[Fault]) -> (Outcome, Vec<SimErr>) {
        {
            let mut d = self.mem.lock();
            d.take_errors();
            d.arm(faults);
        }
        let o = self.exec(op);
        let mut d = self.mem.lock();
        d.clear();
        let e = d.take_errors();
        (o, e)
    }
    /// Fault-free run: outcome and the reads it made.
    pub fn exec_traced(&self, op: &Op) -> (Outcome, Vec<(u32, u32)>) {
        {
            let mut d = self.mem.lock();
            d.take_errors();
            d.clear();
            d.trace = Some(vec![]);
        }
        let o = self.exec(op);
        let t = self.mem.lock().trace.take().unwrap_or_default();
        (o, t)
    }
}

/// The same metadata in ordinary memory, without the device.
pub struct Ram {
    metas: Vec<Meta>,
}

impl Scenario {
    pub fn ram(&self) -> Ram {
        let metas = self
            .metas
            .iter()
            .map(|m| match m {
                MetaSpec::Real { name, .. } => {
                    let rm = real(name);
                    match &rm.v14 {
                        Some(v) => Meta::V14(v.clone()),
                        None => Meta::V15(rm.v15.clone().unwrap()),
                    }
                }
                MetaSpec::Synth(s) if s.form == FORM_V14 => Meta::V14(Arc::new(s.v14())),
                MetaSpec::Synth(s) => Meta::V15(Arc::new(s.v15())),
            })
            .collect();
        Ram { metas }
    }
}

/// Record in ordinary memory, with the possibility of a switch at every read.
#[derive(Debug)]
struct SharedBytes<'a>(&'a [u8]);

impl<'a> AddressableBuffer<()> for SharedBytes<'a> {
    type ReadBuffer = <&'a [u8] as AddressableBuffer<()>>::ReadBuffer;
    fn total_len(&self) -> usize {
        AddressableBuffer::<()>::total_len(&self.0)
    }
    fn read_slice(&self, mem: &mut (), position: usize, slice_len: usize) -> Result<Self::ReadBuffer, BufferError<()>> {
        crate::mem::yield_here();
        // the sum of both may be more than there are addresses
        if position <= self.0.len() && slice_len > self.0.len() - position {
            return Err(BufferError::DataTooShort { position, minimal_length: slice_len });
        }
        AddressableBuffer::<()>::read_slice(&self.0, mem, position, slice_len)
    }
    fn limit_length(&self, new_len: usize) -> Result<Self, BufferError<()>> {
        AddressableBuffer::<()>::limit_length(&self.0, new_len).map(SharedBytes)
    }
}

impl Ram {
    /// As part of a session.
    pub fn exec_shared(&self, blobs: &[&[u8]], op: &Op) -> Outcome {
        guarded(|| {
            let get = |i: u8| SharedBytes(blobs[i as usize]);
            let faults = |_: &[PFault]| vec![];
            match &self.metas[op.meta()] {
                Meta::V14(m) => run_op::<SharedBytes, (), _>(op, &get, &faults, &mut (), &**m),
                Meta::V15(m) => run_op::<SharedBytes, (), _>(op, &get, &faults, &mut (), &**m),
                Meta::Sim(_) => unreachable!(),
            }
        })
    }
    pub fn exec(&self, blobs: &[&[u8]], op: &Op) -> Outcome {
        guarded(|| {
            let get = |i: u8| -> &[u8] { blobs[i as usize] };
            let faults = |_: &[PFault]| vec![];
            match &self.metas[op.meta()] {
                Meta::V14(m) => run_op::<&[u8], (), _>(op, &get, &faults, &mut (), &**m),
                Meta::V15(m) => run_op::<&[u8], (), _>(op, &get, &faults, &mut (), &**m),
                Meta::Sim(_) => unreachable!(),
            }
        })
    }
}

/// Display everything that was decoded, in every way there is.
pub fn show(o: &Outcome) -> Result<String, String> {
    let mut text = String::new();
    let r = guarded(|| {
        show_into(o, &mut text);
        done(Val::Many(vec![]))
    });
    match r {
        Outcome::Panic(m) => Err(m),
        _ => Ok(text),
    }
}

/// Chain specs that differ from value to value, and only with the value.
fn specs_for(text: &str) -> (ShortSpecs, u32) {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in text.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h ^= h >> 29;
    const DECIMALS: [u8; 20] = [0, 1, 2, 3, 4, 6, 10, 11, 12, 13, 14, 18, 19, 20, 24, 36, 40, 60, 128, 255];
    const UNITS: [&str; 4] = ["UNIT", "", "\u{b5}", "A LONG UNIT"];
    const PREFIX: [u16; 8] = [0, 42, 63, 64, 255, 256, 10041, 16383];
    let specs = ShortSpecs {
        base58prefix: PREFIX[((h >> 8) % 8) as usize],
        decimals: DECIMALS[((h >> 16) % 20) as usize],
        unit: UNITS[((h >> 24) % 4) as usize].into(),
    };
    (specs, ((h >> 32) % 9) as u32)
}

fn show_ext(x: &ExtendedData, out: &mut String) {
    let start = out.len();
    let specs = ShortSpecs { base58prefix: 42, decimals: 12, unit: "UNIT".into() };
    out.push_str(&x.show(0, false, &specs, "chain"));
    out.push('\n');
    let (specs, indent) = specs_for(&out[start..]);
    out.push_str(&x.show_with_docs(indent, false, &specs, "chain"));
    out.push('\n');
    out.push_str(&x.show(indent, true, &specs, "chain"));
    out.push('\n');
    out.push_str(&x.show_with_docs(1, true, &specs, "chain"));
    out.push('\n');
}

fn show_card(c: &ExtendedCard, out: &mut String) {
    out.push_str(&c.show());
    out.push('\n');
    out.push_str(&c.show_with_docs());
    out.push('\n');
}

fn show_call(x: &Call, out: &mut String) {
    let start = out.len();
    let mut specs = ShortSpecs { base58prefix: 0, decimals: 10, unit: "DOT".into() };
    let mut indent = 0;
    for _ in 0..2 {
        for c in x.card(indent, &specs, "polkadot") {
            show_card(&c, out)
        }
        (specs, indent) = specs_for(&out[start..]);
    }
}

fn show_key(k: &KeyData, out: &mut String) {
    let part = |p: &KeyPart, out: &mut String| match p {
        KeyPart::Hash(h) => out.push_str(&format!("{h:?}\n")),
        KeyPart::Parsed(x) => show_ext(x, out),
    };
    match k {
        KeyData::Plain => (),
        KeyData::SingleHash { content } => part(content, out),
        KeyData::TupleHash { content, .. } => content.iter().for_each(|p| part(p, out)),
    }
}

fn show_into(o: &Outcome, out: &mut String) {
    let Outcome::Done { val, .. } = o else { return };
    match val {
        Val::Ext(x) => show_ext(x, out),
        Val::Exts(v) => v.iter().for_each(|x| show_ext(x, out)),
        Val::Call(c) => show_call(c, out),
        Val::Tx { exts, call } => {
            let start = out.len();
            exts.iter().for_each(|x| show_ext(x, out));
            if let Ok(c) = call {
                show_call(c, out)
            }
            let (specs, _) = specs_for(&out[start..]);
            let parsed = TransactionParsed::<(), RuntimeMetadataV14> {
                call_result: call.as_ref().map(|c| (**c).clone()).map_err(|_| SignableError::NotACall(0)),
                extensions: exts.clone(),
            };
            let cards = parsed.card(&specs, "chain");
            cards.extensions.iter().chain(cards.call_result.iter().flatten()).for_each(|c| show_card(c, out));
        }
        Val::TxUnmarked { call, exts } => {
            let start = out.len();
            show_call(call, out);
            exts.iter().for_each(|x| show_ext(x, out));
            let (specs, _) = specs_for(&out[start..]);
            let parsed = TransactionUnmarkedParsed { call: (**call).clone(), extensions: exts.clone() };
            let cards = parsed.card(&specs, "chain");
            cards.extensions.iter().chain(&cards.call).for_each(|c| show_card(c, out));
        }
        Val::Xt(x) => match &**x {
            UncheckedExtrinsic::Signed { address, signature, extra, call } => {
                show_ext(address, out);
                show_ext(signature, out);
                show_ext(extra, out);
                show_call(call, out);
            }
            UncheckedExtrinsic::Unsigned { call } => show_call(call, out),
        },
        Val::Storage(s) => {
            show_key(&s.key, out);
            show_ext(&s.value, out);
            out.push_str(&s.docs);
        }
        Val::Key(k) => show_key(k, out),
        Val::Version(v) => out.push_str(&format!("{v:?}\n")),
        Val::Many(v) => v.iter().for_each(|o| show_into(o, out)),
    }
}

pub fn entry_types(e: &Entry) -> (Option<(Vec<StorageHasher>, u32)>, u32) {
    match &e.ty {
        StorageEntryType::Plain(v) => (None, v.id),
        StorageEntryType::Map { hashers, key, value } => (Some((hashers.clone(), key.id)), value.id),
    }
}
