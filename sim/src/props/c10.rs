//! C10: decoding sessions do not influence each other.
use super::common::*;
use super::Prop;
use crate::mem::{Sched, SimMem, Turn};
use crate::meta::{MetaFail, MetaSpec, Synth, FORM_V14, FORM_V15, Q_CALL, Q_EXTS, Q_EXTVERSION, Q_PARAMS, Q_VERSION, REAL};
use crate::ops::*;
use crate::prng::{fnv, Rng};
use crate::solo::{self, Answer};
use scale_info::{TypeDef, TypeDefPrimitive as P};
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C10",
    gen,
    run,
    quick: 14_000,
    thorough: 400_000,
    chunk: 128,
    rule: "One evaluation is one operation run as part of a session. A run takes two to four sessions with two to \
           sixteen operations between them, over one to three metadata that use the same type numbers for different \
           types (independent ones, or twins differing in few types, names or versions), on one or two devices or \
           in ordinary memory, with read and metadata failures that strike single operations of single sessions. \
           The scheduler runs exactly one session at a time and switches at reads and metadata queries as the seed \
           says. Every outcome, with all its text, is compared with that of the same operation with the same \
           failures run alone in a fork of a process that never decoded anything. Non-trivial: the operation was \
           not the first of a run or sessions were switched; distinct by outcome and interleaving.",
};

/// Almost the same chain.
fn twin(s: &Synth, r: &mut Rng) -> Synth {
    let mut t = s.clone();
    for _ in 0..r.range(1, 4) {
        match r.below(6) {
            0 => t.spec_version = format!("{}", r.below(10_000)),
            1 => t.tx_version ^= 1,
            2 if t.exts.len() > 1 => {
                let i = r.usize(t.exts.len());
                let k = r.usize(t.exts.len());
                t.exts.swap(i, k);
            }
            3 => t.spec_name.push('x'),
            _ => {
                for _ in 0..8 {
                    let i = r.usize(t.types.len());
                    let x = &mut t.types[i];
                    match &mut x.type_def {
                        TypeDef::Primitive(p) => {
                            *p = match p {
                                P::U32 => P::I32,
                                P::I32 => P::Char,
                                P::U8 => P::I8,
                                P::U64 => P::I64,
                                P::U128 => P::U64,
                                P::Bool => P::U8,
                                P::Str => P::U16,
                                _ => P::U32,
                            };
                            break;
                        }
                        TypeDef::Composite(c) if !c.fields.is_empty() => {
                            let n = c.fields.len();
                            match r.below(3) {
                                0 => c.fields.swap(0, n - 1),
                                1 => x.path.segments.clear(),
                                _ => c.fields[0].name = c.fields[0].name.as_ref().map(|n| format!("{n}_")),
                            }
                            break;
                        }
                        TypeDef::Variant(v) if v.variants.len() > 1 => {
                            let n = v.variants.len();
                            if r.pct(50) {
                                let i = v.variants[0].index;
                                v.variants[0].index = v.variants[n - 1].index;
                                v.variants[n - 1].index = i;
                            } else {
                                v.variants[0].name.push('_');
                            }
                            break;
                        }
                        _ => (),
                    }
                }
            }
        }
    }
    if zero_size_hazard(&t.types) {
        s.clone()
    } else {
        t
    }
}

/// The same chain with one thing changed throughout its type table.
fn warp(s: &Synth, r: &mut Rng) -> Synth {
    let mut t = s.clone();
    let what = r.below(11);
    let by = r.range(1, 5) as usize;
    let compacts: Vec<u32> = params(&s.types, 0);
    let sequences: Vec<u32> = params(&s.types, 1);
    let (mut nc, mut ns) = (0, 0);
    for x in &mut t.types {
        let ident = x.path.segments.last().cloned().unwrap_or_default();
        match (what, &mut x.type_def) {
            (0, _) if ident == "Lsb0" => *x.path.segments.last_mut().unwrap() = "Msb0".into(),
            (0, _) if ident == "Msb0" => *x.path.segments.last_mut().unwrap() = "Lsb0".into(),
            (1, TypeDef::Primitive(p)) => {
                *p = match p {
                    P::U8 => P::U16,
                    P::U16 => P::U32,
                    P::U32 => P::U64,
                    P::U64 => P::U8,
                    P::I8 => P::Bool,
                    P::Bool => P::I8,
                    P::Str => P::Char,
                    P::U256 => P::I256,
                    P::I256 => P::U256,
                    _ => P::U128,
                }
            }
            (2, TypeDef::Compact(c)) => {
                c.type_param = crate::meta::sym(compacts[(nc + by) % compacts.len()]);
                nc += 1;
            }
            (3, TypeDef::Sequence(c)) => {
                c.type_param = crate::meta::sym(sequences[(ns + by) % sequences.len()]);
                ns += 1;
            }
            (3, TypeDef::Array(a)) => a.len = a.len.saturating_sub(1).max(1),
            (4, TypeDef::Variant(v)) if v.variants.len() > 1 => {
                let first = v.variants[0].index;
                for i in 1..v.variants.len() {
                    v.variants[i - 1].index = v.variants[i].index;
                }
                let last = v.variants.len() - 1;
                v.variants[last].index = first;
            }
            (5 | 6, TypeDef::Composite(_) | TypeDef::Variant(_)) => {
                let all: Vec<&mut scale_info::Field<_>> = match &mut x.type_def {
                    TypeDef::Composite(c) => c.fields.iter_mut().collect(),
                    TypeDef::Variant(v) => v.variants.iter_mut().flat_map(|v| v.fields.iter_mut()).collect(),
                    _ => vec![],
                };
                for f in all {
                    if what == 5 {
                        f.name = f.name.as_ref().map(|n| if n == "nonce" { "value".into() } else { "nonce".to_string() });
                    } else {
                        f.type_name = f.type_name.as_ref().map(|n| match &n[..] {
                            "sr25519::Signature" => "ed25519::Signature".into(),
                            "ed25519::Signature" => "sr25519::Signature".into(),
                            "Balance" => "u128".into(),
                            _ => "Balance".to_string(),
                        });
                    }
                }
            }
            (7, TypeDef::Composite(_)) if ident != "Lsb0" && ident != "Msb0" => {
                if let Some(l) = x.path.segments.last_mut() {
                    l.push('_');
                }
            }
            (8, _) => x.docs = vec![format!("other docs {by}")],
            (9, TypeDef::Tuple(f)) => f.fields.reverse(),
            (10, TypeDef::Variant(v)) => v.variants.iter_mut().for_each(|v| v.name.push('_')),
            _ => (),
        }
    }
    if zero_size_hazard(&t.types) {
        s.clone()
    } else {
        t
    }
}

fn params(types: &[crate::meta::Ty], what: u8) -> Vec<u32> {
    types
        .iter()
        .filter_map(|t| match &t.type_def {
            TypeDef::Compact(c) if what == 0 => Some(c.type_param.id),
            TypeDef::Sequence(c) if what == 1 => Some(c.type_param.id),
            _ => None,
        })
        .collect()
}

/// Number of the sort of type, for picking all sorts alike.
fn sort_of(t: &crate::meta::Ty) -> u8 {
    let special = crate::model::special(t).is_some();
    match &t.type_def {
        _ if special => 8,
        TypeDef::Composite(_) => 0,
        TypeDef::Variant(_) => 1,
        TypeDef::Sequence(_) => 2,
        TypeDef::Array(_) => 3,
        TypeDef::Tuple(_) => 4,
        TypeDef::Primitive(_) => 5,
        TypeDef::Compact(_) => 6,
        TypeDef::BitSequence(_) => 7,
    }
}

/// All sessions are busy with the same one or two types.
fn focus(b: &mut Build) -> Vec<u32> {
    if let MetaSpec::Synth(s) = &mut b.scn.metas[0] {
        // bit sequences are rare otherwise
        let n = s.types.len() as u32;
        let store = b.r.pick(&[P::U8, P::U8, P::U16, P::U32, P::U64]).clone();
        let order = *b.r.pick(&["Lsb0", "Msb0"]);
        let ty = |path: Vec<String>, def: TypeDef<scale_info::form::PortableForm>| crate::meta::Ty {
            path: scale_info::Path { segments: path },
            type_params: vec![],
            type_def: def,
            docs: vec![],
        };
        s.types.push(ty(vec![], store.into()));
        s.types.push(ty(vec!["bitvec".into(), order.into()], scale_info::TypeDefComposite { fields: vec![] }.into()));
        let def = scale_info::TypeDefBitSequence {
            bit_store_type: crate::meta::sym(n),
            bit_order_type: crate::meta::sym(n + 1),
        };
        s.types.push(ty(vec![], def.into()));
        let info = b.scn.metas[0].info();
        b.codecs[0] = codec_for(&b.scn.metas[0], &info);
        b.infos[0] = info;
    }
    let types = b.infos[0].types.clone();
    let mut out = vec![];
    for _ in 0..b.r.range(1, 2) {
        for _ in 0..8 {
            let sort = b.r.below(9) as u8;
            let fit: Vec<u32> = (0..types.len() as u32)
                .filter(|i| sort_of(&types[*i as usize]) == sort && b.codecs[0].possible(*i))
                .collect();
            if !fit.is_empty() {
                out.push(*b.r.pick(&fit));
                break;
            }
        }
    }
    out
}

fn remeta(op: &Op, m: u8) -> Op {
    let mut op = op.clone();
    match &mut op {
        Op::Typed { meta, .. }
        | Op::Tx { meta, .. }
        | Op::TxUnmarked { meta, .. }
        | Op::CallUnmarked { meta, .. }
        | Op::ExtsUnmarked { meta, .. }
        | Op::Marked { meta, .. }
        | Op::Extrinsic { meta, .. }
        | Op::Storage { meta, .. }
        | Op::Key { meta, .. }
        | Op::Version { meta } => *meta = m,
    }
    op
}

fn gen(r: Rng, index: u64) -> Scenario {
    let mut b = Build::new("C10", r);
    let real = b.r.pct(12);
    let opts = MetaOpts { real: if real { 100 } else { 0 }, flash: 60, depth: 4 };
    b.meta(index, opts);
    let focused = if !real && b.r.pct(35) { focus(&mut b) } else { vec![] };
    let n = b.r.weighted(&[15, 60, 25]);
    for _ in 0..n {
        if real {
            let name = REAL[((index / 64 + 1) % REAL.len() as u64) as usize].to_string();
            let flash = b.r.pct(60);
            b.add_meta(MetaSpec::Real { name, flash }, vec![]);
        } else if b.r.pct(if focused.is_empty() { 55 } else { 90 }) {
            let MetaSpec::Synth(s) = b.scn.metas[0].clone() else { unreachable!() };
            let mut t = match b.r.below(20) {
                0..=8 => twin(&s, &mut b.r),
                9..=17 => warp(&s, &mut b.r),
                _ => s,
            };
            if b.r.pct(30) {
                // another version record of the same form
                if let Some((v, _)) = &mut t.version_const {
                    let n = v.len();
                    if n > 0 {
                        let i = n - 1 - b.r.usize(n.min(12));
                        v[i] ^= 1 << b.r.below(3);
                    }
                }
            }
            if b.r.pct(30) {
                t.form = *b.r.pick(&[crate::meta::FORM_FLASH, FORM_V14, FORM_V15]);
            }
            let direct = b.direct[0].clone();
            b.add_meta(MetaSpec::Synth(t), direct);
        } else {
            b.meta(index, MetaOpts { real: 0, flash: 60, depth: 4 });
        }
    }
    let metas = b.scn.metas.len() as u8;
    // records
    let mut pool = vec![];
    for _ in 0..b.r.range(1, 6) {
        let m = b.r.below(metas as u64) as u8;
        let kind = *b.r.pick(&ALL_KINDS);
        let op = if !focused.is_empty() && b.r.pct(80) {
            let ty = *b.r.pick(&focused);
            let bytes = b.value(0, ty);
            let blob = b.blob(bytes);
            Op::Typed { meta: m, ty, blob, pos: 0, all: b.r.pct(50) }
        } else {
            b.record(m, kind)
        };
        if b.r.pct(25) && !op.blobs().is_empty() {
            let blobs = op.blobs();
            let i = *b.r.pick(&blobs);
            let n = b.scn.blobs[i].len();
            rand_mut(&mut b.r, n).apply(&mut b.scn.blobs[i]);
        }
        pool.push(op);
    }
    let sessions = b.r.range(2, 4) as u8;
    let devices = b.r.range(1, 2) as u8;
    let faulty = b.r.pct(60);
    for _ in 0..b.r.range(2, 16) {
        let op = b.r.pick(&pool).clone();
        let op = if b.r.pct(40) { remeta(&op, b.r.below(metas as u64) as u8) } else { op };
        let mut part = Part {
            session: b.r.below(sessions as u64) as u8,
            ram: b.r.pct(20),
            device: b.r.below(devices as u64) as u8,
            ..Default::default()
        };
        if faulty && b.r.pct(35) {
            let span = 1 << b.r.range(0, 8);
            let at = b.r.below(span) as u32;
            let code = b.r.below(1_000_000) as u32;
            part.faults.push(match b.r.below(6) {
                0..=2 => PFault::Reads { at, count: 1, code },
                3 => PFault::Reads { at, count: u32::MAX, code },
                4 if !op.blobs().is_empty() => {
                    let place = Place::Blob(op.blobs()[0] as u8);
                    PFault::Range { place, off: b.r.below(1 << 16) as u32, len: b.r.range(1, 4) as u32, code }
                }
                _ => PFault::Slow { at, count: 20, ticks: 1000 },
            });
        }
        if faulty && b.r.pct(15) {
            part.meta_fails.push(MetaFail {
                which: *b.r.pick(&[Q_CALL, Q_EXTS, Q_VERSION, Q_PARAMS, Q_EXTVERSION]),
                from: 0,
                count: *b.r.pick(&[1, u32::MAX]),
                code: b.r.below(1000) as u32,
            });
        }
        b.scn.ops.push(op);
        b.scn.plan.sessions.push(part);
    }
    // schedule: from a few switches to one at almost every read
    let gap = *b.r.pick(&[1u64, 2, 6, 20, 80, 400]);
    let most = *b.r.pick(&[3usize, 30, 300, 2000]);
    let mut step = b.r.below(gap * 4);
    while b.scn.plan.switches.len() < most && step < 60_000 {
        b.scn.plan.switches.push((step as u32, b.r.below(12) as u8));
        step += b.r.range(1, gap * 2 - 1);
    }
    // a long history, once in a while
    if b.r.pct(2) {
        b.scn.plan.nums = vec![*b.r.pick(&[300u64, 1000, 3000, 10_000])];
    }
    b.finish()
}

/// For each operation the first one that is the same, in whatever session.
pub fn same_as(scn: &Scenario) -> Vec<usize> {
    let of = |k: usize| {
        let p = &scn.plan.sessions[k];
        (&scn.ops[k], p.ram, p.device, &p.faults, &p.meta_fails)
    };
    (0..scn.ops.len()).map(|k| (0..k).find(|i| of(*i) == of(k)).unwrap_or(k)).collect()
}

/// Everything the sessions share.
pub struct Set {
    scn: Scenario,
    devices: Vec<World>,
    ram: Ram,
}

impl Set {
    pub fn new(scn: &Scenario) -> Self {
        let mut devices = vec![scn.world()];
        if scn.plan.sessions.iter().any(|p| p.device > 0) {
            // same addresses, other contents
            let mut s = scn.clone();
            s.metas.reverse();
            devices.push(s.world());
        }
        Set { scn: scn.clone(), devices, ram: scn.ram() }
    }
    fn exec(&self, k: usize, session: usize) -> Answer {
        let op = &self.scn.ops[k];
        let part = &self.scn.plan.sessions[k];
        let o = if part.ram {
            let blobs: Vec<&[u8]> = self.scn.blobs.iter().map(|b| &b[..]).collect();
            self.ram.exec_shared(&blobs, op)
        } else {
            let d = part.device as usize;
            let w = &self.devices[d];
            let op = if d > 0 { remeta(op, (self.scn.metas.len() - 1 - op.meta()) as u8) } else { op.clone() };
            let mut mem = SimMem { dev: w.mem.dev.clone(), session };
            w.mem.lock().arm_for(session, &w.faults(&part.faults));
            if let Some(m) = w.sim_meta(op.meta()) {
                m.fail_session(session, &part.meta_fails);
            }
            let o = w.exec_on(&op, &mut mem);
            w.mem.lock().arm_for(session, &[]);
            o
        };
        let text = scrub(&format!("{o:?}"));
        (fnv(0, text.as_bytes()), brief(&o))
    }
    /// Reads made since asked last.
    fn take_reads(&self) -> u64 {
        self.devices.iter().map(|w| std::mem::take(&mut w.mem.lock().reads)).sum()
    }
    /// Operation `k` with nothing else going on.
    pub fn alone(&self, k: usize) -> Answer {
        let sched = Arc::new(Sched::new(1, &[]));
        let _turn = Turn::take(&sched, 0);
        self.exec(k, 0)
    }
}

fn run(scn: &Scenario, st: &mut Stats) -> Result<(), Violation> {
    note_metas(scn, st);
    let set = Set::new(scn);
    let alone = solo::answers(scn);
    // sessions that have something to do, in order
    let mut names: Vec<u8> = scn.plan.sessions.iter().map(|p| p.session).collect();
    names.sort();
    names.dedup();
    let sched = Arc::new(Sched::new(names.len(), &scn.plan.switches));
    let work = |s: usize| -> Vec<(usize, Answer)> {
        let turn = Turn::take(&sched, s);
        let mut out = vec![];
        for (k, p) in scn.plan.sessions.iter().enumerate() {
            if p.session == names[s] {
                crate::mem::yield_here();
                out.push((k, set.exec(k, s)));
            }
        }
        drop(turn);
        out
    };
    let mut got: Vec<(usize, Answer)> = std::thread::scope(|sc| {
        let work = &work;
        let others: Vec<_> = (1..names.len())
            .map(|s| {
                let b = std::thread::Builder::new().stack_size(256 << 20);
                b.spawn_scoped(sc, move || work(s)).expect("session thread")
            })
            .collect();
        // the first session keeps the thread of the process
        let mut v = work(0);
        for h in others {
            v.extend(h.join().expect("session"));
        }
        v
    });
    got.sort();
    let sum = sched.summary();
    for w in &set.devices {
        st.sessions(w, sum);
        for m in 0..w.metas.len() {
            if let Some(m) = w.sim_meta(m) {
                st.meta_fired += m.fired.load(std::sync::atomic::Ordering::SeqCst) as u64;
            }
        }
    }
    if crate::mem::SERIAL.load(std::sync::atomic::Ordering::SeqCst) {
        st.probe("sessions that wait for each other outside of the simulator");
    }
    if sum.1 > 0 {
        st.probe("runs with sessions switched");
    }
    for (k, (hash, text)) in got {
        let op = &scn.ops[k];
        st.part(op, hash, sum.0, sum.1 > 0 || k > 0);
        st.checks += 1;
        if hash != alone[k].0 {
            return violation(
                format!("{}: not the answer given alone", op.name()),
                format!("operation {k} in session {} gives {text}; alone in a fresh process {}", scn.plan.sessions[k].session, alone[k].1),
            );
        }
    }
    let again = scn.plan.nums.first().copied().unwrap_or(0);
    let mut cost = 0;
    for i in 0..again as usize {
        let k = i % scn.ops.len();
        let op = &scn.ops[k];
        let (hash, text) = set.alone(k);
        crate::driver::beat();
        if i % 64 == 0 {
            st.part(op, hash, 0, true);
        }
        st.checks += 1;
        if hash != alone[k].0 {
            return violation(
                format!("{}: not the answer given alone", op.name()),
                format!("operation {k}, the {i}th repeated, gives {text}; alone in a fresh process {}", alone[k].1),
            );
        }
        // not too much of large records
        cost += 1 + set.take_reads();
        if cost > 3_000_000 {
            break;
        }
    }
    if again > 0 {
        st.probe("runs with a long history");
    }
    Ok(())
}
