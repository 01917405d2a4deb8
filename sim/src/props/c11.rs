//! C11: arbitrary corruption ends in a result or an error.
use super::common::*;
use super::Prop;
use crate::mem::{work, Fault, Guard, SimErr, WORK};
use crate::meta::{make_table, Meta, MetaSpec, Synth, Ty, FORM_FLASH};
use crate::ops::*;
use crate::prng::Rng;
use parity_scale_codec::Decode;
use scale_info::{
    form::PortableForm, interner::UntrackedSymbol, Path, TypeDef, TypeDefArray, TypeDefBitSequence, TypeDefCompact,
    TypeDefPrimitive as P, TypeDefSequence, TypeDefTuple,
};
use std::any::TypeId;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C11",
    gen,
    run,
    quick: 40_000,
    thorough: 1_000_000,
    chunk: 256,
    rule: "One evaluation is one run of one operation on corrupted memory. A run damages the type table (references \
           redirected so that they dangle or run in circles, definitions and names exchanged, numbers changed, bytes \
           of the stored table flipped) and the records (bits, blocks, erased pages, blocks of other places), then \
           runs every operation as it is and with rewrites of data or table, relinked types, bit flips in transfer \
           and failing reads while it decodes. Judged are panics, the number of reads, termination, memory, and that \
           the decoded can be displayed. Non-trivial: something was damaged and at least one read was made; distinct \
           by all reads made and the outcome.",
};

pub const D5: &str = "D5";
pub const D6: &str = "D6";

fn sym(id: u32) -> UntrackedSymbol<TypeId> {
    id.into()
}

fn options(types: &[Ty]) -> Vec<Option<Ty>> {
    types.iter().cloned().map(Some).collect()
}

/// Decoding with this table can not run into listed finding D5.
fn tame(types: &[Option<Ty>]) -> bool {
    (0..types.len() as u32).all(|i| work(types, i) <= WORK)
}

/// Stored table after its static damage.
fn stored(s: &Synth) -> Vec<Option<Ty>> {
    if s.form != FORM_FLASH || s.damage.is_empty() {
        return options(&s.types);
    }
    let mut t = make_table(&s.types);
    let n = t.len();
    for (o, x) in &s.damage {
        if n > 0 {
            t[*o as usize % n] ^= x;
        }
    }
    // addresses are relative to the table here; damage of an address leads
    // anywhere on the device, which the guard sees to
    (0..s.types.len())
        .map(|i| {
            let a = u32::from_le_bytes(t[8 * i..8 * i + 4].try_into().unwrap()) as usize;
            let l = u32::from_le_bytes(t[8 * i + 4..8 * i + 8].try_into().unwrap()) as usize;
            let mut raw = t.get(a..a.checked_add(l)?)?;
            let ty = Ty::decode(&mut raw).ok()?;
            raw.is_empty().then_some(ty)
        })
        .collect()
}

/// Some reference of the type, in order to change it.
fn references(t: &mut Ty) -> Vec<&mut UntrackedSymbol<TypeId>> {
    match &mut t.type_def {
        TypeDef::Composite(c) => c.fields.iter_mut().map(|f| &mut f.ty).collect(),
        TypeDef::Variant(v) => v.variants.iter_mut().flat_map(|v| v.fields.iter_mut()).map(|f| &mut f.ty).collect(),
        TypeDef::Tuple(t) => t.fields.iter_mut().collect(),
        TypeDef::Sequence(s) => vec![&mut s.type_param],
        TypeDef::Array(a) => vec![&mut a.type_param],
        TypeDef::Compact(c) => vec![&mut c.type_param],
        TypeDef::BitSequence(b) => vec![&mut b.bit_store_type, &mut b.bit_order_type],
        TypeDef::Primitive(_) => vec![],
    }
}

fn rand_id(r: &mut Rng, n: usize, own: u32) -> u32 {
    match r.below(12) {
        0 => own,
        1 => n as u32,
        2 => u32::MAX,
        3 => own.saturating_sub(1),
        4 => own.saturating_add(1),
        _ => r.usize(n) as u32,
    }
}

/// One corruption of the table.
fn corrupt(types: &mut [Ty], r: &mut Rng) {
    let n = types.len();
    let i = r.usize(n);
    let other = r.usize(n);
    let id = rand_id(r, n, i as u32);
    match r.below(16) {
        0..=5 => {
            let mut v = references(&mut types[i]);
            if !v.is_empty() {
                let k = r.usize(v.len());
                *v[k] = sym(id);
            }
        }
        6 => types[i].type_def = types[other].type_def.clone(),
        7 => types[i].path = types[other].path.clone(),
        8 => {
            types[i].type_def = match r.below(8) {
                0 => TypeDefSequence::new(sym(id)).into(),
                1 => TypeDefArray::new(*r.pick(&[0u32, 1, 2, 31, 32, 33, 300, 70_000, u32::MAX]), sym(id)).into(),
                2 => TypeDefCompact::new(sym(id)).into(),
                3 => {
                    let mut t = TypeDefTuple { fields: vec![] };
                    t.fields = (0..r.below(4)).map(|_| sym(rand_id(r, n, i as u32))).collect();
                    t.into()
                }
                4 => TypeDef::BitSequence(TypeDefBitSequence {
                    bit_store_type: sym(id),
                    bit_order_type: sym(rand_id(r, n, i as u32)),
                }),
                5 => r.pick(&[P::Bool, P::Char, P::Str, P::U8, P::U32, P::U256, P::I256, P::I128, P::U128]).clone().into(),
                _ => TypeDefTuple { fields: vec![] }.into(),
            }
        }
        9 => {
            let names: &[&[&str]] = &[
                &["sp_core", "crypto", "AccountId32"],
                &["primitive_types", "H256"],
                &["primitive_types", "H160"],
                &["primitive_types", "H512"],
                &["sp_runtime", "generic", "era", "Era"],
                &["sp_arithmetic", "per_things", "Perbill"],
                &["sp_arithmetic", "per_things", "Perquintill"],
                &["sp_core", "sr25519", "Public"],
                &["sp_core", "ecdsa", "Signature"],
                &["bitvec", "order", "Lsb0"],
                &["bitvec", "order", "Msb0"],
                &["Option"],
                &["pallet_x", "pallet", "Call"],
                &["pallet_x", "pallet", "Event"],
                &["pallet_x", "pallet", "Error"],
                &["polkadot_runtime", "RuntimeCall"],
                &[],
            ];
            let p = *r.pick(names);
            types[i].path = Path::<PortableForm> { segments: p.iter().map(|s| s.to_string()).collect() };
        }
        10 => {
            if let TypeDef::Variant(v) = &mut types[i].type_def {
                let m = v.variants.len();
                if m > 0 {
                    let k = r.usize(m);
                    match r.below(4) {
                        0 => v.variants[k].index = r.below(m as u64 + 2) as u8,
                        1 => v.variants[k].fields.clear(),
                        2 => v.variants.truncate(k),
                        _ => {
                            let f = v.variants[r.usize(m)].fields.clone();
                            v.variants[k].fields.extend(f);
                        }
                    }
                }
            }
        }
        11 => {
            if let TypeDef::Composite(c) = &mut types[i].type_def {
                match r.below(4) {
                    0 => c.fields.clear(),
                    1 => drop(c.fields.pop()),
                    2 if !c.fields.is_empty() => {
                        let f = c.fields[0].clone();
                        c.fields.push(f);
                    }
                    _ => c.fields.iter_mut().for_each(|f| f.name = None),
                }
            }
        }
        12 => {
            // a circle through several types
            let len = *r.pick(&[2usize, 3, 3, 3, 4, 5, 7, 10, 18, 34, 70]);
            let mut round = vec![i];
            round.extend((1..len).map(|_| r.usize(n)));
            round.dedup();
            // two in a row may differ and still lead into a shorter circle
            if len > 3 {
                round.sort();
                round.dedup();
            }
            let next: Vec<usize> = round.iter().skip(1).chain(&round[..1]).copied().collect();
            let plain = r.pct(40);
            for (x, y) in round.into_iter().zip(next) {
                let mut v = references(&mut types[x]);
                if !v.is_empty() && !plain {
                    let k = r.usize(v.len());
                    *v[k] = sym(y as u32);
                } else {
                    types[x].type_def = TypeDefTuple { fields: vec![sym(y as u32)] }.into();
                }
            }
        }
        13 => {
            // a circle of one-field things that look through to what is inside
            let a = r.usize(n);
            types[i].type_def = TypeDefTuple { fields: vec![sym(a as u32)] }.into();
            types[a].type_def = if r.pct(50) {
                TypeDefCompact::new(sym(i as u32)).into()
            } else {
                TypeDefTuple { fields: vec![sym(i as u32)] }.into()
            };
        }
        _ => {
            types.swap(i, other);
        }
    }
}

fn corrupt_synth(s: &mut Synth, r: &mut Rng) {
    let n = s.types.len();
    match r.below(12) {
        0 => s.call_ty = rand_id(r, n, s.call_ty),
        1 => s.address_ty = rand_id(r, n, s.address_ty),
        2 => s.extra_ty = rand_id(r, n, s.extra_ty),
        3 => s.extrinsic_ty = rand_id(r, n, s.extrinsic_ty),
        4 if !s.exts.is_empty() => {
            let k = r.usize(s.exts.len());
            if r.pct(50) {
                s.exts[k].1 = rand_id(r, n, s.exts[k].1);
            } else {
                s.exts[k].2 = rand_id(r, n, s.exts[k].2);
            }
        }
        5 if s.version_const.is_some() => {
            let id = rand_id(r, n, 0);
            let v = s.version_const.as_mut().unwrap();
            if r.pct(50) {
                v.1 = id;
            } else {
                let k = v.0.len();
                rand_mut(r, k).apply(&mut v.0);
            }
        }
        6 => s.signature_ty = rand_id(r, n, s.signature_ty),
        7 | 8 if s.form == FORM_FLASH => {
            let len = make_table(&s.types).len() as u64;
            let at = if r.pct(30) { r.below(8 * n as u64) } else { r.below(len) } as u32;
            if r.pct(70) {
                s.damage.push((at, 1 << r.below(8)));
            } else {
                for k in 0..r.range(2, 16) as u32 {
                    s.damage.push((at.saturating_add(k), r.u64() as u8));
                }
            }
        }
        _ => corrupt(&mut s.types, r),
    }
}

/// Damage of blocks of a record.
fn damage_block(b: &mut Vec<u8>, r: &mut Rng, page: u32, others: &[Vec<u8>]) {
    let n = b.len();
    if n == 0 {
        return;
    }
    let size = *r.pick(&[1usize, 4, 16, page as usize]);
    let at = r.usize(n) / size * size;
    let end = (at + size).min(n);
    match r.below(5) {
        0 => b[at..end].fill(0xff),
        1 => b[at..end].fill(0),
        2 => b[at..end].iter_mut().for_each(|x| *x = r.u64() as u8),
        3 => {
            let o = r.pick(others);
            if !o.is_empty() {
                let s = r.usize(o.len());
                for (k, x) in b[at..end].iter_mut().enumerate() {
                    *x = o[(s + k) % o.len()];
                }
            }
        }
        _ => {
            // all numbers that follow become large
            b[at..end].fill(*r.pick(&[0x03, 0x0b, 0xfe, 0xfd, 0x02, 0xfc]));
        }
    }
}

/// New types that lead back to the first of them: its number.
fn circle(types: &mut Vec<Ty>, r: &mut Rng) -> u32 {
    let first = types.len() as u32;
    let len = *r.pick(&[1u32, 2, 3, 4, 5, 6, 9, 12, 17, 20, 33, 40, 65, 100]);
    // only looking through, or also through things that take bytes
    let takes = r.pct(30);
    for i in 0..len {
        let next = first + (i + 1) % len;
        let def: TypeDef<PortableForm> = match r.below(if takes { 12 } else { 8 }) {
            0..=3 => scale_info::TypeDefComposite {
                fields: vec![crate::gen::field(r.pct(40).then_some("f"), next, None)],
            }
            .into(),
            4..=5 => TypeDefTuple { fields: vec![sym(next)] }.into(),
            6 => TypeDefArray::new(1, sym(next)).into(),
            7 if i + 2 >= len || r.pct(10) => TypeDefCompact::new(sym(next)).into(),
            7 => TypeDefTuple { fields: vec![sym(next), sym(next)] }.into(),
            8..=9 => TypeDefSequence::new(sym(next)).into(),
            _ => {
                let variants = vec![scale_info::Variant {
                    name: "again".into(),
                    fields: vec![crate::gen::field(None, next, None)],
                    index: r.below(2) as u8,
                    docs: vec![],
                }];
                scale_info::TypeDefVariant { variants }.into()
            }
        };
        types.push(ty(def));
    }
    first + r.below(len as u64) as u32
}

fn gen(r: Rng, index: u64) -> Scenario {
    let mut b = Build::new("C11", r);
    let mut r = b.r.fork();
    let (mut spec, direct) = pick_meta(&mut r, index, MetaOpts { real: 10, flash: 65, depth: 4 });
    let intact = spec.clone();
    let m = b.add_meta(spec.clone(), direct.clone());
    for _ in 0..b.r.range(1, 3) {
        let kind = *b.r.pick(&ALL_KINDS);
        let op = b.record(m, kind);
        if b.r.pct(60) {
            let all = b.scn.blobs.clone();
            for i in op.blobs() {
                for _ in 0..b.r.below(4) {
                    let n = b.scn.blobs[i].len();
                    if b.r.pct(60) {
                        rand_mut(&mut b.r, n).apply(&mut b.scn.blobs[i]);
                    } else {
                        let page = b.scn.page;
                        damage_block(&mut b.scn.blobs[i], &mut b.r, page, &all);
                    }
                }
            }
        } else if b.r.pct(15) && !op.blobs().is_empty() {
            let i = op.blobs()[0];
            let n = b.r.below(200) as usize;
            b.scn.blobs[i] = match b.r.below(3) {
                0 => vec![0; n],
                1 => vec![0xff; n],
                _ => b.r.bytes(n),
            };
        }
        let mut op = op;
        match &mut op {
            // storage entries that do not fit
            Op::Storage { entry, .. } if b.r.pct(30) => {
                let k = entry.len();
                let mut e = entry.clone();
                rand_mut(&mut b.r, k).apply(&mut e);
                let mut raw = &e[..];
                if Entry::decode(&mut raw).map(|_| raw.is_empty()).unwrap_or(false) {
                    *entry = e;
                }
            }
            Op::Key { hashers, key_ty, .. } if b.r.pct(40) => match b.r.below(3) {
                0 => drop(hashers.pop()),
                1 => hashers.push(b.r.below(7) as u8),
                _ => *key_ty = rand_id(&mut b.r, b.infos[m as usize].types.len(), *key_ty),
            },
            Op::Typed { ty, pos, all: false, .. } if b.r.pct(20) => {
                if b.r.pct(50) {
                    *pos = b.r.below(120) as u32;
                } else {
                    *ty = rand_id(&mut b.r, b.infos[m as usize].types.len(), *ty);
                }
            }
            _ => (),
        }
        b.scn.ops.push(op);
    }
    if let MetaSpec::Synth(s) = &mut spec {
        if b.r.pct(75) {
            for _ in 0..b.r.range(1, 6) {
                let before = s.clone();
                corrupt_synth(s, &mut b.r);
                if !tame(&options(&s.types)) || !tame(&stored(s)) {
                    *s = before;
                }
            }
        }
    }
    if let MetaSpec::Synth(s) = &mut spec {
        if b.r.pct(6) {
            let before = s.types.len();
            let ty = circle(&mut s.types, &mut b.r);
            if tame(&options(&s.types)) && tame(&stored(s)) {
                let n = b.r.below(60) as usize;
                let bytes = if b.r.pct(50) { vec![b.r.below(3) as u8; n] } else { b.r.bytes(n) };
                let blob = b.blob(bytes);
                let all = b.r.pct(50);
                b.scn.ops.push(Op::Typed { meta: m, blob, ty, pos: 0, all });
            } else {
                s.types.truncate(before);
            }
        }
    }
    if spec != intact {
        b.scn.metas[m as usize] = spec;
    }
    for _ in 0..b.r.weighted(&[1, 4, 4, 2]) {
        let at = b.r.below(1 << 16) as u32;
        let k = b.r.range(1, 8) as usize;
        let blobs = b.scn.blobs.len() as u64;
        let place = if b.r.pct(50) && blobs > 0 { Place::Blob(b.r.below(blobs) as u8) } else { Place::Table(m) };
        let f = match b.r.below(10) {
            0..=3 => {
                let bytes = match b.r.below(4) {
                    0 => vec![0xff; k * 4],
                    1 => vec![0; k * 4],
                    _ => b.r.bytes(k),
                };
                PFault::Rewrite { at, place, off: b.r.u64() as u32, bytes }
            }
            4..=6 => PFault::Relink { at, table: m, from: b.r.u64() as u32, to: b.r.u64() as u32 },
            7..=8 => PFault::Flip { at, off: b.r.below(256) as u32, xor: 1 << b.r.below(8) },
            _ => PFault::Reads { at, count: 1, code: at },
        };
        b.scn.plan.faults.push(f);
    }
    b.finish()
}

/// Reads a terminating operation needs at most: for every byte, and once more,
/// the types passed through without taking a byte, with a few reads for each.
fn allowance(scn: &Scenario, idle: u64, op: &Op) -> u64 {
    let data: u64 = op.blobs().iter().map(|i| scn.blobs[*i].len() as u64).sum();
    let version = match &scn.metas[op.meta()] {
        MetaSpec::Synth(s) => s.version_const.as_ref().map(|v| v.0.len()).unwrap_or(0) as u64,
        _ => 0,
    };
    (READS * (data + version + 16)).saturating_mul(idle)
}

const READS: u64 = 2;

/// How often a terminating operation asks for the same bytes of a record, on
/// average: prefixes of compacts, hashes, lengths, things looked at before
/// they are decoded.
const AGAIN: u64 = 64;

fn run(scn: &Scenario, st: &mut Stats) -> Result<(), Violation> {
    note_metas(scn, st);
    let mut w = scn.world();
    let version = w.mem.lock().version;
    let bytes = w.image.clone();
    for m in &mut w.metas {
        if let Some(Meta::Sim(m)) = Arc::get_mut(m) {
            let base = m.registry.stored(&bytes);
            if !tame(&base) {
                st.probe("table damaged into finding D5, left out");
                return Ok(());
            }
            m.registry.guard = Some(Arc::new(Guard::new(base, version)));
        }
    }
    let idle: Vec<u64> = w
        .infos
        .iter()
        .zip(&w.metas)
        .map(|(i, m)| {
            let types = match &**m {
                Meta::Sim(m) => m.registry.stored(&bytes),
                _ => options(&i.types),
            };
            (0..types.len() as u32).map(|t| work(&types, t)).max().unwrap_or(1)
        })
        .collect();
    let stack = scn.plan.nums.first().copied();
    for op in &scn.ops {
        let idle = idle[op.meta()];
        let limits = [allowance(scn, idle, op), allowance(scn, idle.max(WORK), op)];
        let mut plans: Vec<Vec<PFault>> = vec![vec![]];
        plans.extend(scn.plan.faults.iter().map(|f| vec![f.clone()]));
        if scn.plan.faults.len() > 1 {
            plans.push(scn.plan.faults.clone());
        }
        let mut n = 0;
        for plan in &plans {
            w.restore();
            let faults: Vec<Fault> = fit(&w.faults(plan), n);
            // rewrites make more of a table than it was
            let limit = limits[plan.iter().any(|f| !matches!(f, PFault::Reads { .. })) as usize];
            w.mem.lock().budget = limit;
            let before = w.mem.lock().reads;
            let asked = w.mem.lock().delivered;
            let (o, errors) = match stack {
                // as much stack as programs have, not more
                Some(size) => std::thread::scope(|s| {
                    let b = std::thread::Builder::new().stack_size(size as usize);
                    b.spawn_scoped(s, || w.exec_faulty(op, &faults)).expect("thread").join().expect("operation")
                }),
                None => w.exec_faulty(op, &faults),
            };
            let reads = w.mem.lock().reads - before;
            let asked = w.mem.lock().delivered - asked;
            if plan.is_empty() {
                n = reads.min(u32::MAX as u64) as u32;
            }
            w.mem.lock().budget = u64::MAX;
            st.exec(&w, op, &o, reads > 0);
            st.checks += 1;
            for (share, name) in [
                (10, "reads: less than a tenth of the allowance"),
                (4, "reads: less than a quarter of the allowance"),
                (2, "reads: less than half of the allowance"),
                (1, "reads: up to the allowance"),
            ] {
                if reads * share <= limit {
                    st.probe(name);
                    break;
                }
            }
            let one = || {
                let mut p = scn.plan.clone();
                p.faults = plan.clone();
                narrowed(scn, op.clone(), p)
            };
            let with = if plan.is_empty() { String::new() } else { format!(" with {plan:?}") };
            if let Some(m) = o.panicked() {
                return Err(Violation {
                    class: format!("{}: panics", op.name()),
                    msg: format!("{m}{with}"),
                    narrow: one(),
                });
            }
            if errors.contains(&SimErr::Budget) {
                return Err(Violation {
                    class: format!("{}: reads without end", op.name()),
                    msg: format!("more than {limit} reads{with}"),
                    narrow: one(),
                });
            }
            let len: u64 = op.blobs().iter().map(|i| scn.blobs[*i].len() as u64).sum();
            let most = AGAIN * (len + 64);
            if asked > most {
                return Err(Violation {
                    class: format!("{}: reads the same bytes again and again", op.name()),
                    msg: format!("{asked} bytes asked for in records of {len}{with}"),
                    narrow: one(),
                });
            }
            for (share, name) in [
                (32, "bytes asked for: up to twice those there are"),
                (8, "bytes asked for: up to 8 times those there are"),
                (2, "bytes asked for: up to 32 times those there are"),
                (1, "bytes asked for: up to 64 times those there are"),
            ] {
                if asked * share <= most {
                    st.probe(name);
                    break;
                }
            }
            match &o {
                Outcome::Done { .. } => {
                    st.probe("decoded");
                    st.checks += 1;
                    if let Err(m) = show(&o) {
                        return Err(Violation {
                            class: format!("{}: display of the decoded panics", op.name()),
                            msg: format!("{m}{with}"),
                            narrow: one(),
                        });
                    }
                }
                _ if errors.iter().any(|e| matches!(e, SimErr::Cut { .. })) => st.known(D5),
                _ => st.probe("refused"),
            }
        }
    }
    w.restore();
    Ok(())
}

fn chain_of(types: Vec<Ty>, form: u8) -> Synth {
    Synth {
        types,
        form,
        call_ty: 0,
        address_ty: 0,
        signature_ty: 0,
        extra_ty: 0,
        extrinsic_ty: 0,
        exts: vec![],
        spec_version: "1".into(),
        spec_name: "x".into(),
        version_const: None,
        tx_version: 4,
        fails: vec![],
        pallets: 0,
        damage: vec![],
    }
}

fn ty(def: impl Into<TypeDef<PortableForm>>) -> Ty {
    Ty { path: Path::<PortableForm> { segments: vec![] }, type_params: vec![], type_def: def.into(), docs: vec![] }
}

fn finding(types: Vec<Ty>, blob: Vec<u8>, nums: Vec<u64>) -> Scenario {
    let plan = Plan { nums, ..Default::default() };
    Scenario {
        prop: "C11".into(),
        seed: 1,
        page: 256,
        metas: vec![MetaSpec::Synth(chain_of(types, crate::meta::FORM_V14))],
        blobs: vec![blob],
        ops: vec![Op::Typed { meta: 0, blob: 0, ty: 0, pos: 0, all: true }],
        plan,
    }
}

/// `Vec<()>` of 2^30 - 1 elements, in four bytes.
pub fn finding_d5() -> Scenario {
    let types = vec![ty(TypeDefSequence::new(sym(1))), ty(TypeDefTuple { fields: vec![] })];
    finding(types, vec![0xfe, 0xff, 0xff, 0xff], vec![])
}

/// Sequences in sequences, 100 000 deep, on a stack of 8 MB.
pub fn finding_d6() -> Scenario {
    let types = vec![ty(TypeDefSequence::new(sym(0)))];
    finding(types, vec![4; 100_000], vec![8 << 20])
}

