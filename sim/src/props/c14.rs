//! C14: metadata failures surface as metadata failures.
use super::common::*;
use super::Prop;
use crate::gen::{chain, ChainOpts};
use crate::mem::{Fault, SimErr};
use crate::meta::*;
use crate::ops::*;
use crate::oracle::{expect, Expect};
use crate::prng::Rng;
use scale_info::{TypeDef, TypeDefPrimitive as Prim};
use std::sync::atomic::Ordering;

pub const PROP: Prop = Prop {
    id: "C14",
    gen,
    run,
    quick: 50_000,
    thorough: 800_000,
    chunk: 512,
    rule: "One evaluation is one run of one operation with metadata that fails to supply something: each query of the \
           metadata source is failed in turn, once or for good, several kinds together, alone and with failing memory \
           reads, and the operation is repeated after the failure is over; and V14/V15 metadata whose version record \
           or extrinsic type is missing or not as it should be. Non-trivial: a query failed, or what was asked for is \
           damaged; distinct by all reads made and the outcome.",
};

const KINDS: [Kind; 8] = [
    Kind::Tx,
    Kind::TxUnmarked,
    Kind::CallUnmarked,
    Kind::ExtsUnmarked,
    Kind::Parts,
    Kind::Extrinsic,
    Kind::Version,
    Kind::TypedAll,
];

/// Marks in the plan of damaged metadata.
const PARAMS_BAD: u64 = 1;

fn gen(r: Rng, index: u64) -> Scenario {
    let mut b = Build::new("C14", r);
    let mut bad = 0;
    let m = if b.r.pct(8) {
        b.meta(index, MetaOpts { real: 100, flash: 100, depth: 2 })
    } else {
        let form = *b.r.pick(&[FORM_FLASH, FORM_FLASH, FORM_FLASH, FORM_V14, FORM_V15]);
        let (mut s, d) = chain(&mut b.r, ChainOpts { depth: 2, form, cap: 15 });
        if form != FORM_FLASH && b.r.pct(50) {
            super::c08::disturb_version(&mut s, &mut b.r);
        }
        if form == FORM_V14 && b.r.pct(50) {
            disturb_params(&mut s, &mut b.r);
            bad = PARAMS_BAD;
        } else if form == FORM_V14 && b.r.pct(50) {
            another_extrinsic(&mut s, &mut b.r);
        }
        b.add_meta(MetaSpec::Synth(s), d)
    };
    for _ in 0..b.r.range(1, 2) {
        let kind = KINDS[b.r.weighted(&[6, 4, 3, 4, 4, 5, 2, 1])];
        let op = b.record(m, kind);
        if b.r.pct(10) && !op.blobs().is_empty() {
            let i = op.blobs()[0];
            let n = b.scn.blobs[i].len();
            rand_mut(&mut b.r, n).apply(&mut b.scn.blobs[i]);
        }
        b.scn.ops.push(op);
    }
    b.scn.plan.sweep = true;
    let v = b.r.u64();
    b.scn.plan.nums = vec![bad, v];
    b.finish()
}

/// The type of extrinsics does not tell the types of its parts any more.
fn disturb_params(s: &mut Synth, r: &mut Rng) {
    let t = s.extrinsic_ty as usize;
    let n = s.types.len() as u32;
    let i = r.usize(4);
    match r.below(7) {
        0 | 1 => {
            s.types[t].type_params.remove(i);
        }
        2 => s.types[t].type_params[i].ty = None,
        3 => s.types[t].type_params[i].name = s.types[t].type_params[i].name.to_lowercase(),
        4 => s.extrinsic_ty = n + r.below(5) as u32,
        5 => {
            // two fields instead of bytes
            if let TypeDef::Composite(c) = &mut s.types[t].type_def {
                let f = c.fields[0].clone();
                c.fields.push(f);
            }
        }
        _ => {
            // a number instead of bytes
            if let Some(k) = s.types.iter().position(|t| matches!(t.type_def, TypeDef::Primitive(Prim::U32))) {
                if let TypeDef::Composite(c) = &mut s.types[t].type_def {
                    c.fields[0].ty = sym(k as u32);
                }
            } else {
                s.types[t].type_params.clear();
            }
        }
    }
}

/// Extrinsics that are declared in another way: bytes themselves, or in structs
/// of a single field.
pub fn another_extrinsic(s: &mut Synth, r: &mut Rng) {
    let t = s.extrinsic_ty as usize;
    if r.pct(40) {
        if let TypeDef::Composite(c) = &s.types[t].type_def {
            let bytes = c.fields[0].ty.id as usize;
            s.types[t].type_def = s.types[bytes].type_def.clone();
            if r.pct(50) {
                s.types[t].path.segments.clear();
            }
        }
    }
    for _ in 0..r.below(3) {
        let mut w = s.types[t].clone();
        w.type_params.clear();
        w.path.segments = vec!["wrapped".into(), "Extrinsic".into()];
        let f = scale_info::Field { name: None, ty: sym(s.extrinsic_ty), type_name: None, docs: vec![] };
        w.type_def = scale_info::TypeDefComposite { fields: vec![f] }.into();
        s.extrinsic_ty = s.types.len() as u32;
        s.types.push(w);
    }
}

/// What the operation needs of the metadata source, and whether that is only
/// for the call of a transaction.
fn needs(op: &Op) -> &'static [u8] {
    match op {
        Op::Tx { .. } | Op::TxUnmarked { .. } => &[Q_CALL, Q_EXTS, Q_VERSION],
        Op::CallUnmarked { .. } => &[Q_CALL],
        Op::ExtsUnmarked { .. } => &[Q_EXTS, Q_VERSION],
        Op::Extrinsic { .. } => &[Q_PARAMS, Q_EXTVERSION],
        Op::Version { .. } => &[Q_VERSION],
        _ => &[],
    }
}

fn has_code(e: &ErrInfo, codes: &[u32]) -> bool {
    e.meta && codes.iter().any(|c| e.text.contains(&format!("SimMetaErr({c})")))
}

fn own_error(e: &ErrInfo, codes: &[u32], mem: &[SimErr]) -> bool {
    has_code(e, codes) || e.dev.as_ref().map(|d| mem.contains(d)).unwrap_or(false)
}

/// Judge an operation for which these kinds of queries fail for good.
fn judge(op: &Op, base: &Outcome, o: &Outcome, fails: &[MetaFail], mem: &[SimErr]) -> Option<(&'static str, String)> {
    if let Some(m) = o.panicked() {
        return Some(("panic", m.into()));
    }
    let show = || format!("was {}, became {}, memory failures {mem:?}", brief(base), brief(o));
    if let (Op::Marked { steps, .. }, Outcome::Done { val: Val::Many(a), .. }, Outcome::Done { val: Val::Many(b), .. }) =
        (op, base, o)
    {
        let meta = match op {
            Op::Marked { meta, .. } => *meta,
            _ => 0,
        };
        for ((s, x), y) in steps.iter().zip(a).zip(b) {
            // as the separate operations
            let like = match s {
                Step::Call => Op::CallUnmarked { meta, blob: 0, pos: 0 },
                Step::Exts(g) => Op::ExtsUnmarked { meta, blob: 0, pos: 0, genesis: *g },
                _ => return None,
            };
            if let Some(v) = judge(&like, x, y, fails, mem) {
                return Some(v);
            }
        }
        return None;
    }
    let codes: Vec<u32> = fails.iter().filter(|f| needs(op).contains(&f.which)).map(|f| f.code).collect();
    let only_call = matches!(op, Op::Tx { .. }) && fails.iter().all(|f| f.which == Q_CALL || !needs(op).contains(&f.which));
    if codes.is_empty() {
        // nothing the operation needs
        let same = match (base, o) {
            (_, Outcome::Fail(e)) if e.dev.is_some() => mem.contains(e.dev.as_ref().unwrap()),
            _ if !mem.is_empty() => super::c02::same_or_error(base, o),
            _ => base == o,
        };
        return (!same).then(|| ("failure of what is not needed changed the outcome", show()));
    }
    if only_call {
        match (base, o) {
            (Outcome::Done { val: Val::Tx { exts: a, .. }, .. }, Outcome::Done { val: Val::Tx { exts: b, call }, .. }) => {
                if a != b {
                    return Some(("extensions changed by missing call type", show()));
                }
                match call {
                    Ok(_) => return Some(("call decoded without its type", show())),
                    Err(e) if !own_error(e, &codes, mem) => {
                        return Some(("metadata failure not reported as such", show()));
                    }
                    _ => (),
                }
            }
            (Outcome::Done { .. }, Outcome::Fail(e)) if e.dev.as_ref().map(|d| mem.contains(d)).unwrap_or(false) => (),
            (Outcome::Done { .. }, _) => return Some(("extensions lost with the call type", show())),
            (_, Outcome::Done { .. }) => return Some(("result without metadata", show())),
            _ => (),
        }
        return None;
    }
    match o {
        Outcome::Done { .. } => Some(("result without metadata", show())),
        // a record refused before anything failed, or for what failed
        Outcome::Fail(e) if own_error(e, &codes, mem) => None,
        Outcome::Fail(e) => match base {
            Outcome::Fail(b) if b == e => None,
            _ => Some(("metadata failure not reported as such", show())),
        },
        Outcome::Panic(_) => None,
    }
}

fn run(scn: &Scenario, st: &mut Stats) -> Result<(), Violation> {
    let mut w = scn.world();
    let ram = scn.ram();
    note_metas(scn, st);
    let blobs: Vec<&[u8]> = scn.blobs.iter().map(|b| &b[..]).collect();
    let nums = &scn.plan.nums;
    let bad = nums.first().copied().unwrap_or(0);
    let mut r = Rng::new(nums.get(1).copied().unwrap_or(0));
    for op in &scn.ops {
        let err = |what: &str, msg: String, plan: Plan| {
            Err(Violation { class: format!("{}: {what}", op.name()), msg, narrow: narrowed(scn, op.clone(), plan) })
        };
        let (base, trace) = w.exec_traced(op);
        let own = Plan { nums: vec![bad, 0], ..Default::default() };
        let Some(_) = w.sim_meta(op.meta()) else {
            // metadata of the V14 and V15 forms, with whatever was done to it
            let info = &w.infos[op.meta()];
            let in_memory = ram.exec(&blobs, op);
            for (place, o) in [("on the device", &base), ("in memory", &in_memory)] {
                st.checks += 1;
                if let Some(m) = o.panicked() {
                    return err("panic", m.into(), own);
                }
                if let Some((what, msg)) = damaged(scn, info, op, o, bad) {
                    return err(what, format!("{place}: {msg}"), own);
                }
            }
            let broken = bad != 0 || info.version_state == VersionState::Bad;
            if broken {
                st.probe("damaged metadata record");
            }
            st.exec(&w, op, &base, broken);
            continue;
        };
        st.exec(&w, op, &base, false);
        let mut plans: Vec<(Vec<MetaFail>, Vec<PFault>)> = vec![];
        if scn.plan.sweep {
            for which in 0..5u8 {
                let mut code = || r.range(1, 1_000_000) as u32;
                plans.push((vec![MetaFail { which, from: 0, count: u32::MAX, code: code() }], vec![]));
                plans.push((vec![MetaFail { which, from: 0, count: 1, code: code() }], vec![]));
                plans.push((vec![MetaFail { which, from: 1, count: 1, code: code() }], vec![]));
            }
            for _ in 0..6 {
                let n = r.range(1, 3);
                let f = (0..n)
                    .map(|_| MetaFail {
                        which: r.below(5) as u8,
                        from: r.weighted(&[6, 1, 1]) as u32,
                        count: *r.pick(&[1, 2, u32::MAX]),
                        code: r.range(1, 1_000_000) as u32,
                    })
                    .collect();
                let m = if r.pct(50) { rand_read_faults(&mut r) } else { vec![] };
                plans.push((f, m));
            }
        } else {
            plans.push((scn.plan.meta_fails.clone(), scn.plan.faults.clone()));
        }
        for (fails, faults) in plans {
            let fs: Vec<Fault> = fit(&w.faults(&faults), trace.len() as u32);
            let meta = w.sim_meta(op.meta()).unwrap();
            meta.set_fails(&fails);
            meta.fired.store(0, Ordering::SeqCst);
            let (o, mem) = w.exec_faulty(op, &fs);
            let meta = w.sim_meta(op.meta()).unwrap();
            let fired = meta.fired.swap(0, Ordering::SeqCst);
            let codes = meta.take_codes();
            meta.set_fails(&[]);
            w.restore();
            st.meta_fired += fired as u64;
            st.exec(&w, op, &o, fired > 0);
            st.checks += 1;
            let plan = Plan { meta_fails: fails.clone(), faults: faults.clone(), nums: vec![bad, 0], ..Default::default() };
            // lasting failures count even if never asked for; others once they fired
            let lasting: Vec<MetaFail> = fails
                .iter()
                .filter(|f| f.from == 0 && f.count == u32::MAX || codes.contains(&f.code))
                .cloned()
                .collect();
            // only one of the marked parts sees a transient failure
            let judged = !matches!(op, Op::Marked { .. })
                || fails.iter().all(|f| f.from == 0 && f.count == u32::MAX);
            if judged {
                if let Some((what, msg)) = judge(op, &base, &o, &lasting, &mem) {
                    return err(what, format!("{fails:?}: {msg}"), plan);
                }
            } else if o.panicked().is_some() {
                return err("panic", brief(&o), plan);
            }
            // over
            let again = w.exec(op);
            st.checks += 1;
            if again != base {
                let msg = format!("was {}, later {}", brief(&base), brief(&again));
                return err("does not recover from metadata failure", msg, plan);
            }
        }
    }
    w.reset();
    Ok(())
}

/// Operations with metadata whose records are damaged.
fn damaged(scn: &Scenario, info: &MetaInfo, op: &Op, o: &Outcome, bad: u64) -> Option<(&'static str, String)> {
    let says_so = matches!(o, Outcome::Fail(e) if e.meta);
    let lost_params = || (!says_so).then(|| ("damaged extrinsic type not reported as such", brief(o)));
    let lost_version = || (!says_so).then(|| ("damaged version record not reported as such", brief(o)));
    // as if everything were in order
    let e = expect(scn, info, op);
    let no_version = info.version_state == VersionState::Bad;
    let exts_at = |blob: u8, pos: usize| {
        crate::model::decode_exts(&info.types, &info.exts, &scn.blobs[blob as usize], pos).is_ok()
    };
    match op {
        Op::Marked { meta, blob, steps } => {
            let Outcome::Done { val: Val::Many(v), .. } = o else { return e.against(o) };
            let (c, x) = crate::oracle::marks(&scn.blobs[*blob as usize])?;
            for (s, o) in steps.iter().zip(v) {
                match s {
                    Step::Call => {
                        let like = Op::CallUnmarked { meta: *meta, blob: *blob, pos: c as u32 };
                        let sound = matches!(expect(scn, info, &like), Expect::Answer(Outcome::Done { end: Some(e), .. }) if e == x);
                        if bad != 0 && sound && !matches!(o, Outcome::Fail(e) if e.meta) {
                            return Some(("damaged extrinsic type not reported as such", brief(o)));
                        }
                        if bad != 0 && o.ok() {
                            return Some(("call decoded without its type", brief(o)));
                        }
                    }
                    Step::Exts(g) => {
                        let like = Op::ExtsUnmarked { meta: *meta, blob: *blob, pos: x as u32, genesis: *g };
                        let end = Some(scn.blobs[*blob as usize].len());
                        let o = match o {
                            Outcome::Done { val: Val::Exts(v), .. } => Outcome::Done { val: Val::Exts(v.clone()), end },
                            Outcome::Fail(e) => Outcome::Fail(e.clone()),
                            _ => return Some(("panic", brief(o))),
                        };
                        if let Some(v) = damaged(scn, info, &like, &o, bad) {
                            return Some(v);
                        }
                    }
                    _ => (),
                }
            }
            None
        }
        Op::CallUnmarked { .. } | Op::Extrinsic { .. } if bad != 0 => {
            if o.ok() {
                return Some(("result without extrinsic type", brief(o)));
            }
            if e.accepts() {
                lost_params()
            } else {
                None
            }
        }
        Op::Version { .. } if no_version => lost_version(),
        Op::TxUnmarked { .. } if bad != 0 || no_version => {
            if o.ok() {
                return Some(("result without metadata", brief(o)));
            }
            if e.accepts() {
                lost_params()
            } else {
                None
            }
        }
        Op::ExtsUnmarked { blob, pos, .. } if no_version => {
            if o.ok() {
                return Some(("result without version record", brief(o)));
            }
            if exts_at(*blob, *pos as usize) {
                lost_version()
            } else {
                None
            }
        }
        Op::Tx { blob, .. } if no_version => {
            if o.ok() {
                return Some(("result without version record", brief(o)));
            }
            match crate::oracle::marks(&scn.blobs[*blob as usize]) {
                Some((_, x)) if exts_at(*blob, x) => lost_version(),
                _ => None,
            }
        }
        Op::Tx { .. } if bad != 0 => match (&e, o) {
            (
                Expect::Answer(Outcome::Done { val: Val::Tx { exts: x, call: sound }, .. }),
                Outcome::Done { val: Val::Tx { exts, call }, .. },
            ) => match call {
                Ok(_) => Some(("call decoded without its type", brief(o))),
                Err(e) if !e.meta && sound.is_ok() => Some(("damaged extrinsic type not reported as such", brief(o))),
                _ if exts != x => Some(("extensions changed by missing call type", brief(o))),
                _ => None,
            },
            (Expect::Answer(_), Outcome::Fail(_)) => Some(("extensions lost with the call type", brief(o))),
            (Expect::Refuse(_), Outcome::Done { .. }) => Some(("invalid record accepted", brief(o))),
            _ => None,
        },
        _ => e.against(o),
    }
}
