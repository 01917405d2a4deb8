//! C06: left-over bytes are never silently accepted.
use super::common::*;
use super::Prop;
use crate::findings;
use crate::gen::put_compact;
use crate::model::read_compact;
use crate::ops::*;
use crate::oracle::{expect_on, marks, Expect};
use crate::prng::Rng;

pub const PROP: Prop = Prop {
    id: "C06",
    gen,
    run,
    quick: 22_000,
    thorough: 800_000,
    chunk: 256,
    rule: "One evaluation is one run of one whole-record operation. Each accepted record is followed by stale bytes \
           of every length up to 24 and some longer (zeros, ones, the record itself, its own last bytes, seeded \
           bytes), which is what remains of an older, longer record on the device; surplus bytes are put at the end \
           of the declared call of transactions and of the declared length of extrinsics, with the length corrected; \
           and records are damaged anywhere. Non-trivial: the record is longer than its content; distinct by all \
           reads made and the outcome.",
};

const KINDS: [Kind; 8] = [
    Kind::TypedAll,
    Kind::Tx,
    Kind::TxUnmarked,
    Kind::ExtsUnmarked,
    Kind::Parts,
    Kind::Extrinsic,
    Kind::Storage,
    Kind::Key,
];

fn gen(r: Rng, index: u64) -> Scenario {
    let mut b = Build::new("C06", r);
    let m = b.meta(index, MetaOpts { real: 8, flash: 75, depth: 3 });
    for _ in 0..b.r.range(1, 2) {
        let kind = KINDS[b.r.weighted(&[6, 5, 4, 4, 3, 5, 4, 4])];
        let op = b.record(m, kind);
        b.scn.ops.push(op);
    }
    b.scn.plan.sweep = true;
    let v = b.r.u64();
    b.scn.plan.nums.push(v);
    b.finish()
}

/// The record with surplus inside of what it declares.
fn inner_surplus(op: &Op, rec: &[u8], junk: &[u8]) -> Option<Vec<u8>> {
    match op {
        Op::Tx { .. } | Op::Marked { .. } => {
            let (c, x) = marks(rec)?;
            let mut out = vec![];
            put_compact((x - c + junk.len()) as u128, &mut out);
            out.extend_from_slice(&rec[c..x]);
            out.extend_from_slice(junk);
            out.extend_from_slice(&rec[x..]);
            Some(out)
        }
        Op::Extrinsic { .. } => {
            let mut p = 0;
            read_compact(rec, &mut p, 4).ok()?;
            let mut out = vec![];
            put_compact((rec.len() - p + junk.len()) as u128, &mut out);
            out.extend_from_slice(&rec[p..]);
            out.extend_from_slice(junk);
            Some(out)
        }
        _ => None,
    }
}

fn call_results(o: &Outcome, out: &mut Vec<bool>) {
    match o {
        Outcome::Done { val: Val::Tx { call, .. }, .. } => out.push(call.is_ok()),
        Outcome::Done { val: Val::Call(_), .. } => out.push(true),
        Outcome::Done { val: Val::Many(v), .. } => v.iter().for_each(|o| call_results(o, out)),
        _ => (),
    }
}

fn exts_of(o: &Outcome) -> Option<&Vec<substrate_parser::cards::ExtendedData>> {
    match o {
        Outcome::Done { val: Val::Tx { exts, .. }, .. } => Some(exts),
        Outcome::Done { val: Val::Exts(e), .. } => Some(e),
        Outcome::Done { val: Val::Many(v), .. } => v.iter().find_map(exts_of),
        _ => None,
    }
}

/// One case: record number `which` of the operation replaced.
const TAIL: u64 = 0;
const INNER: u64 = 1;
const DAMAGE: u64 = 2;

fn junk(r: &mut Rng, rec: &[u8], n: usize) -> Vec<u8> {
    match r.below(5) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 if !rec.is_empty() => rec.iter().cycle().take(n).cloned().collect(),
        3 if rec.len() >= n => rec[rec.len() - n..].to_vec(),
        _ => r.bytes(n),
    }
}

fn run(scn: &Scenario, st: &mut Stats) -> Result<(), Violation> {
    let mut w = scn.world();
    let ram = scn.ram();
    note_metas(scn, st);
    // narrowed: case, number of the record, then the bytes in `muts`
    let mut r = Rng::new(scn.plan.nums.first().copied().unwrap_or(0));
    for op in &scn.ops {
        let base = w.exec(op);
        st.exec(&w, op, &base, false);
        if !base.full() {
            st.probe("complete record not accepted");
            continue;
        }
        let mut cases: Vec<(u64, usize, Vec<Mut>)> = vec![];
        if !scn.plan.sweep {
            if scn.plan.nums.len() >= 3 {
                cases.push((scn.plan.nums[1], scn.plan.nums[2] as usize, scn.plan.muts.clone()));
            }
        } else {
            for (which, i) in op.blobs().into_iter().enumerate() {
                let rec = &scn.blobs[i];
                if !matches!(op, Op::Marked { .. }) {
                    for n in 1..=24usize {
                        cases.push((TAIL, which, vec![Mut::Append { bytes: junk(&mut r, rec, n) }]));
                    }
                    for _ in 0..4 {
                        let n = r.range(25, 300) as usize;
                        cases.push((TAIL, which, vec![Mut::Append { bytes: junk(&mut r, rec, n) }]));
                    }
                }
                if matches!(op, Op::Tx { .. } | Op::Marked { .. } | Op::Extrinsic { .. }) {
                    for n in [1usize, 2, 3, 4, 5, 8, 16, 33, 64, 200] {
                        cases.push((INNER, which, vec![Mut::Append { bytes: junk(&mut r, rec, n) }]));
                    }
                }
                for _ in 0..14 {
                    let n = r.weighted(&[0, 6, 2, 1]);
                    let m = (0..n).map(|_| rand_mut(&mut r, rec.len())).collect();
                    cases.push((DAMAGE, which, m));
                }
            }
        }
        for (k, (case, which, muts)) in cases.into_iter().enumerate() {
            let Some(i) = op.blobs().get(which).copied() else { continue };
            let rec = match (case, &muts[..]) {
                (INNER, [Mut::Append { bytes }]) => match inner_surplus(op, &scn.blobs[i], bytes) {
                    Some(x) => x,
                    None => continue,
                },
                _ => {
                    let mut x = scn.blobs[i].clone();
                    muts.iter().for_each(|m| m.apply(&mut x));
                    x
                }
            };
            let blobs: Vec<&[u8]> =
                scn.blobs.iter().enumerate().map(|(k, b)| if k == i { &rec[..] } else { &b[..] }).collect();
            let mut outs = vec![];
            w.put_blob(i, &rec);
            let o = w.exec(op);
            st.exec(&w, op, &o, case != DAMAGE || o.ok());
            w.reset();
            outs.push(("on the device", o));
            if k % 4 == 0 {
                outs.push(("in memory", ram.exec(&blobs, op)));
            }
            for (place, o) in outs {
                st.checks += 1;
                let mut bad: Option<(&str, String)> = None;
                if let Some(m) = o.panicked() {
                    bad = Some(("panic", m.to_string()));
                } else if case == TAIL {
                    if o.ok() {
                        bad = Some(("left-over bytes accepted", brief(&o)));
                    }
                } else if case == INNER && !matches!(op, Op::Extrinsic { .. }) {
                    let mut calls = vec![];
                    call_results(&o, &mut calls);
                    if calls.contains(&true) {
                        bad = Some(("surplus call bytes accepted", brief(&o)));
                    } else if exts_of(&o) != exts_of(&base) {
                        bad = Some(("extensions changed by surplus call bytes", brief(&o)));
                    }
                }
                if bad.is_none() && o.ok() {
                    // the reference decoder knows whether all bytes are used
                    match expect_on(&blobs, &w.infos[op.meta()], op) {
                        Expect::Unknown => (),
                        Expect::Surplus(x) => {
                            if !crate::oracle::equal(&x, &o) {
                                bad = Some(("different answer", brief(&o)));
                            } else if scn.plan.nums.first() != Some(&findings::PROBE) && findings::listed(D7) {
                                st.known(D7);
                            } else {
                                bad = Some((SURPLUS, brief(&o)));
                            }
                        }
                        e => {
                            if let Some((_, msg)) = e.against(&o) {
                                bad = Some(("record accepted that is not used up or is not valid", msg));
                            }
                        }
                    }
                }
                if let Some((what, msg)) = bad {
                    let plan = Plan {
                        nums: vec![0, case, which as u64],
                        muts: muts.clone(),
                        ..Default::default()
                    };
                    return Err(Violation {
                        class: format!("{}: {what}", op.name()),
                        msg: format!("{place}: record {} bytes for {}: {msg}", rec.len(), scn.blobs[i].len()),
                        narrow: narrowed(scn, op.clone(), plan),
                    });
                }
            }
        }
    }
    Ok(())
}

pub const D7: &str = "D7";
pub const SURPLUS: &str = "surplus inside the declared length accepted";

/// Open finding: an unsigned extrinsic with one byte too many inside.
pub fn finding_scenario() -> Scenario {
    // run numbers are tried in order, so this is always the same one
    for i in 0.. {
        let mut b = Build::new("C06", Rng::for_run(7, "C06 finding", i));
        let m = b.meta(0, MetaOpts { real: 0, flash: 100, depth: 1 });
        let op = b.record(m, Kind::Extrinsic);
        if !matches!(op, Op::Extrinsic { .. }) {
            continue;
        }
        b.scn.ops.push(op);
        b.scn.plan.nums = vec![findings::PROBE, INNER, 0];
        b.scn.plan.muts = vec![Mut::Append { bytes: vec![0] }];
        return b.finish();
    }
    unreachable!()
}
