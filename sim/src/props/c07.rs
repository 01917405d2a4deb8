//! C07: call and extensions of a transaction are decoded apart.
use super::common::*;
use super::Prop;
use crate::gen::put_compact;
use crate::mem::Fault;
use crate::model::read_compact;
use crate::ops::*;
use crate::oracle::{expect_on, marks, Expect};
use crate::prng::Rng;
use substrate_parser::cards::{Call, ExtendedData};

pub const PROP: Prop = Prop {
    id: "C07",
    gen,
    run,
    quick: 14_000,
    thorough: 600_000,
    chunk: 256,
    rule: "One evaluation is one run of one operation on a transaction with length-prefixed call, part of which was \
           damaged, made unreadable, or rewritten while decoding was in progress: only the extensions (also cut or \
           extended), or only the call bytes, or only the declared length. Non-trivial: the damage differs from the \
           stored bytes or a failure fired; distinct by all reads made and the outcome.",
};

fn gen(r: Rng, index: u64) -> Scenario {
    let mut b = Build::new("C07", r);
    let m = b.meta(index, MetaOpts { real: 12, flash: 80, depth: 3 });
    for _ in 0..b.r.range(1, 2) {
        let kind = if b.r.pct(50) { Kind::Tx } else { Kind::Parts };
        let op = b.record(m, kind);
        // also transactions that are wrong in one part already
        if b.r.pct(20) {
            let i = op.blobs()[0];
            let n = b.scn.blobs[i].len();
            rand_mut(&mut b.r, n).apply(&mut b.scn.blobs[i]);
        }
        b.scn.ops.push(op);
    }
    b.scn.plan.sweep = true;
    let v = b.r.u64();
    b.scn.plan.nums.push(v);
    b.finish()
}

/// Result of the call, of the extensions; `None` where not reported.
type Parts<'a> = (Vec<Result<&'a Call, String>>, Vec<Result<&'a Vec<ExtendedData>, String>>);

fn parts<'a>(op: &Op, o: &'a Outcome) -> Parts<'a> {
    let (mut c, mut x): Parts = (vec![], vec![]);
    match (op, o) {
        (_, Outcome::Done { val: Val::Tx { exts, call }, .. }) => {
            c.push(call.as_ref().map(|b| &**b).map_err(|e| e.text.clone()));
            x.push(Ok(exts));
        }
        (Op::Tx { .. }, Outcome::Fail(e)) => x.push(Err(e.text.clone())),
        (Op::Marked { steps, .. }, Outcome::Done { val: Val::Many(v), .. }) => {
            let steps = steps.iter().filter(|s| matches!(s, Step::Call | Step::Exts(_)));
            for (s, o) in steps.zip(v) {
                match (s, o) {
                    (_, Outcome::Done { val: Val::Call(k), .. }) => c.push(Ok(k)),
                    (_, Outcome::Done { val: Val::Exts(e), .. }) => x.push(Ok(e)),
                    (Step::Call, Outcome::Fail(e)) => c.push(Err(e.text.clone())),
                    (_, Outcome::Fail(e)) => x.push(Err(e.text.clone())),
                    _ => (),
                }
            }
        }
        _ => (),
    }
    (c, x)
}

const EXTS: u64 = 0;
const CALL: u64 = 1;
const LENGTH: u64 = 2;

struct Case {
    part: u64,
    /// 0: before the operation, 1: while decoding (at read `at`), 2: unreadable
    how: u64,
    at: u32,
    muts: Vec<Mut>,
}

fn run(scn: &Scenario, st: &mut Stats) -> Result<(), Violation> {
    let mut w = scn.world();
    let ram = scn.ram();
    note_metas(scn, st);
    let mut r = Rng::new(scn.plan.nums.first().copied().unwrap_or(0));
    for op in &scn.ops {
        let i = op.blobs()[0];
        let rec = scn.blobs[i].clone();
        let Some((c, x)) = marks(&rec) else {
            st.probe("transaction not separable");
            continue;
        };
        let blobs: Vec<&[u8]> = scn.blobs.iter().map(|b| &b[..]).collect();
        if let Expect::Unknown = expect_on(&blobs, &w.infos[op.meta()], op) {
            st.probe("not decided by the reference decoder");
            continue;
        }
        let (base, trace) = w.exec_traced(op);
        st.exec(&w, op, &base, false);
        if base.panicked().is_some() {
            return violation(format!("{}: panic", op.name()), brief(&base));
        }
        let reads = trace.len() as u32;
        let mut cases = vec![];
        if scn.plan.sweep {
            for k in 0..44u64 {
                let part = if k % 11 == 10 { LENGTH } else { k % 2 };
                let how = if part == LENGTH { 0 } else { r.weighted(&[5, 4, 2]) as u64 };
                let n = if part == EXTS { rec.len() - x } else { x - c };
                let count = r.weighted(&[0, 5, 3, 1]);
                let mut muts: Vec<Mut> = (0..count)
                    .map(|_| loop {
                        let m = rand_mut(&mut r, n);
                        // the call bytes keep their length
                        if (part == EXTS && how == 0) || matches!(m, Mut::Set { .. } | Mut::Xor { .. }) {
                            break m;
                        }
                    })
                    .collect();
                if part == LENGTH {
                    let v = *r.pick(&[0u32, 1, 2, 3, 5, 17, 64, 1 << 14, 1 << 30, u32::MAX]);
                    muts = vec![Mut::Xor { at: v, val: r.below(2) as u8 }];
                }
                if r.pct(15) && part != LENGTH && n > 0 {
                    // everything in there
                    let val = *r.pick(&[0u8, 0xff, 0x04]);
                    muts = (0..n as u32).map(|at| Mut::Set { at, val }).collect();
                }
                cases.push(Case { part, how, at: r.below(reads.max(1) as u64) as u32, muts });
            }
        } else if scn.plan.nums.len() >= 4 {
            let n = &scn.plan.nums;
            cases.push(Case { part: n[1], how: n[2], at: n[3] as u32, muts: scn.plan.muts.clone() });
        }
        for k in cases {
            let (from, to) = if k.part == EXTS { (x, rec.len()) } else { (c, x) };
            let mut new = rec[from..to].to_vec();
            if k.part == LENGTH {
                let Some(Mut::Xor { at, val }) = k.muts.first() else { continue };
                let n = if *val == 0 { (x - c) as u32 ^ at } else { ((x - c) as u32).saturating_sub(*at) };
                let mut out = vec![];
                put_compact(n as u128, &mut out);
                out.extend_from_slice(&rec[c..]);
                new = out;
            } else {
                k.muts.iter().for_each(|m| m.apply(&mut new));
            }
            let whole = match k.part {
                LENGTH => new.clone(),
                EXTS => [&rec[..x], &new[..]].concat(),
                _ => [&rec[..c], &new[..], &rec[x..]].concat(),
            };
            if k.part == CALL && new.len() != x - c {
                continue;
            }
            let mut outs = vec![];
            let b = w.blobs[i].clone();
            match k.how {
                0 => {
                    w.put_blob(i, &whole);
                    let o = w.exec(op);
                    st.exec(&w, op, &o, whole != rec);
                    w.reset();
                    outs.push(("on the device", o));
                    let mut bl = blobs.clone();
                    bl[i] = &whole;
                    if k.part == LENGTH || k.at % 4 == 0 {
                        outs.push(("in memory", ram.exec(&bl, op)));
                    }
                }
                1 => {
                    let f = Fault::Rewrite { at: k.at, start: (b.start + from) as u32, bytes: new.clone() };
                    // a rewrite of equal length only
                    if new.len() != to - from {
                        continue;
                    }
                    let (o, _) = w.exec_faulty(op, &[f]);
                    st.exec(&w, op, &o, whole != rec);
                    w.restore();
                    outs.push(("on the device, rewritten while decoding", o));
                }
                _ => {
                    if to == from {
                        continue;
                    }
                    let len = (to - from) as u32;
                    if let (CALL, Op::Marked { meta, blob, steps }) = (k.part, op) {
                        // splitting reads the call, extensions do not
                        let f = PFault::Range { place: Place::Blob(i as u8), off: from as u32, len, code: 7 };
                        let mut steps = steps.clone();
                        steps.insert(0, Step::Arm(vec![f]));
                        let op2 = Op::Marked { meta: *meta, blob: *blob, steps };
                        let o = w.exec(&op2);
                        w.restore();
                        st.exec(&w, op, &o, true);
                        outs.push(("on the device, unreadable once split", o));
                    } else {
                        let f = Fault::Range { start: (b.start + from) as u32, len, code: 7 };
                        let (o, e) = w.exec_faulty(op, &[f]);
                        st.exec(&w, op, &o, !e.is_empty());
                        outs.push(("on the device, unreadable", o));
                    }
                }
            }
            for (place, o) in outs {
                st.checks += 1;
                let bad = judge(scn, &w, op, &base, &o, &k, &whole, i);
                if let Some((what, msg)) = bad {
                    let plan = Plan {
                        nums: vec![0, k.part, k.how, k.at as u64],
                        muts: k.muts.clone(),
                        ..Default::default()
                    };
                    return Err(Violation {
                        class: format!("{}: {what}", op.name()),
                        msg: format!("{place}: {msg}"),
                        narrow: narrowed(scn, op.clone(), plan),
                    });
                }
            }
            st.probe(match (k.part, k.how) {
                (EXTS, 0) => "extensions damaged",
                (EXTS, 1) => "extensions rewritten while decoding",
                (EXTS, _) => "extensions unreadable",
                (CALL, 0) => "call damaged",
                (CALL, 1) => "call rewritten while decoding",
                (CALL, _) => "call unreadable",
                _ => "declared length damaged",
            });
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn judge(
    scn: &Scenario,
    w: &World,
    op: &Op,
    base: &Outcome,
    o: &Outcome,
    k: &Case,
    whole: &[u8],
    i: usize,
) -> Option<(&'static str, String)> {
    if let Some(m) = o.panicked() {
        return Some(("panic", m.to_string()));
    }
    let (bc, bx) = parts(op, base);
    let (oc, ox) = parts(op, o);
    let show = || format!("was {}, became {}", brief(base), brief(o));
    match k.part {
        EXTS => {
            // refused extensions take the whole transaction along
            let gone = matches!(op, Op::Tx { .. }) && (!o.ok() || !base.ok());
            if !gone && bc != oc {
                return Some(("call changed by damage to extensions", show()));
            }
        }
        CALL => {
            // splitting the transaction needs readable call bytes
            let split = k.how == 2 && matches!(op, Op::Tx { .. }) && !o.ok();
            if !split && bx != ox {
                return Some(("extensions changed by damage to call", show()));
            }
        }
        _ => (),
    }
    if k.how == 0 {
        let mut blobs: Vec<&[u8]> = scn.blobs.iter().map(|b| &b[..]).collect();
        blobs[i] = whole;
        // exactly the declared bytes, and exactly those after them
        let mut p = 0;
        let _ = read_compact(whole, &mut p, 4);
        return expect_on(&blobs, &w.infos[op.meta()], op).against(o);
    }
    None
}
