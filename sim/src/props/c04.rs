//! C04: decoding recovers as soon as the memory works again.
use super::c02::same_or_error;
use super::common::*;
use super::Prop;
use crate::mem::Fault;
use crate::ops::*;
use crate::oracle::{expect, Expect};
use crate::prng::Rng;

pub const PROP: Prop = Prop {
    id: "C04",
    gen,
    run,
    quick: 36_000,
    thorough: 500_000,
    chunk: 256,
    rule: "One evaluation is one run of one operation. A history is a seeded sequence of operations on one device \
           with the same metadata objects and marked transactions: attempts under injected failures, each followed \
           by a repetition without failures that must give the fault-free answer at once; operations while \
           something they do not need is unreadable; and repetitions under a failure that stops after a finite number \
           of reads, which must succeed once it stops. Non-trivial: a failure fired before the judged attempt, or \
           some range was unreadable during it; distinct by all reads, errors and outcomes.",
};

fn gen(r: Rng, index: u64) -> Scenario {
    let mut b = Build::new("C04", r);
    let m = b.meta(index, MetaOpts { real: 6, flash: 90, depth: 3 });
    let m2 = if b.r.pct(40) { b.meta(index, MetaOpts { real: 0, flash: 100, depth: 2 }) } else { m };
    for i in 0..b.r.range(2, 4) {
        let kind = ALL_KINDS[b.r.weighted(&[4, 5, 6, 3, 3, 3, 8, 5, 4, 5, 0])];
        let mut op = b.record(if i % 2 == 0 { m } else { m2 }, kind);
        if let Op::Marked { steps, .. } = &mut op {
            let basic = steps.clone();
            for _ in 0..b.r.range(1, 3) {
                steps.push(Step::Arm(rand_read_faults(&mut b.r)));
                for _ in 0..b.r.range(1, 2) {
                    steps.push(b.r.pick(&basic).clone());
                }
                steps.push(Step::Clear);
                steps.extend(basic.clone());
            }
        } else if b.r.pct(15) {
            let blobs = op.blobs();
            let i = *b.r.pick(&blobs);
            let n = b.scn.blobs[i].len();
            rand_mut(&mut b.r, n).apply(&mut b.scn.blobs[i]);
        }
        b.scn.ops.push(op);
    }
    // history: number of the operation with the failure it meets
    for _ in 0..b.r.range(2, 8) {
        let v = b.r.u64();
        b.scn.plan.nums.push(v);
        let f = match b.r.below(10) {
            0..=4 => rand_read_faults(&mut b.r).remove(0),
            _ => {
                let n = b.scn.blobs.len() as u64;
                let nm = b.scn.metas.len() as u64;
                let place = match b.r.below(6) {
                    0..=1 => Place::Blob(b.r.below(n) as u8),
                    2..=3 => Place::Table(b.r.below(nm) as u8),
                    _ => Place::Gap(b.r.below(n + nm) as u8),
                };
                let len = *b.r.pick(&[1u32, 4, 40, 100_000]);
                let off = if len > 1000 { 0 } else { b.r.u64() as u32 };
                PFault::Range { place, off, len, code: b.r.below(1_000_000) as u32 }
            }
        };
        b.scn.plan.faults.push(f);
    }
    b.finish()
}

fn touches(trace: &[(u32, u32)], f: &Fault) -> bool {
    match f {
        Fault::Range { start, len, .. } => {
            trace.iter().any(|(a, l)| *l > 0 && a < &(start + len) && a + l > *start)
        }
        _ => true,
    }
}

fn calm(op: &Op) -> Op {
    match op {
        Op::Marked { meta, blob, steps } => Op::Marked {
            meta: *meta,
            blob: *blob,
            steps: steps.iter().filter(|s| matches!(s, Step::Call | Step::Exts(_))).cloned().collect(),
        },
        o => o.clone(),
    }
}

fn run(scn: &Scenario, st: &mut Stats) -> Result<(), Violation> {
    let w = scn.world();
    note_metas(scn, st);
    let mut known = vec![];
    for op in &scn.ops {
        if let Expect::Unknown = expect(scn, &w.infos[op.meta()], &calm(op)) {
            return Ok(());
        }
        // each baseline from a device and metadata never used before
        let fresh = scn.world();
        let (o, t) = fresh.exec_traced(&calm(op));
        if o.panicked().is_some() {
            return Ok(());
        }
        known.push((o, t));
    }
    // marked transactions that live through failures
    for (op, (base, _)) in scn.ops.iter().zip(&known) {
        let Op::Marked { steps, .. } = op else { continue };
        w.mem.lock().take_errors();
        w.mem.lock().clear();
        let o = w.exec(op);
        w.mem.lock().clear();
        st.exec(&w, op, &o, true);
        if let Some(m) = o.panicked() {
            return violation("marked transaction: panic", m);
        }
        let (Outcome::Done { val: Val::Many(a), .. }, Outcome::Done { val: Val::Many(b), .. }) = (base, &o) else {
            if *base != o {
                return violation("marked transaction: other outcome", format!("{} and {}", brief(base), brief(&o)));
            }
            continue;
        };
        let mut armed = false;
        let mut i = 0;
        for s in steps {
            match s {
                Step::Arm(_) => armed = true,
                Step::Clear => armed = false,
                _ => {
                    st.checks += 1;
                    let good = if armed { same_or_error(&a[i], &b[i]) } else { a[i] == b[i] };
                    if !good {
                        return violation(
                            "marked transaction: no recovery",
                            format!("part {i} (failures {armed}): fresh {}, now {}", brief(&a[i]), brief(&b[i])),
                        );
                    }
                    i += 1;
                }
            }
        }
    }
    // the history
    for (i, (v, f)) in scn.plan.nums.iter().zip(&scn.plan.faults).enumerate() {
        if scn.ops.is_empty() {
            break;
        }
        let k = (*v % scn.ops.len() as u64) as usize;
        let op = calm(&scn.ops[k]);
        let (base, trace) = &known[k];
        let Some(fault) = w.fault(f) else { continue };
        let fault = fit(&[fault], trace.len() as u32);
        let (o, errors) = w.exec_faulty(&op, &fault);
        st.exec(&w, &op, &o, !errors.is_empty());
        st.checks += 1;
        if !same_or_error(base, &o) {
            return violation(
                format!("{}: other answer under failure", op.name()),
                format!("step {i}: fresh {}, now {}", brief(base), brief(&o)),
            );
        }
        if !touches(trace, &fault[0]) {
            st.probe("unneeded range unreadable");
            if *base != o {
                return violation(
                    format!("{}: disturbed by unreadable memory it does not need", op.name()),
                    format!("step {i}, {f:?}: fresh {}, now {}", brief(base), brief(&o)),
                );
            }
        }
        if !errors.is_empty() {
            st.probe("failed attempt repeated");
        }
        let (o, _) = w.exec_faulty(&op, &[]);
        st.exec(&w, &op, &o, !errors.is_empty());
        st.checks += 1;
        if *base != o {
            return violation(
                format!("{}: no recovery on the next attempt", op.name()),
                format!("step {i}, after {f:?}: fresh {}, now {}", brief(base), brief(&o)),
            );
        }
        // a failure that stops by itself: attempts succeed once it is over
        if let Fault::Reads { at, count, .. } = fault[0] {
            if count < 10 {
                w.mem.lock().arm(&fault);
                let mut tries = 0;
                loop {
                    let o = w.exec(&op);
                    tries += 1;
                    let over = {
                        let mut d = w.mem.lock();
                        d.take_errors();
                        d.clock() > at + count
                    };
                    st.exec(&w, &op, &o, true);
                    if *base == o && (over || trace.is_empty()) {
                        break;
                    }
                    if tries > count + 3 {
                        w.mem.lock().clear();
                        return violation(
                            format!("{}: no progress after failures stopped", op.name()),
                            format!("step {i}: {tries} attempts, fresh {}, now {}", brief(base), brief(&o)),
                        );
                    }
                }
                w.mem.lock().clear();
                st.probe("repeated through a passing failure");
            }
        }
    }
    Ok(())
}
