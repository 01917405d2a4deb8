//! C02: failing reads never change the answer. C03: they are reported as such.
use super::common::*;
use super::Prop;
use crate::mem::{Fault, SimErr};
use crate::meta::MetaSpec;
use crate::ops::*;
use crate::oracle::{expect, Expect};
use crate::prng::Rng;

pub const C02: Prop = Prop {
    id: "C02",
    gen: |r, i| gen("C02", r, i),
    run: |s, st| run(s, st, judge_c02),
    quick: 24_000,
    thorough: 400_000,
    chunk: 256,
    rule: "One evaluation is one run of one operation with one fault plan. Every operation is first run fault-free, \
           then with failures injected: at every single read in turn (sweep), as bursts and lasting failures from any \
           read on, as unreadable ranges of record or type table, and as combinations. Non-trivial: at least one \
           failure actually fired inside the operation; distinct by all reads made, errors returned and the outcome.",
};

pub const C03: Prop = Prop {
    id: "C03",
    gen: |r, i| gen("C03", r, i),
    run: |s, st| run(s, st, judge_c03),
    quick: 24_000,
    thorough: 400_000,
    chunk: 256,
    rule: C02.rule,
};

fn gen(id: &str, r: Rng, index: u64) -> Scenario {
    let mut b = Build::new(id, r);
    let flash = if index % 8 == 0 { 20 } else { 90 };
    let m = b.meta(index, MetaOpts { real: 8, flash, depth: 3 });
    for _ in 0..b.r.range(1, 2) {
        let kind = ALL_KINDS[b.r.weighted(&[5, 6, 6, 3, 3, 4, 3, 5, 4, 5, 0])];
        let op = b.record(m, kind);
        if b.r.pct(12) {
            let blobs = op.blobs();
            let i = *b.r.pick(&blobs);
            let n = b.scn.blobs[i].len();
            rand_mut(&mut b.r, n).apply(&mut b.scn.blobs[i]);
        }
        b.scn.ops.push(op);
    }
    if b.r.pct(55) {
        b.scn.plan.sweep = true;
        let v = b.r.u64();
        b.scn.plan.nums.push(v);
    } else {
        let mut f = vec![];
        for _ in 0..b.r.range(1, 3) {
            if b.r.pct(60) {
                f.extend(rand_read_faults(&mut b.r));
            } else {
                let place = if b.r.pct(50) {
                    let n = b.scn.blobs.len() as u64;
                    Place::Blob(b.r.below(n) as u8)
                } else {
                    Place::Table(0)
                };
                let len = *b.r.pick(&[1u32, 2, 8, 64, 1000]);
                f.push(PFault::Range { place, off: b.r.u64() as u32, len, code: b.r.below(1_000_000) as u32 });
            }
        }
        if b.r.pct(20) {
            f.extend(slow_faults(&mut b.r));
        }
        b.scn.plan.faults = f;
        if b.r.pct(25) {
            // damaged type descriptions: the device can not deliver them
            if let MetaSpec::Synth(s) = &mut b.scn.metas[0] {
                if id == "C03" {
                    for _ in 0..b.r.range(1, 3) {
                        s.damage.push((b.r.u64() as u32, 1 << b.r.below(8)));
                    }
                }
            }
        }
    }
    b.finish()
}

type Judge = fn(&Outcome, &Outcome, &[SimErr]) -> Option<(&'static str, String)>;

/// The answer is the fault-free one or an error.
pub fn same_or_error(base: &Outcome, o: &Outcome) -> bool {
    match (base, o) {
        (_, Outcome::Fail(_)) => true,
        (
            Outcome::Done { val: Val::Tx { exts: a, call: c }, end: e },
            Outcome::Done { val: Val::Tx { exts: b, call: d }, end: f },
        ) => {
            e == f
                && a == b
                && match (c, d) {
                    (_, Err(_)) => true,
                    (Ok(x), Ok(y)) => x == y,
                    _ => false,
                }
        }
        (Outcome::Done { val: Val::Many(a), end: e }, Outcome::Done { val: Val::Many(b), end: f }) => {
            e == f && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_or_error(x, y))
        }
        (a, b) => a == b,
    }
}

fn judge_c02(base: &Outcome, o: &Outcome, _: &[SimErr]) -> Option<(&'static str, String)> {
    if let Some(m) = o.panicked() {
        return Some(("panic", m.to_string()));
    }
    if same_or_error(base, o) {
        None
    } else {
        Some((
            "another answer because of failing reads",
            format!("fault-free {}, with failures {}", brief(base), brief(o)),
        ))
    }
}

fn carried(o: &Outcome, out: &mut Vec<Option<SimErr>>) {
    match o {
        Outcome::Fail(e) => out.push(e.dev.clone()),
        Outcome::Done { val: Val::Tx { call: Err(e), .. }, .. } => out.push(e.dev.clone()),
        Outcome::Done { val: Val::Many(v), .. } => v.iter().for_each(|o| carried(o, out)),
        _ => (),
    }
}

fn judge_c03(base: &Outcome, o: &Outcome, errors: &[SimErr]) -> Option<(&'static str, String)> {
    if let Some(m) = o.panicked() {
        return Some(("panic", m.to_string()));
    }
    if errors.is_empty() {
        return if o == base {
            None
        } else {
            Some(("outcome changed with no failure", format!("{} became {}", brief(base), brief(o))))
        };
    }
    let mut got = vec![];
    carried(o, &mut got);
    let reported = got.iter().flatten().any(|e| errors.contains(e));
    // no error made up: what is carried was returned by the device
    let made_up = got.iter().flatten().any(|e| !errors.contains(e));
    if !reported {
        let what = if o.full() { "device failure passed over" } else { "device failure misreported" };
        return Some((what, format!("device returned {errors:?}, outcome {}", brief(o))));
    }
    if made_up {
        return Some(("device failure misreported", format!("device returned {errors:?}, outcome {}", brief(o))));
    }
    None
}

fn run(scn: &Scenario, st: &mut Stats, judge: Judge) -> Result<(), Violation> {
    let w = scn.world();
    note_metas(scn, st);
    let healthy = scn.metas.iter().all(|m| match m {
        MetaSpec::Synth(s) => s.damage.is_empty(),
        _ => true,
    });
    for op in &scn.ops {
        if let (true, Expect::Unknown) = (healthy, expect(scn, &w.infos[op.meta()], op)) {
            st.probe("not decided by the reference decoder");
            continue;
        }
        if !healthy {
            // reads needed by a damaged table are not known in advance
            w.mem.lock().budget = 2_000_000;
        }
        let (base, trace) = w.exec_traced(op);
        let base_errors = w.mem.lock().take_errors();
        st.exec(&w, op, &base, !base_errors.is_empty());
        st.checks += 1;
        if base.panicked().is_some() && healthy {
            st.probe("fault-free run panics");
            continue;
        }
        if !healthy {
            if base_errors.contains(&SimErr::Budget) {
                continue;
            }
            if let Some((what, msg)) = judge(&base, &base, &base_errors) {
                return violation(format!("{}: {what}", op.name()), msg);
            }
        }
        let n = trace.len() as u32;
        if n == 0 {
            continue;
        }
        let mut plans: Vec<Vec<PFault>> = vec![];
        if scn.plan.sweep {
            let x = scn.plan.nums.first().copied().unwrap_or(0);
            let mut r = Rng::new(x);
            let cap = 250;
            let step = (n as f64 / cap as f64).max(1.0);
            let mut k = 0.0;
            while (k as u32) < n {
                let at = (k as u32 + if step > 1.0 { r.below(step as u64) as u32 } else { 0 }).min(n - 1);
                let count = *r.pick(&[1u32, 1, 1, 1, 2, 3, u32::MAX]);
                plans.push(vec![PFault::Reads { at, count, code: r.below(1_000_000) as u32 }]);
                k += step;
            }
        } else {
            plans.push(scn.plan.faults.clone());
        }
        for p in plans {
            let f: Vec<Fault> = fit(&w.faults(&p), n);
            let (o, errors) = w.exec_faulty(op, &f);
            st.exec(&w, op, &o, !errors.is_empty());
            st.checks += 1;
            if !errors.is_empty() {
                st.probe(&format!("failure inside {}", op.name()));
            }
            if errors.contains(&SimErr::Budget) {
                continue;
            }
            if let Some((what, msg)) = judge(&base, &o, &errors) {
                let class = format!("{}: {what}", op.name());
                let narrow = narrowed(scn, op.clone(), Plan { faults: p, ..Default::default() });
                return Err(Violation { class, msg, narrow });
            }
        }
    }
    Ok(())
}
