//! C05: a truncated record is never accepted.
use super::common::*;
use super::Prop;
use crate::ops::*;
use crate::prng::Rng;

pub const PROP: Prop = Prop {
    id: "C05",
    gen,
    run,
    quick: 16_000,
    thorough: 300_000,
    chunk: 256,
    rule: "One evaluation is one run of one whole-record operation. Each accepted record is cut short at every byte \
           (records over 300 bytes: at both ends and at seeded places), which is what remains of a record when its \
           last bytes were lost in writing; the bytes after the cut stay on the device. Non-trivial: the complete \
           record was accepted and the cut one was tried; distinct by all reads made and the outcome.",
};

fn gen(r: Rng, index: u64) -> Scenario {
    let mut b = Build::new("C05", r);
    let m = b.meta(index, MetaOpts { real: 10, flash: 80, depth: 3 });
    for _ in 0..b.r.range(1, 2) {
        let kind = WHOLE_KINDS[b.r.weighted(&[6, 5, 4, 4, 5, 4, 4])];
        let op = b.record(m, kind);
        b.scn.ops.push(op);
    }
    b.scn.plan.sweep = true;
    let v = b.r.u64();
    b.scn.plan.nums.push(v);
    b.finish()
}

fn run(scn: &Scenario, st: &mut Stats) -> Result<(), Violation> {
    let mut w = scn.world();
    let ram = scn.ram();
    note_metas(scn, st);
    let mut r = Rng::new(scn.plan.nums.first().copied().unwrap_or(0));
    for op in &scn.ops {
        let base = w.exec(op);
        st.exec(&w, op, &base, false);
        if !base.full() {
            st.probe("complete record not accepted");
            continue;
        }
        st.probe(&format!("accepted {}", op.name()));
        for (which, i) in op.blobs().into_iter().enumerate() {
            let n = scn.blobs[i].len();
            let cuts: Vec<usize> = if !scn.plan.sweep {
                scn.plan.cuts.iter().filter(|c| **c as usize >> 24 == which).map(|c| *c as usize & 0xff_ffff).collect()
            } else if n <= 300 {
                (0..n).collect()
            } else {
                let mut c: Vec<usize> = (0..60).chain(n - 60..n).collect();
                c.extend((0..120).map(|_| r.usize(n)));
                c
            };
            for cut in cuts {
                if cut >= n {
                    continue;
                }
                w.blobs[i].len = cut;
                let o = w.exec(op);
                w.blobs[i].len = n;
                st.exec(&w, op, &o, true);
                st.checks += 1;
                let mut bad = check(&o, "on the device");
                if bad.is_none() && cut % 8 == 0 {
                    let blobs: Vec<&[u8]> =
                        scn.blobs.iter().enumerate().map(|(k, b)| if k == i { &b[..cut] } else { &b[..] }).collect();
                    let o = ram.exec(&blobs, op);
                    st.checks += 1;
                    bad = check(&o, "in memory");
                }
                if let Some((what, msg)) = bad {
                    let plan = Plan { cuts: vec![(which << 24 | cut) as u32], ..Default::default() };
                    return Err(Violation {
                        class: format!("{}: {what}", op.name()),
                        msg: format!("record of {n} bytes cut at {cut}: {msg}"),
                        narrow: narrowed(scn, op.clone(), plan),
                    });
                }
            }
        }
    }
    Ok(())
}

fn check(o: &Outcome, place: &str) -> Option<(&'static str, String)> {
    if let Some(m) = o.panicked() {
        return Some(("panic", format!("{place}: {m}")));
    }
    o.ok().then(|| ("truncated record accepted", format!("{place}: {}", brief(o))))
}
