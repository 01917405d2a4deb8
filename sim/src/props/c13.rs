//! C13: decoding depends on the item's own bytes only.
use super::common::*;
use super::Prop;
use crate::mem::{Fault, FAR};
use crate::ops::*;
use crate::oracle::expect;
use crate::prng::Rng;

pub const PROP: Prop = Prop {
    id: "C13",
    gen,
    run,
    quick: 40_000,
    thorough: 400_000,
    chunk: 256,
    rule: "One evaluation is one run of one operation on an item with other bytes before and after it, in the same \
           record and elsewhere on the device. The bytes around are erased, replaced, made unreadable, and rewritten \
           while decoding is in progress; the item is moved, and put at the very end of its record; several items in \
           a row are decoded one after another and each alone. Non-trivial: bytes around the item were changed or \
           unreadable; distinct by all reads made, the outcome and the end position.",
};

fn gen(r: Rng, index: u64) -> Scenario {
    let mut b = Build::new("C13", r);
    let m = b.meta(index, MetaOpts { real: 10, flash: 75, depth: 3 });
    match b.r.below(10) {
        0..=4 => {
            let op = b.record(m, Kind::TypedAt);
            b.scn.ops.push(op);
        }
        5 => {
            // call with something before and after
            let t = b.tx(m);
            let before = b.r.below(40) as usize;
            let rec = [&b.r.bytes(before)[..], &t.unmarked()].concat();
            let blob = b.blob(rec);
            b.scn.ops.push(Op::CallUnmarked { meta: m, blob, pos: before as u32 });
        }
        6 => {
            let op = b.record(m, Kind::ExtsUnmarked);
            b.scn.ops.push(op);
        }
        7 => {
            // bare key after a prefix, or a whole record between others
            let kind = *b.r.pick(&[Kind::Key, Kind::Key, Kind::Storage, Kind::Tx, Kind::Extrinsic, Kind::TypedAll]);
            let other = b.r.bytes(30);
            b.blob(other);
            let op = b.record(m, kind);
            b.scn.ops.push(op);
            let other = b.r.bytes(30);
            b.blob(other);
        }
        _ => {
            // items in a row
            let n = b.r.range(2, 6);
            let before = b.r.below(10) as usize;
            let mut rec = b.r.bytes(before);
            let mut ops = vec![];
            for _ in 0..n {
                let pos = rec.len() as u32;
                if b.r.pct(12) {
                    let t = b.tx(m);
                    rec.extend_from_slice(&t.call);
                    ops.push(Op::CallUnmarked { meta: m, blob: 0, pos });
                } else {
                    let ty = b.rand_type(m);
                    let v = b.value(m, ty);
                    rec.extend_from_slice(&v);
                    ops.push(Op::Typed { meta: m, blob: 0, ty, pos, all: false });
                }
                // where it ends
                b.scn.plan.cuts.push(rec.len() as u32);
            }
            let after = b.r.below(10) as usize;
            rec.extend(b.r.bytes(after));
            b.blob(rec);
            b.scn.ops = ops;
        }
    }
    // also items that are not valid
    if b.scn.plan.cuts.is_empty() && b.r.pct(20) {
        let i = b.scn.ops[0].blobs()[0];
        let n = b.scn.blobs[i].len();
        let m = rand_mut(&mut b.r, n);
        if !matches!(m, Mut::Truncate { .. } | Mut::Insert { .. } | Mut::Remove { .. }) {
            m.apply(&mut b.scn.blobs[i]);
        }
    }
    let v = b.r.u64();
    b.scn.plan.nums.push(v);
    b.scn.plan.sweep = true;
    b.finish()
}

/// Where in the record the item starts.
fn start(op: &Op) -> usize {
    match op {
        Op::Typed { pos, all: false, .. }
        | Op::CallUnmarked { pos, .. }
        | Op::ExtsUnmarked { pos, .. }
        | Op::Key { pos, .. } => *pos as usize,
        _ => 0,
    }
}

fn positional(op: &Op) -> bool {
    matches!(op, Op::Typed { all: false, .. } | Op::CallUnmarked { .. } | Op::ExtsUnmarked { .. } | Op::Key { .. })
}

fn moved(op: &Op, by: i64) -> Op {
    let mut op = op.clone();
    match &mut op {
        Op::Typed { pos, .. } | Op::CallUnmarked { pos, .. } | Op::ExtsUnmarked { pos, .. } | Op::Key { pos, .. } => {
            *pos = (*pos as i64 + by) as u32
        }
        _ => (),
    }
    op
}

/// Answers alike, `to` being found `by` bytes further on.
fn alike(from: &Outcome, to: &Outcome, by: i64) -> bool {
    match (from, to) {
        (Outcome::Done { val: a, end: e }, Outcome::Done { val: b, end: f }) => {
            a == b && e.map(|e| e as i64 + by) == f.map(|f| f as i64)
        }
        (Outcome::Fail(a), Outcome::Fail(b)) => by != 0 || a == b,
        _ => false,
    }
}

fn filler(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(4) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => vec![*r.pick(&[1u8, 2, 3, 4, 0x80, 0xfe]); n],
        _ => r.bytes(n),
    }
}

fn run(scn: &Scenario, st: &mut Stats) -> Result<(), Violation> {
    let mut w = scn.world();
    let ram = scn.ram();
    note_metas(scn, st);
    let blobs: Vec<&[u8]> = scn.blobs.iter().map(|b| &b[..]).collect();
    let mut r = Rng::new(scn.plan.nums.first().copied().unwrap_or(0));
    let err = |op: &Op, what: &str, msg: String, narrow: Option<Scenario>| {
        Err(Violation { class: format!("{}: {what}", op.name()), msg, narrow })
    };
    for (k, op) in scn.ops.iter().enumerate() {
        let (base, trace) = w.exec_traced(op);
        st.exec(&w, op, &base, false);
        st.checks += 1;
        if let Some(m) = base.panicked() {
            return err(op, "panic", m.into(), narrowed(scn, op.clone(), Plan::default()));
        }
        let i = op.blobs()[0];
        let rec = blobs[i];
        let s = start(op).min(rec.len());
        // position afterwards: start and length
        if let (Some(end), true) = (scn.plan.cuts.get(k), scn.plan.sweep) {
            st.probe("items in a row");
            let got = match &base {
                Outcome::Done { end: Some(e), .. } => Some(*e),
                _ => None,
            };
            let e = expect(scn, &w.infos[op.meta()], op);
            // calls that can not exist are refused
            if (e.accepts() || got.is_some()) && got != Some(*end as usize) {
                let msg = format!("item from {s} to {end}: {}", brief(&base));
                return err(op, "item does not end where its bytes end", msg, None);
            }
            if !base.ok() {
                st.probe("item that can not exist");
                continue;
            }
            // alone in its record
            let own = rec[s..*end as usize].to_vec();
            let by = -(s as i64);
            let alone = moved(op, by);
            w.put_blob(i, &own);
            let o = w.exec(&alone);
            st.exec(&w, &alone, &o, true);
            w.reset();
            st.checks += 1;
            if !alike(&base, &o, by) {
                let msg = format!("in a row {}, alone {}", brief(&base), brief(&o));
                return err(op, "answer depends on its neighbours", msg, None);
            }
        }
        // what is around: in the record, after the item only if it has an end
        let end = match &base {
            Outcome::Done { end: Some(e), .. } => *e,
            _ => rec.len(),
        };
        // position after it of a record that must be used up is its end
        let (b0, n) = w.place(Place::Blob(i as u8));
        let mut around: Vec<(usize, usize)> = vec![(b0, s), (b0 + end, n - end)];
        for g in 0..w.gaps.len() {
            around.push(w.place(Place::Gap(g as u8)));
        }
        for x in 0..scn.blobs.len() {
            if !op.blobs().contains(&x) {
                around.push(w.place(Place::Blob(x as u8)));
            }
        }
        around.retain(|x| x.1 > 0);
        let mut plans: Vec<Vec<Fault>> = vec![];
        let nums = &scn.plan.nums;
        if scn.plan.sweep {
            // all of it unreadable
            plans.push(
                around
                    .iter()
                    .enumerate()
                    .map(|(i, (s, n))| Fault::Range { start: *s as u32, len: *n as u32, code: i as u32 })
                    .collect(),
            );
            for _ in 0..10 {
                let at = r.below(trace.len().max(1) as u64) as u32;
                let mut p = vec![];
                for (s, n) in around.iter().filter(|_| true) {
                    if r.pct(70) {
                        p.push(Fault::Rewrite { at, start: *s as u32, bytes: filler(&mut r, *n) });
                    }
                }
                plans.push(p);
            }
        } else if nums.len() == 3 {
            // narrowed: one place rewritten
            let bytes: Vec<u8> = scn.plan.muts.iter().flat_map(|m| if let Mut::Append { bytes } = m { bytes.clone() } else { vec![] }).collect();
            plans.push(vec![Fault::Rewrite { at: nums[1] as u32, start: nums[2] as u32, bytes }]);
        } else {
            plans.push(
                around.iter().map(|(s, n)| Fault::Range { start: *s as u32, len: *n as u32, code: 1 }).collect(),
            );
        }
        for p in plans {
            let (o, _) = w.exec_faulty(op, &p);
            w.reset();
            st.exec(&w, op, &o, !p.is_empty());
            st.checks += 1;
            if !alike(&base, &o, 0) {
                let what = match &p[..] {
                    [Fault::Range { .. }, ..] => "bytes around the item were read",
                    _ => "bytes around the item changed the answer",
                };
                let plan = match p.iter().find(|f| {
                    let one = std::slice::from_ref(*f);
                    let (o, _) = w.exec_faulty(op, one);
                    w.reset();
                    !alike(&base, &o, 0)
                }) {
                    Some(Fault::Rewrite { at, start, bytes }) => Some(Plan {
                        nums: vec![0, *at as u64, *start as u64],
                        muts: vec![Mut::Append { bytes: bytes.clone() }],
                        ..Default::default()
                    }),
                    Some(_) => Some(Plan::default()),
                    None => None,
                };
                let msg = format!("item {s}..{end} of {n} bytes; was {}, became {}", brief(&base), brief(&o));
                return err(op, what, msg, plan.and_then(|p| narrowed(scn, op.clone(), p)));
            }
        }
        if !scn.plan.sweep {
            continue;
        }
        // far behind what can not be read
        if positional(op) && r.pct(40) {
            let by = match r.below(4) {
                0 => (1usize << *r.pick(&[8, 12, 16, 20, 24, 31, 33, 40])).saturating_sub(r.below(2) as usize),
                1 => (1 << 32) - s - r.below(40) as usize,
                2 => (1 << 32) - s + r.below(3) as usize,
                _ => (r.below(1 << 16) as usize) << 24,
            };
            FAR.with(|f| f.set(by));
            let o = w.exec(op);
            FAR.with(|f| f.set(0));
            st.exec(&w, op, &o, true);
            w.reset();
            st.checks += 1;
            st.probe("items at large addresses");
            // positions in errors are relative to the record
            if !alike(&base, &o, 0) && !matches!((&base, &o), (Outcome::Fail(_), Outcome::Fail(e)) if e.dev.is_none()) {
                let msg = format!("{by} bytes further on: was {}, became {}", brief(&base), brief(&o));
                return err(op, "answer depends on the address", msg, None);
            }
        }
        // other bytes around from the start, and the item moved
        let tail = end < n || matches!(&base, Outcome::Done { end: Some(_), .. }) && !op.whole();
        for c in 0..8 {
            let keep = c < 3 || s == 0 && start(op) == 0 && !matches!(op, Op::Typed { .. } | Op::CallUnmarked { .. });
            // storage keys of entries start after their prefix
            let nb = if keep || op.whole() && !matches!(op, Op::Key { .. } | Op::ExtsUnmarked { .. }) {
                s
            } else {
                r.below(70) as usize
            };
            let na = match (tail, c) {
                (false, _) => n - end,
                (_, 0) => n - end,
                (_, 1) => 0,
                _ => r.below(50) as usize,
            };
            let new = [&filler(&mut r, nb)[..], &rec[s..end], &filler(&mut r, na)].concat();
            if !base.ok() && (na != n - end || nb != s) {
                continue;
            }
            let by = nb as i64 - s as i64;
            let there = moved(op, by);
            w.put_blob(i, &new);
            let o = w.exec(&there);
            st.exec(&w, &there, &o, true);
            w.reset();
            let mut list = blobs.clone();
            list[i] = &new;
            for (place, o) in [("on the device", o), ("in memory", ram.exec(&list, &there))] {
                st.checks += 1;
                // positions in errors are relative to the record
                if !alike(&base, &o, by) {
                    let msg = format!("{place}, moved by {by}, {na} bytes after it: was {}, became {}", brief(&base), brief(&o));
                    return err(op, "answer depends on bytes around the item", msg, None);
                }
            }
        }
    }
    Ok(())
}
