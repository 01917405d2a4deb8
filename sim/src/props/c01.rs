//! C01: decoding is exact, wherever data and type table live.
use super::common::*;
use super::Prop;
use crate::gen;
use crate::meta::MetaSpec;
use crate::ops::*;
use crate::oracle::{expect, Expect};
use crate::prng::Rng;

pub const PROP: Prop = Prop {
    id: "C01",
    gen,
    run,
    quick: 150_000,
    thorough: 3_000_000,
    chunk: 1024,
    rule: "One evaluation is one run of one operation on the simulated device. A run takes a chain (synthetic type \
           table, or metadata of an existing chain), puts one to three valid records on the device, damages \
           about a third of them, decodes them with slow reads injected, with the type table on the device or in \
           memory, and again without the device, and compares with the reference decoder. Non-trivial: the \
           reference decoder decided the case (value or refusal) and at least one read was made; distinct by all \
           reads made and the outcome.",
};

const KINDS: [Kind; 9] = [
    Kind::TypedAt,
    Kind::TypedAll,
    Kind::CallUnmarked,
    Kind::ExtsUnmarked,
    Kind::Tx,
    Kind::TxUnmarked,
    Kind::Extrinsic,
    Kind::Storage,
    Kind::Key,
];

fn gen(r: Rng, index: u64) -> Scenario {
    let mut b = Build::new("C01", r);
    let o = MetaOpts { real: 15, flash: 65, depth: 4 };
    if b.r.pct(8) {
        return odd(b, index, o);
    }
    let m = b.meta(index, o);
    for _ in 0..b.r.range(1, 3) {
        let kind = KINDS[b.r.weighted(&[10, 6, 3, 3, 2, 1, 2, 2, 1])];
        let op = b.record(m, kind);
        if b.r.pct(35) {
            let blobs = op.blobs();
            let i = *b.r.pick(&blobs);
            let n = b.scn.blobs[i].len();
            for _ in 0..b.r.weighted(&[0, 6, 2, 1]) {
                rand_mut(&mut b.r, n).apply(&mut b.scn.blobs[i]);
            }
        } else if b.r.pct(5) {
            let i = op.blobs()[0];
            let n = b.r.below(64) as usize;
            b.scn.blobs[i] = b.r.bytes(n);
        }
        b.scn.ops.push(op);
    }
    b.scn.plan.faults = slow_faults(&mut b.r);
    b.finish()
}

/// Descriptions that are no types (a compact of something that is no number, a
/// bit sequence of unknown order or store, a reference to nothing), alone and as
/// parts of others, with any bytes.
fn odd(mut b: Build, index: u64, o: MetaOpts) -> Scenario {
    let mut r = b.r.fork();
    let (mut spec, mut direct) = pick_meta(&mut r, index, MetaOpts { real: 0, ..o });
    if let MetaSpec::Synth(s) = &mut spec {
        let before = s.types.len();
        let mut own = gen::odd_types(&mut s.types, &mut r);
        for _ in 0..20 {
            if !zero_size_hazard(&s.types) {
                break;
            }
            s.types.truncate(before);
            own = gen::odd_types(&mut s.types, &mut r);
        }
        if zero_size_hazard(&s.types) {
            s.types.truncate(before);
            own = direct.clone();
        }
        direct.extend(own.iter().copied());
        let m = b.add_meta(spec, direct);
        for _ in 0..b.r.range(1, 3) {
            let ty = *b.r.pick(&own);
            let mut v = Vec::new();
            if b.codecs[0].possible(ty) && b.r.pct(60) {
                v = b.value(m, ty);
            }
            // room for what the part would be if it were taken for something else
            let most = *b.r.pick(&[30u64, 30, 120]);
            for _ in 0..b.r.below(most) {
                let x = match b.r.below(4) {
                    0 => 0,
                    1 => b.r.below(4) as u8,
                    2 => 4 * b.r.below(4) as u8,
                    _ => b.r.u64() as u8,
                };
                v.push(x);
            }
            let blob = b.blob(v);
            let all = b.r.pct(15);
            b.scn.ops.push(Op::Typed { meta: m, blob, ty, pos: 0, all });
        }
    }
    b.scn.plan.faults = slow_faults(&mut b.r);
    b.finish()
}

fn run(scn: &Scenario, st: &mut Stats) -> Result<(), Violation> {
    let w = scn.world();
    let ram = scn.ram();
    let faults = w.faults(&scn.plan.faults);
    let blobs: Vec<&[u8]> = scn.blobs.iter().map(|b| &b[..]).collect();
    note_metas(scn, st);
    for op in &scn.ops {
        let e = expect(scn, &w.infos[op.meta()], op);
        match &e {
            Expect::Unknown => {
                st.probe("not decided by the reference decoder");
                continue;
            }
            Expect::Answer(_) => st.probe("valid record"),
            Expect::Refuse(_) => st.probe("record to be refused"),
            Expect::Surplus(_) => st.probe("extrinsic with inner surplus"),
        }
        let (o, _) = w.exec_faulty(op, &faults);
        let reads = w.mem.lock().reads;
        st.exec(&w, op, &o, reads > 0);
        st.checks += 1;
        if let Some((what, msg)) = e.against(&o) {
            return violation(format!("{}: {what}", op.name()), format!("on the device: {msg}"));
        }
        let o2 = ram.exec(&blobs, op);
        st.checks += 1;
        if let Some((what, msg)) = e.against(&o2) {
            return violation(format!("{}: {what}", op.name()), format!("in memory: {msg}"));
        }
    }
    Ok(())
}
