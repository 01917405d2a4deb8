//! C12: the extrinsic envelope is checked before its content is trusted.
use super::common::*;
use super::Prop;
use crate::gen::{self, chain, put_compact, ChainOpts};
use crate::mem::Fault;
use crate::meta::*;
use crate::model::read_compact;
use crate::ops::*;
use crate::oracle::{equal, expect_on, Expect};
use crate::prng::Rng;
use scale_info::TypeParameter;
use substrate_parser::unchecked_extrinsic::UncheckedExtrinsic;

pub const PROP: Prop = Prop {
    id: "C12",
    gen,
    run,
    quick: 1_800,
    thorough: 100_000,
    chunk: 128,
    rule: "One evaluation is one run of decode_as_unchecked_extrinsic. Each valid extrinsic (signed or not, of chains \
           with any extrinsic version, with parts that differ in type and content) is tried with all 256 version \
           bytes, with every declared length near the true one and in every compact form, with its length bytes \
           damaged, cut and extended with and without the length following suit, with parts exchanged or of another \
           record, with damage inside of parts, with failing reads, and with the version byte rewritten while \
           decoding is in progress. Non-trivial: the record differs from the valid one or a failure fired; distinct \
           by all reads made and the outcome.",
};

fn gen(r: Rng, index: u64) -> Scenario {
    let mut b = Build::new("C12", r);
    let m = if b.r.pct(12) {
        b.meta(index, MetaOpts { real: 100, flash: 60, depth: 2 })
    } else {
        let form = *b.r.pick(&[FORM_FLASH, FORM_FLASH, FORM_V14, FORM_V15]);
        let (mut s, d) = chain(&mut b.r, ChainOpts { depth: 2, form, cap: 25 });
        if b.r.pct(60) {
            s.tx_version = *b.r.pick(&[0u8, 1, 2, 3, 5, 0x3f, 0x40, 0x7e, 0x7f]);
        }
        if b.r.pct(5) {
            // no extrinsic can be of this version
            s.tx_version |= 0x80;
        }
        // parameters are told apart by name only
        let t = s.extrinsic_ty as usize;
        for i in 0..s.types[t].type_params.len() {
            let j = b.r.usize(i + 1);
            s.types[t].type_params.swap(i, j);
        }
        if b.r.pct(30) {
            let ty = b.r.pct(50).then_some(sym(s.call_ty));
            let at = b.r.usize(s.types[t].type_params.len() + 1);
            let name = b.r.pick(&["Block", "address", "", "CallX", "SignedExtra"]).to_string();
            s.types[t].type_params.insert(at, TypeParameter { name, ty });
        }
        if form == FORM_V14 && b.r.pct(30) {
            super::c14::another_extrinsic(&mut s, &mut b.r);
        }
        if b.r.pct(20) {
            // address and signature of the same type, told apart by place only
            s.signature_ty = s.address_ty;
            for p in &mut s.types[t].type_params {
                if p.name == "Signature" {
                    p.ty = Some(sym(s.address_ty));
                }
            }
        }
        b.add_meta(MetaSpec::Synth(s), d)
    };
    for _ in 0..b.r.range(1, 2) {
        let signed = b.r.pct(65);
        let x = if matches!(b.record(m, Kind::Extrinsic), Op::Extrinsic { .. }) {
            let c = b.codecs[m as usize].clone();
            let info = b.infos[m as usize].clone();
            gen::extrinsic(&c, &info, &mut b.r, signed)
        } else {
            continue;
        };
        let blob = b.blob(x.record());
        b.scn.ops.push(Op::Extrinsic { meta: m, blob });
        // parts, for exchanging them
        let first = b.scn.blobs.len() as u64;
        b.scn.plan.nums.push(first);
        for p in [x.address, x.signature, x.extra, x.call] {
            b.blob(p);
        }
    }
    let v = b.r.u64();
    b.scn.plan.nums.push(v);
    b.scn.plan.sweep = true;
    b.finish()
}

fn framed(body: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    put_compact(body.len() as u128, &mut out);
    out.extend_from_slice(body);
    out
}

/// All ways to write a length, fitting or not.
fn lengths(n: u32) -> Vec<Vec<u8>> {
    let mut out = vec![];
    if n < 64 {
        out.push(vec![(n << 2) as u8]);
    }
    if n < 1 << 14 {
        out.push(((n << 2 | 1) as u16).to_le_bytes().to_vec());
    }
    if n < 1 << 30 {
        out.push((n << 2 | 2).to_le_bytes().to_vec());
    }
    out.push([&[3][..], &n.to_le_bytes()].concat());
    out.push([&[7][..], &n.to_le_bytes(), &[0]].concat());
    out.push([&[19][..], &(n as u64).to_le_bytes()].concat());
    out
}

fn cases(rec: &[u8], parts: &[&[u8]], r: &mut Rng) -> Vec<(&'static str, Vec<u8>)> {
    let mut out: Vec<(&'static str, Vec<u8>)> = vec![];
    let mut p = 0;
    let Ok(n) = read_compact(rec, &mut p, 4) else { return out };
    let n = n as u32;
    let body = &rec[p..];
    for v in 0..=255u8 {
        let mut x = rec.to_vec();
        x[p] = v;
        out.push(("version byte", x));
    }
    for d in -6i64..=6 {
        let m = n as i64 + d;
        if m >= 0 {
            for l in lengths(m as u32) {
                out.push(("declared length", [&l[..], body].concat()));
            }
        }
    }
    for m in [0, 1, n / 2, n * 2, n << 8, n >> 8, n | 1 << 29, u32::MAX, u32::MAX - 1, 1 << 31, n.swap_bytes()] {
        for l in lengths(m) {
            out.push(("declared length", [&l[..], body].concat()));
        }
    }
    for bit in 0..8 * p {
        let mut x = rec.to_vec();
        x[bit / 8] ^= 1 << (bit % 8);
        out.push(("length bit", x));
    }
    for k in 1..=body.len().min(12) {
        out.push(("cut", rec[..rec.len() - k].to_vec()));
        out.push(("cut, length following", framed(&body[..body.len() - k])));
    }
    for k in [1usize, 2, 3, 4, 8, 33, 64, 100] {
        let j = r.bytes(k);
        out.push(("extended", [rec, &j].concat()));
    }
    // the top bit decides alone, whatever follows would suggest otherwise
    if let [address, signature, extra, call] = parts {
        let v = rec[p];
        let mut mix = |what, list: &[&[u8]]| {
            for v in [v, v ^ 0x80] {
                out.push((what, framed(&[&[v][..], &list.concat()].concat())));
            }
        };
        mix("unsigned body", &[call]);
        mix("signed body", &[address, signature, extra, call]);
        mix("parts exchanged", &[signature, address, extra, call]);
        mix("parts exchanged", &[address, extra, signature, call]);
        mix("parts exchanged", &[address, signature, call, extra]);
        mix("parts exchanged", &[call, address, signature, extra]);
        mix("part missing", &[signature, extra, call]);
        mix("part missing", &[address, extra, call]);
        mix("part missing", &[address, signature, call]);
        mix("part missing", &[address, signature, extra]);
        mix("part doubled", &[address, address, signature, extra, call]);
        mix("part doubled", &[address, signature, extra, extra, call]);
        mix("empty", &[]);
    }
    for _ in 0..40 {
        let mut x = body.to_vec();
        for _ in 0..r.range(1, 2) {
            rand_mut(r, x.len()).apply(&mut x);
        }
        out.push(("damaged", framed(&x)));
    }
    out.push(("no bytes", vec![]));
    out
}

fn verdict(info: &MetaInfo, rec: &[u8], blobs: &[&[u8]], op: &Op, o: &Outcome) -> Option<(&'static str, String)> {
    if let Some(m) = o.panicked() {
        return Some(("panic", m.to_string()));
    }
    if let Outcome::Done { val: Val::Xt(x), .. } = o {
        let mut p = 0;
        let n = read_compact(rec, &mut p, 4).ok();
        if n != Some((rec.len() - p) as u128) {
            return Some(("wrong declared length accepted", brief(o)));
        }
        let v = rec.get(p).copied().unwrap_or(0);
        if v & 0x7f != info.tx_version {
            return Some(("wrong extrinsic version accepted", brief(o)));
        }
        if (v & 0x80 != 0) != matches!(**x, UncheckedExtrinsic::Signed { .. }) {
            return Some(("signed taken for unsigned or the reverse", brief(o)));
        }
    }
    expect_on(blobs, info, op).against(o)
}

fn run(scn: &Scenario, st: &mut Stats) -> Result<(), Violation> {
    let mut w = scn.world();
    let ram = scn.ram();
    note_metas(scn, st);
    let nums = &scn.plan.nums;
    let mut r = Rng::new(nums.last().copied().unwrap_or(0));
    for (k, op) in scn.ops.iter().enumerate() {
        let info = w.infos[op.meta()].clone();
        let i = op.blobs()[0];
        let own: Vec<&[u8]> = scn.blobs.iter().map(|b| &b[..]).collect();
        let (base, trace) = w.exec_traced(op);
        st.exec(&w, op, &base, false);
        if base.ok() {
            st.probe("valid extrinsic");
        }
        let narrow = |rec: &[u8], plan: Plan| {
            narrowed(scn, op.clone(), plan).map(|mut s| {
                s.blobs[i] = rec.to_vec();
                s
            })
        };
        let err = |what: &str, msg: String, n: Option<Scenario>| {
            Err(Violation { class: format!("{}: {what}", op.name()), msg, narrow: n })
        };
        for (place, o) in [("on the device", &base), ("in memory", &ram.exec(&own, op))] {
            st.checks += 1;
            if let Some((what, msg)) = verdict(&info, own[i], &own, op, o) {
                return err(what, format!("{place}: {msg}"), narrow(own[i], Plan::default()));
            }
        }
        if scn.plan.sweep {
            let first = nums.get(k).copied().unwrap_or(0) as usize;
            let parts: Vec<&[u8]> = own.get(first..first + 4).map(|x| x.to_vec()).unwrap_or_default();
            for (n, (what, rec)) in cases(own[i], &parts, &mut r).into_iter().enumerate() {
                let mut blobs = own.clone();
                blobs[i] = &rec;
                w.put_blob(i, &rec);
                let o = w.exec(op);
                st.exec(&w, op, &o, rec != own[i]);
                w.reset();
                let mut outs = vec![("on the device", o)];
                if n % 8 == 0 {
                    outs.push(("in memory", ram.exec(&blobs, op)));
                }
                for (place, o) in outs {
                    st.checks += 1;
                    if let Some((bad, msg)) = verdict(&info, &rec, &blobs, op, &o) {
                        return err(bad, format!("{what}, {place}: {msg}"), narrow(&rec, Plan::default()));
                    }
                    if n % 8 != 0 || place == "in memory" {
                        st.probe(what);
                    }
                }
            }
        }
        // the version byte changes while decoding: the answer is the one before or after
        let mut p = 0;
        let _ = read_compact(own[i], &mut p, 4);
        let mut plans: Vec<PFault> = scn.plan.faults.clone();
        if scn.plan.sweep && p < own[i].len() {
            for _ in 0..6 {
                let at = r.below(trace.len().max(1) as u64) as u32;
                let v = if r.pct(50) { own[i][p] ^ 0x80 } else { r.u64() as u8 };
                plans.push(PFault::Rewrite { at, place: Place::Blob(i as u8), off: p as u32, bytes: vec![v] });
            }
            for _ in 0..4 {
                plans.extend(rand_read_faults(&mut r));
            }
        }
        for f in plans {
            let fs: Vec<Fault> = fit(&w.faults(std::slice::from_ref(&f)), trace.len() as u32);
            let (o, _) = w.exec_faulty(op, &fs);
            w.reset();
            st.exec(&w, op, &o, true);
            st.checks += 1;
            let bad = match &f {
                PFault::Rewrite { bytes, .. } => {
                    let mut x = own[i].to_vec();
                    if p >= x.len() || bytes.len() != 1 {
                        continue;
                    }
                    x[p] = bytes[0];
                    let mut blobs = own.clone();
                    blobs[i] = &x;
                    let fits = |e: &Expect| e.against(&o).is_none();
                    !fits(&expect_on(&own, &info, op)) && !fits(&expect_on(&blobs, &info, op))
                }
                _ => o.ok() && !equal(&base, &o),
            };
            if bad || o.panicked().is_some() {
                let plan = Plan { faults: vec![f.clone()], ..Default::default() };
                let msg = format!("with {f:?}: was {}, became {}", brief(&base), brief(&o));
                return err("answer of neither version byte", msg, narrow(own[i], plan));
            }
        }
    }
    Ok(())
}

