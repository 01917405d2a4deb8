//! C08: wrong chain or wrong metadata version is never accepted.
use super::common::*;
use super::Prop;
use crate::gen::{self, chain, exts_bytes, put_compact, rand_era, ChainOpts, TxSays};
use crate::mem::Fault;
use crate::meta::*;
use crate::model;
use crate::ops::*;
use crate::oracle::expect;
use crate::prng::Rng;
use scale_info::{TypeDef, TypeDefPrimitive as Prim};

pub const PROP: Prop = Prop {
    id: "C08",
    gen,
    run,
    quick: 140_000,
    thorough: 2_000_000,
    chunk: 512,
    rule: "One evaluation is one run of one operation on a transaction that says something about its chain: version, \
           genesis hash, block hash and era right or nearly right (a bit, one more or less, other width), extension \
           lists with checked items doubled, missing, renamed, swapped, or wrapped, version records missing, doubled, \
           cut, extended, retyped, or between decoys, metadata sources failing to give it; all with seeded read \
           failures and bytes changing while being read in a part of the runs. Non-trivial: the extensions were \
           decodable, so that the checks decided; distinct by all reads made and the outcome.",
};

const UNTRUE: u64 = 0;
const TRUE: u64 = 1;
const OPEN: u64 = 2;

fn width_of(types: &[Ty], id: u32) -> Option<u32> {
    Some(match &types.get(id as usize)?.type_def {
        TypeDef::Primitive(Prim::U8) => 1,
        TypeDef::Primitive(Prim::U16) => 2,
        TypeDef::Primitive(Prim::U32) => 4,
        TypeDef::Primitive(Prim::U64) => 8,
        TypeDef::Primitive(Prim::U128) => 16,
        TypeDef::Composite(c) if c.fields.len() == 1 => width_of(types, c.fields[0].ty.id)?,
        TypeDef::Compact(c) => width_of(types, c.type_param.id)?,
        _ => return None,
    })
}

/// Change the list of extensions; true if only the model knows the outcome.
fn disturb_exts(s: &mut Synth, r: &mut Rng) -> bool {
    let checked: Vec<usize> = (0..s.exts.len())
        .filter(|i| matches!(&s.exts[*i].0[..], "CheckSpecVersion" | "CheckGenesis" | "CheckMortality"))
        .collect();
    if checked.is_empty() {
        return true;
    }
    let i = *r.pick(&checked);
    match r.below(7) {
        0 | 1 => {
            let mut e = s.exts[i].clone();
            if r.pct(30) {
                // once more under another name: not counted
                e.0.push('X');
            }
            let at = r.usize(s.exts.len() + 1);
            s.exts.insert(at, e);
        }
        2 => {
            s.exts.remove(i);
        }
        3 => {
            // inside of something larger: not looked into
            let (ty, unit) = (s.exts[i].2, s.exts[i].1);
            s.types.push(Ty {
                path: gen::path(&["wrap", "Two"]),
                type_params: vec![],
                type_def: scale_info::TypeDefComposite {
                    fields: vec![gen::field(Some("a"), ty, None), gen::field(Some("b"), unit, None)],
                }
                .into(),
                docs: vec![],
            });
            s.exts[i].2 = s.types.len() as u32 - 1;
        }
        4 => {
            s.types.push(Ty {
                path: gen::path(&["wrap", "One"]),
                type_params: vec![],
                type_def: scale_info::TypeDefComposite { fields: vec![gen::field(None, s.exts[i].2, None)] }.into(),
                docs: vec![],
            });
            s.exts[i].2 = s.types.len() as u32 - 1;
        }
        5 => {
            // names swapped
            let j = r.usize(s.exts.len());
            let n = s.exts[i].0.clone();
            s.exts[i].0 = s.exts[j].0.clone();
            s.exts[j].0 = n;
        }
        _ => s.exts[i].0 = r.pick(&["CheckSpecVersionX", "checkgenesis", "", "CheckTxVersion", "CheckNonce"]).to_string(),
    }
    true
}

pub fn disturb_version(s: &mut Synth, r: &mut Rng) {
    let Some((value, ty)) = &mut s.version_const else { return };
    let rv = *ty as usize;
    match r.below(12) {
        0 => s.version_const = None,
        1 => s.pallets = P_NO_SYSTEM,
        2 => {
            let n = r.range(1, 4) as usize;
            value.truncate(value.len().saturating_sub(n));
        }
        3 => {
            let n = r.range(1, 4) as usize;
            let b = r.bytes(n);
            value.extend_from_slice(&b);
        }
        4 => {
            let n = value.len();
            rand_mut(r, n).apply(value);
        }
        5..=7 => {
            let n = s.types.len();
            if let TypeDef::Composite(c) = &mut s.types[rv].type_def {
                let n = c.fields.len();
                let i = r.usize(n);
                let j = r.usize(n);
                match r.below(5) {
                    0 => c.fields[i].name = c.fields[j].name.clone(),
                    1 => c.fields[i].name = None,
                    2 => c.fields[i].name = Some(r.pick(&["spec_version", "spec_name", "specVersion"]).to_string()),
                    3 => c.fields[i].ty = c.fields[j].ty,
                    _ => {
                        c.fields.remove(i);
                    }
                }
            }
            let _ = n;
        }
        8 => {
            // a tuple instead of a structure
            if let TypeDef::Composite(c) = &s.types[rv].type_def {
                let fields = c.fields.iter().map(|f| f.ty).collect();
                s.types[rv].type_def = scale_info::TypeDefTuple { fields }.into();
            }
        }
        9 => *ty = r.below(s.types.len() as u64 + 3) as u32,
        10 => {
            // the whole record wrapped once more
            s.types.push(Ty {
                path: gen::path(&["wrap", "Version"]),
                type_params: vec![],
                type_def: scale_info::TypeDefComposite { fields: vec![gen::field(None, *ty, None)] }.into(),
                docs: vec![],
            });
            *ty = s.types.len() as u32 - 1;
        }
        _ => {
            let n = r.range(0, 40) as usize;
            *value = r.bytes(n);
        }
    }
}

fn gen(r: Rng, index: u64) -> Scenario {
    let mut b = Build::new("C08", r);
    let mut open = false;
    let m = if b.r.pct(12) {
        b.meta(index, MetaOpts { real: 100, flash: 50, depth: 1 })
    } else {
        let form = *b.r.pick(&[FORM_FLASH, FORM_FLASH, FORM_FLASH, FORM_V14, FORM_V15]);
        let (mut s, d) = chain(&mut b.r, ChainOpts { depth: 1, form, cap: 12 });
        if b.r.pct(35) {
            open = disturb_exts(&mut s, &mut b.r);
        }
        if form != FORM_FLASH {
            if b.r.pct(35) {
                open = true;
                disturb_version(&mut s, &mut b.r);
            } else if b.r.pct(50) {
                s.pallets = *b.r.pick(&[P_DECOYS, P_CONSTANTS]);
            }
        } else if b.r.pct(6) {
            b.scn.plan.meta_fails.push(MetaFail {
                which: Q_VERSION,
                from: 0,
                count: u32::MAX,
                code: b.r.below(1_000_000) as u32,
            });
        }
        b.add_meta(MetaSpec::Synth(s), d)
    };
    let info = b.infos[m as usize].clone();
    let codec = b.codecs[m as usize].clone();
    let right: u128 = info.spec_version.parse().unwrap_or(7);
    let mut truth = TRUE;
    for _ in 0..b.r.range(1, 2) {
        let r = &mut b.r;
        let version = match r.below(10) {
            0..=5 => right,
            6 => right.wrapping_add(1),
            7 => right.wrapping_sub(1),
            8 => right ^ (1 << r.below(32)),
            _ => *r.pick(&[0, right & 0xff, right & 0xffff, right.swap_bytes(), right << 8, right | 1 << 32, right.wrapping_mul(10)]),
        };
        let genesis: [u8; 32] = r.bytes(32).try_into().unwrap();
        let near = |r: &mut Rng, h: [u8; 32]| {
            let mut h = h;
            h[r.usize(32)] ^= 1 << r.below(8);
            h
        };
        let expected = match r.below(10) {
            0..=5 => Some(genesis),
            6 => None,
            7 => Some([0; 32]),
            _ => Some(near(r, genesis)),
        };
        let immortal = r.pct(60);
        let block = match r.below(10) {
            0..=5 => genesis,
            6..=7 => near(r, genesis),
            _ => r.bytes(32).try_into().unwrap(),
        };
        let era = rand_era(r, immortal);
        let mortality = info.exts.iter().any(|e| e.0 == "CheckMortality");
        let spec_ty = info.exts.iter().find(|e| e.0 == "CheckSpecVersion").map(|e| e.2);
        let width = spec_ty.and_then(|t| width_of(&info.types, t)).unwrap_or(0);
        let fits = width == 16 || (width > 0 && version < 1 << (8 * width));
        let gen_ok = expected.map(|g| g == genesis).unwrap_or(true);
        let block_ok = !mortality || !immortal || block == genesis;
        if open || !fits || !b.scn.plan.meta_fails.is_empty() {
            truth = OPEN;
        } else if version != right || !gen_ok || !block_ok {
            truth = UNTRUE;
        }
        let says = TxSays { spec_version: version, genesis, block, era };
        let (exts, _) = exts_bytes(&codec, &info, &says, &mut b.r);
        match model::decode_exts(&info.types, &info.exts, &exts, 0) {
            // a random extension may be a second version or hash by chance
            Ok(x) if !matches!(model::gate(&x, &info.spec_version, expected), Err(e) if e.contains("one ")) => (),
            _ => truth = OPEN,
        }
        let budget = *b.r.pick(&[20usize, 60]);
        let mut call = gen::call_bytes(&codec, &info, &mut b.r, budget);
        // calls that can not exist (of pallets without calls) are no transaction
        for k in 0.. {
            if model::decode_call(&info.types, info.call_ty, &call, 0).is_ok() {
                break;
            }
            if k == 30 {
                truth = OPEN;
                break;
            }
            call = gen::call_bytes(&codec, &info, &mut b.r, budget);
        }
        let mut head = vec![];
        put_compact(call.len() as u128, &mut head);
        let marked = [&head[..], &call, &exts].concat();
        let unmarked = [&call[..], &exts].concat();
        let op = match b.r.below(4) {
            0 => Op::Tx { meta: m, blob: b.blob(marked), genesis: expected },
            1 => Op::TxUnmarked { meta: m, blob: b.blob(unmarked), genesis: expected },
            2 => {
                let blob = b.blob(marked);
                Op::Marked { meta: m, blob, steps: vec![Step::Exts(expected)] }
            }
            _ => Op::ExtsUnmarked { meta: m, pos: call.len() as u32, blob: b.blob(unmarked), genesis: expected },
        };
        b.scn.ops.push(op);
        b.scn.plan.nums.push(truth);
        truth = TRUE;
    }
    if b.r.pct(25) {
        let op = Op::Version { meta: m };
        b.scn.ops.push(op);
        b.scn.plan.nums.push(OPEN);
    }
    for _ in 0..b.r.below(3) {
        let n = b.scn.blobs.len() as u64;
        let at = b.r.below(1 << 16) as u32;
        let f = match b.r.below(4) {
            0 => rand_read_faults(&mut b.r).remove(0),
            1 => PFault::Flip { at, off: b.r.below(64) as u32, xor: 1 << b.r.below(8) },
            _ => {
                let k = b.r.range(1, 32) as usize;
                let bytes = b.r.bytes(k);
                PFault::Rewrite { at, place: Place::Blob(b.r.below(n) as u8), off: b.r.u64() as u32, bytes }
            }
        };
        b.scn.plan.faults.push(f);
    }
    b.finish()
}

/// Extensions an outcome reports, each with the genesis hash expected.
fn reported<'a>(
    op: &Op,
    o: &'a Outcome,
    out: &mut Vec<(&'a Vec<substrate_parser::cards::ExtendedData>, Option<[u8; 32]>)>,
) {
    match (op, o) {
        (Op::Tx { genesis, .. }, Outcome::Done { val: Val::Tx { exts, .. }, .. })
        | (Op::TxUnmarked { genesis, .. }, Outcome::Done { val: Val::TxUnmarked { exts, .. }, .. })
        | (Op::ExtsUnmarked { genesis, .. }, Outcome::Done { val: Val::Exts(exts), .. }) => out.push((exts, *genesis)),
        (Op::Marked { steps, .. }, Outcome::Done { val: Val::Many(v), .. }) => {
            for (s, o) in steps.iter().zip(v) {
                if let (Step::Exts(g), Outcome::Done { val: Val::Exts(exts), .. }) = (s, o) {
                    out.push((exts, *g));
                }
            }
        }
        _ => (),
    }
}

fn run(scn: &Scenario, st: &mut Stats) -> Result<(), Violation> {
    let mut w = scn.world();
    let ram = scn.ram();
    note_metas(scn, st);
    let blobs: Vec<&[u8]> = scn.blobs.iter().map(|b| &b[..]).collect();
    let failing = !scn.plan.meta_fails.is_empty();
    for (k, op) in scn.ops.iter().enumerate() {
        let truth = scn.plan.nums.get(k).copied().unwrap_or(OPEN);
        let info = w.infos[op.meta()].clone();
        let e = expect(scn, &info, op);
        let accepts = |o: &Outcome| match o {
            Outcome::Done { val: Val::Many(v), .. } => v.iter().all(|o| o.ok()),
            o => o.ok(),
        };
        let fail = |what: &str, msg: String, plan: Plan| {
            let class = format!("{}: {what}", op.name());
            Err(Violation { class, msg, narrow: narrowed(scn, op.clone(), plan) })
        };
        let own = Plan { nums: vec![truth], meta_fails: scn.plan.meta_fails.clone(), ..Default::default() };
        if let Some(m) = w.sim_meta(op.meta()) {
            m.set_fails(&scn.plan.meta_fails);
        }
        let (base, trace) = w.exec_traced(op);
        let fired = w.sim_meta(op.meta()).map(|m| m.fired.swap(0, std::sync::atomic::Ordering::SeqCst)).unwrap_or(0);
        st.meta_fired += fired as u64;
        let mut outs = vec![("on the device", base)];
        if !failing {
            outs.push(("in memory", ram.exec(&blobs, op)));
        }
        for (place, o) in &outs {
            st.checks += 1;
            if let Some(m) = o.panicked() {
                return fail("panic", format!("{place}: {m}"), own);
            }
            let bad = match truth {
                TRUE if !accepts(o) => Some("right chain and version refused"),
                UNTRUE if accepts(o) => Some("wrong chain or version accepted"),
                _ => None,
            };
            if let Some(what) = bad {
                return fail(what, format!("{place}: {}", brief(o)), own);
            }
            if failing {
                if fired > 0 && accepts(o) {
                    return fail("accepted without a version record", format!("{place}: {}", brief(o)), own);
                }
            } else if let Some((what, msg)) = e.against(o) {
                return fail(what, format!("{place}: {msg}"), own);
            }
        }
        let base = &outs[0].1;
        st.exec(&w, op, base, truth != OPEN || e.accepts() || failing);
        st.probe(match (truth, accepts(base)) {
            (TRUE, _) => "right chain and version",
            (UNTRUE, _) => "wrong chain or version",
            (_, true) => "unusual, accepted",
            (_, false) => "unusual, refused",
        });
        // whatever happens to the bytes: what is reported has passed the checks
        for f in &scn.plan.faults {
            let fs: Vec<Fault> = fit(&w.faults(std::slice::from_ref(f)), trace.len() as u32);
            let (o, _) = w.exec_faulty(op, &fs);
            w.reset();
            st.exec(&w, op, &o, o.ok());
            st.checks += 1;
            let plan = Plan { faults: vec![f.clone()], ..own.clone() };
            if let Some(m) = o.panicked() {
                return fail("panic", m.to_string(), plan);
            }
            let mut got = vec![];
            reported(op, &o, &mut got);
            for (exts, genesis) in got {
                if let Err(why) = model::gate(exts, &info.spec_version, genesis) {
                    return fail("wrong chain or version accepted", format!("{why}: {}", brief(&o)), plan);
                }
            }
        }
    }
    Ok(())
}
