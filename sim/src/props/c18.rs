//! C18: a 32-bit build without the standard library decodes alike.
use super::common::*;
use super::Prop;
use crate::gen::{chain, put_compact, ChainOpts};
use crate::meta::*;
use crate::narrow::{text, Ground, Way};
use crate::ops::*;
use crate::prng::Rng;
use parity_scale_codec::Encode;
use scale_info::{TypeDef, TypeDefBitSequence, TypeDefPrimitive as Prim, TypeDefSequence, TypeDefTuple};
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

pub const PROP: Prop = Prop {
    id: "C18",
    gen,
    run,
    quick: 60_000,
    thorough: 1_500_000,
    chunk: 512,
    rule: "One evaluation is one run of one operation on the host and the same run, with the same simulated device, in a \
           build for a 32-bit target without the standard library (wasm32, run by node); outcomes, positions, errors \
           and displayed text are compared. A run takes a chain, one to three records (half of them bit sequences of \
           all stores and orders, with zero words and lengths around the word sizes), damages about a third, and goes \
           through each on the device, in memory, and with each fault of its plan. Non-trivial: something was read \
           and both builds answered; distinct by all reads made and the outcome.",
};

const KINDS: [Kind; 11] = [
    Kind::TypedAt,
    Kind::TypedAll,
    Kind::CallUnmarked,
    Kind::ExtsUnmarked,
    Kind::Tx,
    Kind::TxUnmarked,
    Kind::Parts,
    Kind::Extrinsic,
    Kind::Storage,
    Kind::Key,
    Kind::Version,
];

const STORES: [Prim; 4] = [Prim::U8, Prim::U16, Prim::U32, Prim::U64];

fn plain(def: impl Into<TypeDef<scale_info::form::PortableForm>>, segments: &[&str]) -> Ty {
    Ty {
        path: scale_info::Path { segments: segments.iter().map(|s| s.to_string()).collect() },
        type_params: vec![],
        type_def: def.into(),
        docs: vec![],
    }
}

/// Bit sequence type in the table: its number, bytes of the store, order.
fn bit_type(s: &mut Synth, r: &mut Rng) -> (u32, usize, bool) {
    let k = r.weighted(&[1, 1, 2, 5]);
    let msb = r.pct(50);
    let mut add = |t: Ty| {
        s.types.push(t);
        s.types.len() as u32 - 1
    };
    let store = add(plain(STORES[k].clone(), &[]));
    let order = add(plain(
        scale_info::TypeDefComposite { fields: vec![] },
        &["bitvec", "order", if msb { "Msb0" } else { "Lsb0" }],
    ));
    let t = add(plain(TypeDefBitSequence { bit_store_type: sym(store), bit_order_type: sym(order) }, &[]));
    (t, 1 << k, msb)
}

fn bits(r: &mut Rng, store: usize, msb: bool) -> Vec<u8> {
    let n = match r.below(10) {
        0 => 0,
        1..=5 => *r.pick(&[1u64, 8, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 160, 192]),
        6..=8 => r.range(1, 200),
        _ => r.range(200, 5000),
    };
    let mut out = vec![];
    put_compact(n as u128, &mut out);
    let words = (n as usize).div_ceil(8 * store);
    let mut raw = r.bytes(words * store);
    for part in raw.chunks_mut(4) {
        match r.below(10) {
            0..=3 => part.fill(0),
            4 => part.fill(0xff),
            5 => part[0] = 0,
            _ => (),
        }
    }
    if r.pct(60) {
        for i in n as usize..words * 8 * store {
            let k = if msb { 8 * store - 1 - i % (8 * store) } else { i % (8 * store) };
            raw[i / (8 * store) * store + k / 8] &= !(1 << (k % 8));
        }
    }
    out.extend_from_slice(&raw);
    out
}

fn bits_record(b: &mut Build, m: u8) -> Option<Op> {
    let MetaSpec::Synth(s) = &mut b.scn.metas[m as usize] else { return None };
    let r = &mut b.r;
    let (t, store, msb) = bit_type(s, r);
    let (ty, value) = match r.below(5) {
        0..=2 => (t, bits(r, store, msb)),
        3 => {
            s.types.push(plain(TypeDefSequence { type_param: sym(t) }, &[]));
            let n = r.below(5);
            let mut v = vec![];
            put_compact(n as u128, &mut v);
            for _ in 0..n {
                v.extend(bits(r, store, msb));
            }
            (s.types.len() as u32 - 1, v)
        }
        _ => {
            let (t2, store2, msb2) = bit_type(s, r);
            s.types.push(plain(TypeDefTuple { fields: vec![sym(t), sym(t2), sym(t)] }, &[]));
            let mut v = bits(r, store, msb);
            v.extend(bits(r, store2, msb2));
            v.extend(bits(r, store, msb));
            (s.types.len() as u32 - 1, v)
        }
    };
    let all = r.pct(50);
    let (before, after) = if all { (0, 0) } else { (r.usize(20), r.usize(20)) };
    let mut rec = r.bytes(before);
    rec.extend(value);
    rec.extend(r.bytes(after));
    let info = b.scn.metas[m as usize].info();
    b.codecs[m as usize] = crate::gen::Codec::new(info.types.clone());
    b.infos[m as usize] = info;
    let blob = b.blob(rec);
    Some(Op::Typed { meta: m, blob, ty, pos: before as u32, all })
}

/// Lengths that come close to, or pass, what 32 bits address.
const LENGTHS: [&[u8]; 10] = [
    &[0x03, 0xff, 0xff, 0xff, 0xff],
    &[0x03, 0xfe, 0xff, 0xff, 0xff],
    &[0x03, 0xfb, 0xff, 0xff, 0xff],
    &[0x03, 0x00, 0x00, 0x00, 0x80],
    &[0x03, 0x00, 0x00, 0x00, 0x40],
    &[0x02, 0x00, 0x00, 0x80],
    &[0xfe, 0xff, 0xff, 0xff],
    &[0x07, 0x00, 0x00, 0x00, 0x00, 0x01],
    &[0x07, 0x05, 0x00, 0x00, 0x00, 0x01],
    &[0x13, 1, 0, 0, 0, 0, 0, 0, 1],
];

fn gen(r: Rng, index: u64) -> Scenario {
    let mut b = Build::new("C18", r);
    let m = if b.r.pct(7) {
        b.meta(index, MetaOpts { real: 100, flash: 50, depth: 2 })
    } else {
        let form = *b.r.pick(&[FORM_FLASH, FORM_FLASH, FORM_FLASH, FORM_V14, FORM_V15]);
        let depth = b.r.range(1, 3) as u32;
        let (s, d) = chain(&mut b.r, ChainOpts { depth, form, cap: 25 });
        b.add_meta(MetaSpec::Synth(s), d)
    };
    for _ in 0..b.r.range(1, 3) {
        let op = match b.r.pct(50).then(|| bits_record(&mut b, m)).flatten() {
            Some(op) => op,
            None => {
                let kind = KINDS[b.r.weighted(&[8, 4, 2, 3, 3, 2, 2, 3, 2, 2, 1])];
                b.record(m, kind)
            }
        };
        if b.r.pct(35) && !op.blobs().is_empty() {
            let blobs = op.blobs();
            let i = *b.r.pick(&blobs);
            let n = b.scn.blobs[i].len();
            if b.r.pct(35) {
                // a length anywhere, mostly where one is
                let at = match &op {
                    Op::Typed { pos, .. } if b.r.pct(60) => *pos as usize,
                    _ if b.r.pct(50) => 0,
                    _ => b.r.usize(n.max(1)),
                }
                .min(n);
                let l = *b.r.pick(&LENGTHS);
                let end = (at + if b.r.pct(50) { 1 } else { 0 }).min(n);
                b.scn.blobs[i].splice(at..end, l.iter().cloned());
            } else {
                for _ in 0..b.r.weighted(&[0, 6, 2, 1]) {
                    rand_mut(&mut b.r, n).apply(&mut b.scn.blobs[i]);
                }
            }
        }
        b.scn.ops.push(op);
    }
    for k in 0..b.r.weighted(&[3, 4, 3, 2]) {
        let code = 1000 * (k as u32 + 1) + b.r.below(1000) as u32;
        let f = if b.r.pct(50) {
            let count = if b.r.pct(50) { 1 } else { u32::MAX };
            let top = *b.r.pick(&[12, 80]);
            PFault::Reads { at: b.r.below(top) as u32, count, code }
        } else {
            let place = if !b.scn.blobs.is_empty() && b.r.pct(70) { Place::Blob(b.r.usize(b.scn.blobs.len()) as u8) } else { Place::Table(0) };
            PFault::Range { place, off: b.r.below(4000) as u32, len: b.r.range(1, 40) as u32, code }
        };
        b.scn.plan.faults.push(f);
    }
    b.finish()
}

struct Narrow {
    _child: Child,
    i: ChildStdin,
    o: ChildStdout,
    files: Vec<String>,
}

static NARROW: Mutex<Option<Narrow>> = Mutex::new(None);

fn put(o: &mut impl Write, tag: u8, b: &[u8]) {
    let mut f = (b.len() as u32 + 1).to_le_bytes().to_vec();
    f.push(tag);
    f.extend_from_slice(b);
    o.write_all(&f).and_then(|_| o.flush()).expect("narrow build is gone");
}

fn get(i: &mut impl Read) -> Vec<u8> {
    let mut n = [0; 4];
    i.read_exact(&mut n).expect("narrow build is gone");
    let mut b = vec![0; u32::from_le_bytes(n) as usize];
    i.read_exact(&mut b).expect("narrow build is gone");
    b
}

/// All outcomes on the narrow target.
fn narrow_outcomes(scn: &Scenario) -> Option<Vec<String>> {
    let mut g = NARROW.lock().unwrap();
    let s = g.get_or_insert_with(|| {
        let dir = std::env::var("SIM_NARROW").unwrap_or_else(|_| "/verif/sim32".into());
        let mut c = Command::new("node");
        c.arg("--stack-size=3900").arg(format!("{dir}/host.js"));
        c.arg(format!("{dir}/target/wasm32-unknown-unknown/release/sim32.wasm"));
        let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("node");
        let i = child.stdin.take().unwrap();
        let o = child.stdout.take().unwrap();
        Narrow { _child: child, i, o, files: vec![] }
    });
    for m in &scn.metas {
        if let MetaSpec::Real { name, .. } = m {
            if !s.files.contains(name) {
                put(&mut s.i, b'F', format!("{name}\n{}", real_text(name)).as_bytes());
                s.files.push(name.clone());
            }
        }
    }
    put(&mut s.i, b'S', &scn.encode());
    let n = get(&mut s.o);
    let n = u32::from_le_bytes(n.try_into().expect("count"));
    if n == u32::MAX {
        return None;
    }
    Some((0..n).map(|_| String::from_utf8_lossy(&get(&mut s.o)).into_owned()).collect())
}

/// Where exactly a record turned out to be too short does not matter.
fn blur(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut rest = s;
    loop {
        let at = ["DataTooShort {", "OutOfRange {"].iter().filter_map(|k| rest.find(k)).min();
        let Some(i) = at else { break };
        let Some(e) = rest[i..].find('}') else { break };
        out.push_str(&rest[..i]);
        out.push_str("TooShort");
        rest = &rest[i + e + 1..];
    }
    out.push_str(rest);
    out
}

fn cut(s: &str, around: usize) -> String {
    let from = around.saturating_sub(60);
    s.chars().skip(from).take(400).collect()
}

fn run(scn: &Scenario, st: &mut Stats) -> Result<(), Violation> {
    note_metas(scn, st);
    let g = Ground::new(scn.clone());
    let Some(there) = narrow_outcomes(scn) else {
        return violation("narrow target: scenario can not be set up", "setting up the scenario fails on the narrow target");
    };
    if there.len() != g.len() {
        panic!("narrow build of another version");
    }
    let mut base: &str = "";
    for (i, t) in there.iter().enumerate() {
        let (op, way) = g.case(i);
        let o = g.exec(i);
        let reads = g.world().mem.lock().reads;
        if way == Way::Device {
            base = t;
        }
        st.exec(g.world(), op, &o, reads > 0 && o.panicked().is_none() && !t.starts_with('X'));
        if o.panicked().is_some() {
            st.probe("the host build panics, too");
            continue;
        }
        if t.starts_with("X ") {
            st.probe("too deep for the narrow target");
            continue;
        }
        let plan = match way {
            Way::Fault(k) => Plan { faults: vec![scn.plan.faults[k].clone()], ..Default::default() },
            _ => Plan::default(),
        };
        let fail = |class: String, msg: String| {
            Err(Violation { class, msg, narrow: narrowed(scn, op.clone(), plan.clone()) })
        };
        st.checks += 1;
        if t.starts_with("P ") || t.contains("SHOW PANIC") {
            return fail(format!("{}: panics on the narrow target", op.name()), cut(t, t.find("SHOW PANIC").unwrap_or(0)));
        }
        if let Way::Fault(k) = way {
            let (PFault::Reads { code, .. } | PFault::Range { code, .. }) = &scn.plan.faults[k] else { continue };
            if t.contains(&format!("Injected {{ code: {code} }}")) {
                st.probe("memory failure reported on the narrow target");
            } else if t == base || base.starts_with('P') || base.starts_with('X') {
                st.probe("memory failure not met");
            } else {
                return fail(
                    format!("{}: memory failure not reported on the narrow target", op.name()),
                    format!("without failure: {}; with it: {}", cut(base, 0), cut(t, 0)),
                );
            }
            continue;
        }
        let (here, there) = (blur(&text(&o)), blur(t));
        if here.contains("BitVecU64") {
            st.probe("64-bit words compared");
        }
        st.probe(match &o {
            Outcome::Fail(_) => "refused on both",
            _ => "decoded on both",
        });
        if here != there {
            let at = here.chars().zip(there.chars()).take_while(|(a, b)| a == b).count();
            return fail(
                format!("{}: other outcome on the narrow target", op.name()),
                format!("64-bit: …{}; narrow: …{}", cut(&here, at), cut(&there, at)),
            );
        }
    }
    Ok(())
}
