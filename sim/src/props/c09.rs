//! C09: a storage key part is accepted only if its hash matches.
use super::common::*;
use super::Prop;
use crate::gen::{hash_part, keeps_plain, key_types, KeyPartAt, HASHERS};
use crate::meta::MetaInfo;
use crate::model;
use crate::ops::*;
use crate::oracle::expect_on;
use crate::prng::Rng;
use frame_metadata::v14::{StorageEntryType, StorageHasher};
use parity_scale_codec::Encode;

pub const PROP: Prop = Prop {
    id: "C09",
    gen,
    run,
    quick: 3_600,
    thorough: 200_000,
    chunk: 128,
    rule: "One evaluation is one run of one operation on a storage key (bare, after a prefix, or with its entry and \
           value). Of each accepted key every bit is flipped in turn (seeded choice above 60 bytes), it is cut at every \
           byte and extended, parts are exchanged, doubled, dropped, taken from another valid key, hashes are computed \
           over one byte less or more or exchanged, plain bytes are changed with and without the hash following suit, \
           the prefix is changed, other hashers are declared, and reads fail. Non-trivial: the key differs from the \
           accepted one or a failure fired; distinct by all reads made and the outcome.",
};

/// What is known about a case beyond the model.
const OPEN: u64 = 0;
/// A plain part and its hash do not belong together.
const REFUSED: u64 = 1;
/// Nothing that matters was changed.
const SAME: u64 = 2;

fn gen(r: Rng, index: u64) -> Scenario {
    let mut b = Build::new("C09", r);
    let m = b.meta(index, MetaOpts { real: 20, flash: 80, depth: 2 });
    for _ in 0..b.r.range(1, 2) {
        let kind = if b.r.pct(60) { Kind::Key } else { Kind::Storage };
        let op = b.record(m, kind);
        // a second key of the same kind, to take parts from
        let (hashers, key_ty, pos) = match declared(&op) {
            Some(d) => d,
            None => {
                b.scn.ops.push(op);
                b.scn.plan.nums.push(b.scn.blobs.len() as u64);
                let other = b.r.bytes(40);
                b.blob(other);
                continue;
            }
        };
        let prefix = b.r.bytes(pos);
        let codec = b.codecs[m as usize].clone();
        let other = crate::gen::storage_key(&codec, &hashers, key_ty, &prefix, &mut b.r).map(|k| k.0).unwrap_or_default();
        b.scn.ops.push(op);
        b.scn.plan.nums.push(b.scn.blobs.len() as u64);
        b.blob(other);
    }
    let v = b.r.u64();
    b.scn.plan.nums.push(v);
    b.scn.plan.sweep = true;
    b.finish()
}

fn declared(op: &Op) -> Option<(Vec<StorageHasher>, u32, usize)> {
    match op {
        Op::Key { hashers, key_ty, pos, .. } => Some((hashers_from(hashers), *key_ty, *pos as usize)),
        Op::Storage { entry, .. } => entry_types(&entry_of(entry)).0.map(|(h, t)| (h, t, 32)),
        _ => None,
    }
}

/// The same operation, with other hashers declared.
fn redeclared(op: &Op, hashers: &[StorageHasher]) -> Op {
    let mut op = op.clone();
    match &mut op {
        Op::Key { hashers: h, .. } => *h = hasher_numbers(hashers),
        Op::Storage { entry, .. } => {
            let mut e = entry_of(entry);
            if let StorageEntryType::Map { hashers: h, .. } = &mut e.ty {
                *h = hashers.to_vec();
            }
            *entry = e.encode();
        }
        _ => (),
    }
    op
}

fn split(info: &MetaInfo, key: &[u8], pos: usize, hashers: &[StorageHasher], key_ty: u32) -> Option<Vec<KeyPartAt>> {
    let mut p = pos;
    let mut out = vec![];
    for (h, t) in hashers.iter().zip(key_types(&info.types, hashers, key_ty)?) {
        let m = p + hash_part(h, &[]).len();
        let e = if keeps_plain(h) { model::decode_at(&info.types, t, key, m).ok()?.1 } else { m };
        if m > key.len() {
            return None;
        }
        out.push(KeyPartAt { hash: (p, m), plain: (m, e) });
        p = e;
    }
    (p == key.len()).then_some(out)
}

struct Case {
    op: Op,
    key: Vec<u8>,
    truth: u64,
    what: &'static str,
}

#[allow(clippy::too_many_lines)]
fn cases(op: &Op, info: &MetaInfo, key: &[u8], other: &[u8], r: &mut Rng, out: &mut Vec<Case>) {
    let mut add = |key: Vec<u8>, truth: u64, what: &'static str| out.push(Case { op: op.clone(), key, truth, what });
    let Some((hashers, key_ty, pos)) = declared(op) else {
        // plain entry: the prefix is everything
        for n in 0..32 {
            add(key[..n].to_vec(), REFUSED, "key cut");
        }
        for n in [1usize, 2, 16, 32, 100] {
            add([key, &r.bytes(n)].concat(), REFUSED, "key extended");
        }
        for _ in 0..3 {
            add(r.bytes(32), SAME, "another prefix");
        }
        return;
    };
    let Some(at) = split(info, key, pos, &hashers, key_ty) else { return };
    let concat = |h: &StorageHasher| keeps_plain(h) && *h != StorageHasher::Identity;
    // does the byte belong to a plain part with its hash, or to either's hash
    let mut bound = vec![false; key.len()];
    for (h, p) in hashers.iter().zip(&at) {
        if concat(h) {
            bound[p.hash.0..p.plain.1].fill(true);
        }
    }
    let bits = (key.len() - pos) * 8;
    let every = bits <= 480;
    for i in 0..bits.min(480) {
        let bit = if every { i } else { r.usize(bits) };
        let b = pos + bit / 8;
        let mut k = key.to_vec();
        k[b] ^= 1 << (bit % 8);
        add(k, if bound[b] { REFUSED } else { OPEN }, "bit flipped");
    }
    let cuts: Vec<usize> = if key.len() <= 300 {
        (0..key.len()).collect()
    } else {
        (0..40).map(|i| if i < 36 { r.usize(key.len()) } else { key.len() + i - 40 }).collect()
    };
    for n in cuts {
        add(key[..n].to_vec(), REFUSED, "key cut");
    }
    for n in [1usize, 2, 8, 16, 32, 100] {
        add([key, &r.bytes(n)].concat(), REFUSED, "key extended");
        add([key, &vec![0; n]].concat(), REFUSED, "key extended");
    }
    for _ in 0..3 {
        if pos > 0 {
            let mut k = key.to_vec();
            let p = r.bytes(pos);
            k[..pos].copy_from_slice(&p);
            add(k, SAME, "another prefix");
        }
    }
    let whole = |p: &KeyPartAt, k: &[u8]| k[p.hash.0..p.plain.1].to_vec();
    let with = |parts: &[Vec<u8>]| [&key[..pos], &parts.concat()].concat();
    let parts: Vec<Vec<u8>> = at.iter().map(|p| whole(p, key)).collect();
    for i in 0..at.len() {
        let mut p = parts.clone();
        p.insert(i, parts[i].clone());
        add(with(&p), OPEN, "part doubled");
        p = parts.clone();
        p.remove(i);
        add(with(&p), OPEN, "part dropped");
        for j in 0..i {
            let mut p = parts.clone();
            p.swap(i, j);
            add(with(&p), OPEN, "parts exchanged");
            let hash = |i: usize| at[i].hash.1 - at[i].hash.0;
            if concat(&hashers[i]) && concat(&hashers[j]) && hash(i) == hash(j) {
                let mut k = key.to_vec();
                let a = key[at[i].hash.0..at[i].hash.1].to_vec();
                let b = key[at[j].hash.0..at[j].hash.1].to_vec();
                k[at[i].hash.0..at[i].hash.1].copy_from_slice(&b);
                k[at[j].hash.0..at[j].hash.1].copy_from_slice(&a);
                add(k, if a == b { SAME } else { REFUSED }, "hashes exchanged");
            }
        }
        if !keeps_plain(&hashers[i]) {
            continue;
        }
        let plain = key[at[i].plain.0..at[i].plain.1].to_vec();
        let make = |hash: Vec<u8>, plain: &[u8]| {
            let mut p = parts.clone();
            p[i] = [&hash[..], plain].concat();
            with(&p)
        };
        if concat(&hashers[i]) {
            let right = key[at[i].hash.0..at[i].hash.1].to_vec();
            let mut wrong = vec![vec![0; right.len()], vec![0xff; right.len()], r.bytes(right.len())];
            if !plain.is_empty() {
                wrong.push(hash_part(&hashers[i], &plain[1..]));
                wrong.push(hash_part(&hashers[i], &plain[..plain.len() - 1]));
            }
            wrong.push(hash_part(&hashers[i], &[]));
            wrong.push(hash_part(&hashers[i], &[&plain[..], &[0]].concat()));
            wrong.push(hash_part(&hashers[i], &key[at[i].plain.0..]));
            wrong.push(hash_part(&hashers[i], &key[at[i].hash.0..at[i].plain.1]));
            wrong.push(hash_part(&hashers[i], &key[..at[i].plain.1]));
            wrong.push(right.iter().rev().cloned().collect());
            // one byte at either end only
            for k in [0, right.len() - 1, right.len() / 2] {
                let mut h = right.clone();
                h[k] = !h[k];
                wrong.push(h);
            }
            // right in one half only
            let mut h = r.bytes(right.len());
            let half = right.len() / 2;
            h[..half].copy_from_slice(&right[..half]);
            wrong.push(h.clone());
            h[..half].fill(7);
            h[half..].copy_from_slice(&right[half..]);
            wrong.push(h);
            for h in wrong {
                let truth = if h == right { SAME } else { REFUSED };
                add(make(h, &plain), truth, "another hash");
            }
        }
        // plain bytes of the other key, with the hash kept or following
        if let Some(o) = split(info, other, pos, &hashers, key_ty) {
            let p2 = other[o[i].plain.0..o[i].plain.1].to_vec();
            let kept = key[at[i].hash.0..at[i].hash.1].to_vec();
            if concat(&hashers[i]) {
                let truth = if p2 == plain { SAME } else { REFUSED };
                add(make(kept, &p2), truth, "another plain part");
            }
            add(make(hash_part(&hashers[i], &p2), &p2), OPEN, "another part");
        }
        for _ in 0..6 {
            let mut p = plain.clone();
            rand_mut(r, p.len()).apply(&mut p);
            add(make(hash_part(&hashers[i], &p), &p), OPEN, "damaged part, right hash");
        }
    }
    for _ in 0..4 {
        let mut h = hashers.clone();
        let n = h.len();
        match r.below(4) {
            0 if n > 1 => {
                h.pop();
            }
            1 if r.pct(20) => h.clear(),
            1 => h.push(HASHERS[r.usize(7)].clone()),
            _ => h[r.usize(n)] = HASHERS[r.usize(7)].clone(),
        }
        out.push(Case { op: redeclared(op, &h), key: key.to_vec(), truth: OPEN, what: "other hashers" });
    }
}

fn run(scn: &Scenario, st: &mut Stats) -> Result<(), Violation> {
    let mut w = scn.world();
    let ram = scn.ram();
    note_metas(scn, st);
    let nums = &scn.plan.nums;
    if !scn.plan.sweep {
        // narrowed: one operation on the key as it is
        let blobs: Vec<&[u8]> = scn.blobs.iter().map(|b| &b[..]).collect();
        let Some(op) = scn.ops.first() else { return Ok(()) };
        let truth = nums.first().copied().unwrap_or(OPEN);
        let outs = [("on the device", w.exec(op)), ("in memory", ram.exec(&blobs, op))];
        for (place, o) in outs {
            if let Some((what, msg)) = verdict(&w.infos[op.meta()], op, &blobs, truth, None, &o) {
                return Err(Violation { class: format!("{}: {what}", op.name()), msg: format!("{place}: {msg}"), narrow: None });
            }
        }
        return Ok(());
    }
    let mut r = Rng::new(nums.last().copied().unwrap_or(0));
    for (n, op) in scn.ops.iter().enumerate() {
        let info = w.infos[op.meta()].clone();
        let i = op.blobs()[0];
        let own: Vec<&[u8]> = scn.blobs.iter().map(|b| &b[..]).collect();
        let (base, trace) = w.exec_traced(op);
        st.exec(&w, op, &base, false);
        let narrow = |op: &Op, key: &[u8], truth: u64| {
            let plan = Plan { nums: vec![truth], ..Default::default() };
            narrowed(scn, op.clone(), plan).map(|mut s| {
                s.blobs[i] = key.to_vec();
                s
            })
        };
        if let Some((what, msg)) = verdict(&info, op, &own, OPEN, None, &base) {
            let class = format!("{}: {what}", op.name());
            return Err(Violation { class, msg, narrow: narrow(op, own[i], OPEN) });
        }
        if !base.ok() {
            st.probe("complete key not accepted");
            continue;
        }
        let mut list = vec![];
        let other = nums.get(n).and_then(|k| scn.blobs.get(*k as usize)).cloned().unwrap_or_default();
        cases(op, &info, own[i], &other, &mut r, &mut list);
        // long keys: a seeded choice
        let most = (600_000 / own[i].len().max(1)).clamp(40, 2_000);
        while list.len() > most {
            let k = r.usize(list.len());
            list.swap_remove(k);
        }
        for (k, c) in list.into_iter().enumerate() {
            let mut blobs = own.clone();
            blobs[i] = &c.key;
            w.put_blob(i, &c.key);
            let o = w.exec(&c.op);
            st.exec(&w, &c.op, &o, c.key != own[i] || c.op != *op);
            w.reset();
            let mut outs = vec![("on the device", o)];
            if k % 8 == 0 {
                outs.push(("in memory", ram.exec(&blobs, &c.op)));
            }
            for (place, o) in outs {
                st.checks += 1;
                if let Some((what, msg)) = verdict(&info, &c.op, &blobs, c.truth, Some(&base), &o) {
                    return Err(Violation {
                        class: format!("{}: {what}", c.op.name()),
                        msg: format!("{}, {place}: {msg}", c.what),
                        narrow: narrow(&c.op, &c.key, c.truth),
                    });
                }
            }
            st.probe(c.what);
        }
        // a failing read makes no key acceptable
        for _ in 0..6 {
            let pf = rand_read_faults(&mut r);
            let fs = fit(&w.faults(&pf), trace.len() as u32);
            let (o, _) = w.exec_faulty(op, &fs);
            st.exec(&w, op, &o, true);
            st.checks += 1;
            if !super::c02::same_or_error(&base, &o) || o.panicked().is_some() {
                let class = format!("{}: answer changed by failing read", op.name());
                let msg = format!("was {}, became {}", brief(&base), brief(&o));
                return Err(Violation { class, msg, narrow: None });
            }
        }
    }
    Ok(())
}

fn verdict(
    info: &MetaInfo,
    op: &Op,
    blobs: &[&[u8]],
    truth: u64,
    base: Option<&Outcome>,
    o: &Outcome,
) -> Option<(&'static str, String)> {
    if let Some(m) = o.panicked() {
        return Some(("panic", m.to_string()));
    }
    match (truth, base) {
        (REFUSED, _) if o.ok() => return Some(("wrong key accepted", brief(o))),
        (SAME, Some(b)) if b != o => return Some(("answer changed", format!("was {}, became {}", brief(b), brief(o)))),
        _ => (),
    }
    expect_on(blobs, info, op).against(o)
}
