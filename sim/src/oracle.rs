//! What the reference model says about whole operations.
use crate::gen::{hash_part, keeps_plain, key_types};
use crate::meta::{MetaInfo, VersionState};
use crate::model::{decode_at, decode_call, decode_exts, gate, read_compact, MErr};
use crate::ops::{entry_of, hashers_from, ErrInfo, Op, Outcome, Scenario, Step, Val};
use frame_metadata::v14::{StorageEntryType, StorageHasher};
use scale_info::TypeDef;
use substrate_parser::cards::Info;
use substrate_parser::storage_data::{Hash, HashData, KeyData, KeyPart, Storage};
use substrate_parser::unchecked_extrinsic::UncheckedExtrinsic;

pub enum Expect {
    /// Exactly this answer.
    Answer(Outcome),
    /// An error.
    Refuse(String),
    /// Extrinsic with surplus bytes inside of its declared length: should be
    /// refused, see the known finding; if not, it is at least this answer.
    Surplus(Outcome),
    /// The model does not decide this one.
    Unknown,
}

impl Expect {
    pub fn accepts(&self) -> bool {
        matches!(self, Expect::Answer(o) if o.full())
    }
    /// Description of the disagreement, if there is one.
    pub fn against(&self, o: &Outcome) -> Option<(&'static str, String)> {
        let b = |x: &Outcome| crate::ops::brief(x);
        match self {
            Expect::Unknown => o.panicked().map(|m| ("panic", m.to_string())),
            _ if o.panicked().is_some() => Some(("panic", o.panicked().unwrap().to_string())),
            Expect::Answer(x) => {
                if equal(x, o) {
                    None
                } else if o.ok() {
                    Some(("different answer", format!("expected {}, got {}", b(x), b(o))))
                } else {
                    Some(("valid record refused", format!("expected {}, got {}", b(x), b(o))))
                }
            }
            Expect::Refuse(why) => {
                if o.ok() {
                    Some(("invalid record accepted", format!("should be refused ({why}), got {}", b(o))))
                } else {
                    None
                }
            }
            Expect::Surplus(x) => {
                if !o.ok() || equal(x, o) {
                    None
                } else {
                    Some(("different answer", format!("expected {} or refusal, got {}", b(x), b(o))))
                }
            }
        }
    }
}

/// Equality where the model only knows that a part is an error.
pub fn equal(x: &Outcome, o: &Outcome) -> bool {
    match (x, o) {
        (Outcome::Done { val: a, end: e }, Outcome::Done { val: b, end: f }) if e == f => match (a, b) {
            (Val::Tx { exts: a1, call: a2 }, Val::Tx { exts: b1, call: b2 }) => {
                a1 == b1
                    && match (a2, b2) {
                        (Ok(a), Ok(b)) => a == b,
                        (Err(_), Err(_)) => true,
                        _ => false,
                    }
            }
            (Val::Many(a), Val::Many(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| equal(a, b)),
            _ => a == b,
        },
        (Outcome::Fail(_), Outcome::Fail(_)) => true,
        _ => false,
    }
}

fn refused(e: impl std::fmt::Debug) -> ErrInfo {
    ErrInfo { text: format!("{e:?}"), dev: None, meta: false, kind: "refused".into() }
}

enum Stop {
    Unknown,
    Refuse(String),
}

impl From<MErr> for Stop {
    fn from(e: MErr) -> Self {
        match e {
            MErr::Beyond => Stop::Unknown,
            e => Stop::Refuse(format!("{e:?}")),
        }
    }
}

fn answer(val: Val, end: Option<usize>) -> Expect {
    Expect::Answer(Outcome::Done { val, end })
}

pub fn expect(scn: &Scenario, info: &MetaInfo, op: &Op) -> Expect {
    let blobs: Vec<&[u8]> = scn.blobs.iter().map(|b| &b[..]).collect();
    expect_on(&blobs, info, op)
}

/// With these records instead of the scenario's own.
pub fn expect_on(blobs: &[&[u8]], info: &MetaInfo, op: &Op) -> Expect {
    match expect_inner(blobs, info, op) {
        Ok(e) => e,
        Err(Stop::Unknown) => Expect::Unknown,
        Err(Stop::Refuse(s)) => Expect::Refuse(s),
    }
}

fn good_version(info: &MetaInfo) -> Result<(), Stop> {
    match info.version_state {
        VersionState::Good => Ok(()),
        VersionState::Bad => Err(Stop::Refuse("version record".into())),
        VersionState::Unknown => Err(Stop::Unknown),
    }
}

fn gated(
    info: &MetaInfo,
    b: &[u8],
    pos: usize,
    genesis: Option<[u8; 32]>,
) -> Result<Vec<substrate_parser::cards::ExtendedData>, Stop> {
    let exts = decode_exts(&info.types, &info.exts, b, pos)?;
    good_version(info)?;
    gate(&exts, &info.spec_version, genesis).map_err(|e| Stop::Refuse(e.into()))?;
    Ok(exts)
}

/// Where call and extensions start.
pub fn marks(b: &[u8]) -> Option<(usize, usize)> {
    let mut pos = 0;
    let n = read_compact(b, &mut pos, 4).ok()? as usize;
    (b.len() - pos >= n).then_some((pos, pos + n))
}

fn call_result(info: &MetaInfo, b: &[u8], at: usize, end: usize) -> Result<Result<substrate_parser::cards::Call, ErrInfo>, Stop> {
    match decode_call(&info.types, info.call_ty, &b[..end], at) {
        Ok((c, e)) if e == end => Ok(Ok(c)),
        Ok((_, e)) => Ok(Err(refused(format!("call data left from {e}")))),
        Err(MErr::Beyond) => Err(Stop::Unknown),
        Err(e) => Ok(Err(refused(e))),
    }
}

fn expect_inner(blobs: &[&[u8]], info: &MetaInfo, op: &Op) -> Result<Expect, Stop> {
    let blob = |i: u8| -> &[u8] { blobs[i as usize] };
    let types = &info.types[..];
    Ok(match op {
        Op::Typed { blob: i, ty, pos, all, .. } => {
            let b = blob(*i);
            let p = if *all { 0 } else { *pos as usize };
            let (v, end) = decode_at(types, *ty, b, p)?;
            if *all {
                if end != b.len() {
                    return Ok(Expect::Refuse("left-over bytes".into()));
                }
                answer(Val::Ext(Box::new(v)), None)
            } else {
                answer(Val::Ext(Box::new(v)), Some(end))
            }
        }
        Op::Tx { blob: i, genesis, .. } => {
            let b = blob(*i);
            let Some((c, x)) = marks(b) else { return Ok(Expect::Refuse("not separable".into())) };
            let exts = gated(info, b, x, *genesis)?;
            let call = call_result(info, b, c, x)?.map(Box::new);
            answer(Val::Tx { exts, call }, None)
        }
        Op::TxUnmarked { blob: i, genesis, .. } => {
            let b = blob(*i);
            let (call, x) = decode_call(types, info.call_ty, b, 0)?;
            let exts = gated(info, b, x, *genesis)?;
            answer(Val::TxUnmarked { call: Box::new(call), exts }, None)
        }
        Op::CallUnmarked { blob: i, pos, .. } => {
            let (c, e) = decode_call(types, info.call_ty, blob(*i), *pos as usize)?;
            answer(Val::Call(Box::new(c)), Some(e))
        }
        Op::ExtsUnmarked { blob: i, pos, genesis, .. } => {
            let b = blob(*i);
            let exts = gated(info, b, *pos as usize, *genesis)?;
            answer(Val::Exts(exts), Some(b.len()))
        }
        Op::Marked { blob: i, steps, .. } => {
            let b = blob(*i);
            let Some((c, x)) = marks(b) else { return Ok(Expect::Refuse("not separable".into())) };
            let mut out = Vec::new();
            for s in steps {
                match s {
                    Step::Call => out.push(match call_result(info, b, c, x)? {
                        Ok(c) => Outcome::Done { val: Val::Call(Box::new(c)), end: None },
                        Err(e) => Outcome::Fail(e),
                    }),
                    Step::Exts(g) => out.push(match gated(info, b, x, *g) {
                        Ok(v) => Outcome::Done { val: Val::Exts(v), end: None },
                        Err(Stop::Refuse(s)) => Outcome::Fail(refused(s)),
                        Err(e) => return Err(e),
                    }),
                    _ => (),
                }
            }
            answer(Val::Many(out), Some(x))
        }
        Op::Extrinsic { blob: i, .. } => {
            let b = blob(*i);
            let mut p = 0;
            let n = read_compact(b, &mut p, 4)? as usize;
            if b.len() - p != n {
                return Ok(Expect::Refuse("declared length".into()));
            }
            let v = *b.get(p).ok_or(MErr::Short)?;
            if v & 0x7f != info.tx_version {
                return Ok(Expect::Refuse("extrinsic version".into()));
            }
            p += 1;
            let (xt, end) = if v & 0x80 != 0 {
                let (address, p) = decode_at(types, info.address_ty, b, p)?;
                let (signature, p) = decode_at(types, info.signature_ty, b, p)?;
                let (extra, p) = decode_at(types, info.extra_ty, b, p)?;
                let (call, p) = decode_call(types, info.call_ty, b, p)?;
                (UncheckedExtrinsic::Signed { address, signature, extra, call }, p)
            } else {
                let (call, p) = decode_call(types, info.call_ty, b, p)?;
                (UncheckedExtrinsic::Unsigned { call }, p)
            };
            let o = Outcome::Done { val: Val::Xt(Box::new(xt)), end: None };
            if end != b.len() {
                Expect::Surplus(o)
            } else {
                Expect::Answer(o)
            }
        }
        Op::Key { blob: i, pos, hashers, key_ty, .. } => {
            let k = key(info, blob(*i), *pos as usize, &hashers_from(hashers), *key_ty)?;
            answer(Val::Key(k), None)
        }
        Op::Storage { key: k, value, entry, .. } => {
            let e = entry_of(entry);
            let kb = blob(*k);
            if kb.len() < 32 {
                return Ok(Expect::Refuse("key shorter than prefix".into()));
            }
            let mut docs = String::new();
            for (i, l) in e.docs.iter().enumerate() {
                if i > 0 {
                    docs.push('\n');
                }
                docs.push_str(l);
            }
            let (key, vt) = match &e.ty {
                StorageEntryType::Plain(v) => {
                    if kb.len() != 32 {
                        return Ok(Expect::Refuse("plain key longer than prefix".into()));
                    }
                    (KeyData::Plain, v.id)
                }
                StorageEntryType::Map { hashers, key: kt, value } => (key(info, kb, 32, hashers, kt.id)?, value.id),
            };
            let vb = blob(*value);
            let (v, end) = decode_at(types, vt, vb, 0)?;
            if end != vb.len() {
                return Ok(Expect::Refuse("value left over".into()));
            }
            answer(Val::Storage(Box::new(Storage { key, value: v, docs })), None)
        }
        Op::Version { .. } => good_version(info).map(|_| answer(
            Val::Version(substrate_parser::traits::SpecNameVersion {
                printed_spec_version: info.spec_version.clone(),
                spec_name: info.spec_name.clone(),
            }),
            None,
        ))?,
    })
}

fn key(info: &MetaInfo, b: &[u8], pos: usize, hashers: &[StorageHasher], key_ty: u32) -> Result<KeyData, Stop> {
    let types = &info.types[..];
    let t = types.get(key_ty as usize).ok_or(Stop::Refuse("key type".into()));
    let tys = if hashers.len() == 1 {
        vec![key_ty]
    } else {
        match key_types(types, hashers, key_ty) {
            Some(t) => t,
            None => return Err(Stop::Refuse("hashers and key type do not fit".into())),
        }
    };
    let mut p = pos;
    let mut content = Vec::new();
    for (h, ty) in hashers.iter().zip(tys) {
        let n = hash_part(h, &[]).len();
        let short = || Stop::Refuse("key too short".into());
        if p > b.len() || b.len() - p < n {
            return Err(short());
        }
        let hash = &b[p..p + n];
        p += n;
        if keeps_plain(h) {
            let (v, e) = decode_at(types, ty, b, p)?;
            if hash_part(h, &b[p..e]) != hash {
                return Err(Stop::Refuse("hash does not match".into()));
            }
            p = e;
            content.push(KeyPart::Parsed(v));
        } else {
            let hash = match h {
                StorageHasher::Blake2_128 => Hash::Blake2_128(array(hash)),
                StorageHasher::Blake2_256 => Hash::Blake2_256(array(hash)),
                StorageHasher::Twox128 => Hash::Twox128(array(hash)),
                _ => Hash::Twox256(array(hash)),
            };
            content.push(KeyPart::Hash(HashData { hash, type_id: ty }));
        }
    }
    if p != b.len() {
        return Err(Stop::Refuse("key left over".into()));
    }
    Ok(if hashers.len() == 1 {
        KeyData::SingleHash { content: content.pop().unwrap() }
    } else {
        let t = t?;
        debug_assert!(matches!(t.type_def, TypeDef::Tuple(_)));
        let mut docs = String::new();
        for (i, l) in t.docs.iter().enumerate() {
            if i > 0 {
                docs.push('\n');
            }
            docs.push_str(l);
        }
        KeyData::TupleHash { content, info: Info { docs, path: t.path.clone() } }
    })
}

/// Array of as many bytes as the crate takes for such a hash.
fn array<const N: usize>(b: &[u8]) -> [u8; N] {
    let mut out = [0; N];
    out.iter_mut().zip(b).for_each(|(x, y)| *x = *y);
    out
}
