//! Making a failing run small: fewer operations, faults, switches and damage,
//! shorter records, fewer types; the violation class stays the same.
use crate::driver::{judge_apart, STALL};
use crate::meta::{MetaSpec, Ty};
use crate::ops::{entry_of, entry_types, Mut, Op, PFault, Scenario, Step};
use crate::props::common::Violation;
use scale_info::{form::PortableForm, Path, TypeDef, TypeDefTuple};
use std::time::{Duration, Instant};

struct Min {
    before: Vec<Scenario>,
    best: Scenario,
    v: Violation,
    digest: u64,
    tries: u32,
    t0: Instant,
}

/// Properties whose plans say what is true of the records.
const TRUTHS: [&str; 2] = ["C08", "C09"];

const TRIES: u32 = 900;
const TIME: Duration = Duration::from_secs(60);

impl Min {
    fn spent(&self) -> bool {
        self.tries >= TRIES || self.t0.elapsed() > TIME
    }
    fn judge(&mut self, before: &[Scenario], scn: &Scenario) -> Option<(Violation, u64)> {
        self.tries += 1;
        let mut all = before.to_vec();
        all.push(scn.clone());
        match judge_apart(&all, STALL) {
            Ok((Some(v), d)) if v.class == self.v.class => Some((v, d)),
            _ => None,
        }
    }
    fn attempt(&mut self, scn: Scenario) -> bool {
        if self.spent() || scn == self.best {
            return false;
        }
        let before = self.before.clone();
        match self.judge(&before, &scn) {
            Some((v, d)) => {
                self.best = scn;
                self.v = v;
                self.digest = d;
                true
            }
            None => false,
        }
    }
    /// Remove as many as possible of `n` things, larger groups first.
    fn shrink(&mut self, count: impl Fn(&Scenario) -> usize, remove: impl Fn(&mut Scenario, usize, usize), least: usize) {
        let mut k = count(&self.best).div_ceil(2);
        while k >= 1 {
            let mut i = 0;
            while i < count(&self.best) {
                let n = count(&self.best);
                let m = k.min(n - i);
                if n - m < least {
                    break;
                }
                let mut s = self.best.clone();
                remove(&mut s, i, i + m);
                if !self.attempt(s) {
                    i += m;
                }
                if self.spent() {
                    return;
                }
            }
            k /= 2;
        }
    }
}

fn renumber(op: &mut Op, gone: u8) {
    match op {
        Op::Typed { meta, .. }
        | Op::Tx { meta, .. }
        | Op::TxUnmarked { meta, .. }
        | Op::CallUnmarked { meta, .. }
        | Op::ExtsUnmarked { meta, .. }
        | Op::Marked { meta, .. }
        | Op::Extrinsic { meta, .. }
        | Op::Storage { meta, .. }
        | Op::Key { meta, .. }
        | Op::Version { meta } => {
            if *meta > gone {
                *meta -= 1
            }
        }
    }
}

fn reach(types: &[Ty], id: u32, seen: &mut Vec<bool>) {
    let i = id as usize;
    if i >= types.len() || seen[i] {
        return;
    }
    seen[i] = true;
    match &types[i].type_def {
        TypeDef::Composite(c) => c.fields.iter().for_each(|f| reach(types, f.ty.id, seen)),
        TypeDef::Variant(v) => {
            v.variants.iter().flat_map(|v| v.fields.iter()).for_each(|f| reach(types, f.ty.id, seen))
        }
        TypeDef::Sequence(s) => reach(types, s.type_param.id, seen),
        TypeDef::Array(s) => reach(types, s.type_param.id, seen),
        TypeDef::Compact(s) => reach(types, s.type_param.id, seen),
        TypeDef::Tuple(t) => t.fields.iter().for_each(|f| reach(types, f.id, seen)),
        TypeDef::BitSequence(b) => {
            reach(types, b.bit_order_type.id, seen);
            reach(types, b.bit_store_type.id, seen);
        }
        TypeDef::Primitive(_) => (),
    }
}

fn blank() -> Ty {
    Ty {
        path: Path::<PortableForm> { segments: vec![] },
        type_params: vec![],
        type_def: TypeDefTuple { fields: vec![] }.into(),
        docs: vec![],
    }
}

/// Types no operation comes to become empty.
fn blank_unused(s: &Scenario) -> Scenario {
    let mut out = s.clone();
    for (i, m) in out.metas.iter_mut().enumerate() {
        let MetaSpec::Synth(m) = m else { continue };
        let mut seen = vec![false; m.types.len()];
        for op in &s.ops {
            if op.meta() != i {
                continue;
            }
            match op {
                Op::Typed { ty, .. } => reach(&m.types, *ty, &mut seen),
                Op::Key { key_ty, .. } => reach(&m.types, *key_ty, &mut seen),
                Op::Storage { entry, .. } => {
                    let (k, v) = entry_types(&entry_of(entry));
                    reach(&m.types, v, &mut seen);
                    if let Some((_, k)) = k {
                        reach(&m.types, k, &mut seen);
                    }
                }
                Op::CallUnmarked { .. } => reach(&m.types, m.call_ty, &mut seen),
                Op::Extrinsic { .. } => {
                    for t in [m.call_ty, m.address_ty, m.signature_ty, m.extra_ty, m.extrinsic_ty] {
                        reach(&m.types, t, &mut seen)
                    }
                }
                _ => {
                    reach(&m.types, m.call_ty, &mut seen);
                    for (_, a, b) in m.exts.clone() {
                        reach(&m.types, a, &mut seen);
                        reach(&m.types, b, &mut seen);
                    }
                    if let Some((_, t)) = m.version_const {
                        reach(&m.types, t, &mut seen);
                    }
                }
            }
        }
        for (t, s) in m.types.iter_mut().zip(seen) {
            if !s {
                *t = blank();
            }
        }
    }
    out
}

/// The scenario with those preceding it, its violation, the event digest.
pub fn minimise(before: Vec<Scenario>, scn: &Scenario) -> Option<(Vec<Scenario>, Violation, u64)> {
    let mut all = before.clone();
    all.push(scn.clone());
    let (v, digest) = match judge_apart(&all, STALL) {
        Ok((Some(v), d)) => (v, d),
        _ => return None,
    };
    let mut m = Min { before, best: scn.clone(), v, digest, tries: 0, t0: Instant::now() };
    // runs that came before
    let mut k = m.before.len().div_ceil(2);
    while k >= 1 && !m.spent() {
        let mut i = 0;
        while i < m.before.len() && !m.spent() {
            let end = (i + k).min(m.before.len());
            let mut b = m.before.clone();
            b.drain(i..end);
            let s = m.best.clone();
            match m.judge(&b, &s) {
                Some((v, d)) => {
                    m.before = b;
                    m.v = v;
                    m.digest = d;
                }
                None => i = end,
            }
        }
        k /= 2;
    }
    for round in 0..2 {
        if let Some(n) = m.v.narrow.clone() {
            m.attempt(n);
        }
        m.shrink(
            |s| s.ops.len(),
            |s, a, b| {
                if s.plan.sessions.len() == s.ops.len() {
                    s.plan.sessions.drain(a..b);
                }
                s.ops.drain(a..b);
            },
            1,
        );
        for i in 0..m.best.plan.sessions.len() {
            let mut s = m.best.clone();
            s.plan.sessions[i].faults.clear();
            s.plan.sessions[i].meta_fails.clear();
            m.attempt(s);
            let mut s = m.best.clone();
            s.plan.sessions[i].device = 0;
            m.attempt(s);
            let mut s = m.best.clone();
            s.plan.sessions[i].session = 0;
            m.attempt(s);
        }
        m.shrink(|s| s.plan.faults.len(), |s, a, b| drop(s.plan.faults.drain(a..b)), 0);
        m.shrink(|s| s.plan.meta_fails.len(), |s, a, b| drop(s.plan.meta_fails.drain(a..b)), 0);
        m.shrink(|s| s.plan.muts.len(), |s, a, b| drop(s.plan.muts.drain(a..b)), 0);
        m.shrink(|s| s.plan.cuts.len(), |s, a, b| drop(s.plan.cuts.drain(a..b)), 0);
        m.shrink(|s| s.plan.switches.len(), |s, a, b| drop(s.plan.switches.drain(a..b)), 0);
        m.shrink(|s| s.plan.nums.len(), |s, a, b| drop(s.plan.nums.drain(a..b)), 0);
        let mut s = m.best.clone();
        s.plan.sweep = false;
        m.attempt(s);
        for i in 0..m.best.ops.len() {
            if let Op::Marked { steps, .. } = &m.best.ops[i] {
                for k in (0..steps.len()).rev() {
                    let mut s = m.best.clone();
                    if let Op::Marked { steps, .. } = &mut s.ops[i] {
                        if let Step::Arm(f) = &mut steps[k] {
                            if f.len() > 1 {
                                f.truncate(1);
                            }
                        }
                        steps.remove(k);
                    }
                    m.attempt(s);
                }
            }
        }
        // metadata nothing uses
        for i in (0..m.best.metas.len()).rev() {
            if m.best.metas.len() > 1 && m.best.ops.iter().all(|o| o.meta() != i) {
                let mut s = m.best.clone();
                s.metas.remove(i);
                s.ops.iter_mut().for_each(|o| renumber(o, i as u8));
                m.attempt(s);
            }
        }
        for i in 0..m.best.metas.len() {
            for what in 0..4 {
                let mut s = m.best.clone();
                if let MetaSpec::Synth(x) = &mut s.metas[i] {
                    match what {
                        0 => x.types.iter_mut().for_each(|t| t.docs.clear()),
                        1 => x.damage.clear(),
                        2 => x.fails.clear(),
                        _ => x.damage.truncate(x.damage.len() / 2),
                    }
                }
                m.attempt(s);
            }
        }
        let s = blank_unused(&m.best);
        m.attempt(s);
        // records
        for i in 0..m.best.blobs.len() {
            if m.best.ops.iter().all(|o| !o.blobs().contains(&i)) {
                let mut s = m.best.clone();
                s.blobs[i].clear();
                m.attempt(s);
            }
            // records with a known truth about them stay as they are
            if round == 1 && !TRUTHS.contains(&&m.best.prop[..]) {
                let mut k = m.best.blobs[i].len().div_ceil(2);
                let mut left = 60;
                while k >= 1 && left > 0 {
                    let mut at = 0;
                    while at < m.best.blobs[i].len() && left > 0 {
                        let end = (at + k).min(m.best.blobs[i].len());
                        let mut s = m.best.clone();
                        s.blobs[i][at..end].fill(0);
                        if s != m.best {
                            left -= 1;
                            m.attempt(s);
                        }
                        at = end;
                    }
                    k /= 2;
                }
            }
        }
        // smaller numbers
        for i in 0..m.best.plan.faults.len() {
            let mut s = m.best.clone();
            match &mut s.plan.faults[i] {
                PFault::Reads { count, .. } => *count = 1,
                PFault::Range { len, .. } => *len = 1,
                PFault::Rewrite { bytes, .. } => bytes.truncate(1),
                PFault::Slow { ticks, .. } => *ticks = 1,
                PFault::Flip { xor, .. } => *xor = 1,
                PFault::Relink { .. } => (),
            }
            m.attempt(s);
        }
        for i in 0..m.best.plan.muts.len() {
            let mut s = m.best.clone();
            if let Mut::Insert { bytes, .. } | Mut::Append { bytes } = &mut s.plan.muts[i] {
                bytes.truncate(1);
                m.attempt(s);
            }
        }
        if m.spent() {
            break;
        }
    }
    let mut all = m.before.clone();
    all.push(m.best.clone());
    Some((all, m.v, m.digest))
}
