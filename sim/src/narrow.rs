//! What is done alike on both targets (C18): every operation of a scenario on
//! the device, in memory, and with each planned fault; outcomes as text.
use crate::ops::*;

pub struct Ground {
    scn: Scenario,
    world: World,
    ram: Ram,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Way {
    Device,
    Memory,
    /// With this fault of the plan.
    Fault(usize),
}

impl Ground {
    pub fn new(scn: Scenario) -> Self {
        Ground { world: scn.world(), ram: scn.ram(), scn }
    }
    fn ways(&self) -> usize {
        2 + self.scn.plan.faults.len()
    }
    pub fn len(&self) -> usize {
        self.scn.ops.len() * self.ways()
    }
    pub fn world(&self) -> &World {
        &self.world
    }
    pub fn case(&self, i: usize) -> (&Op, Way) {
        let way = match i % self.ways() {
            0 => Way::Device,
            1 => Way::Memory,
            k => Way::Fault(k - 2),
        };
        (&self.scn.ops[i / self.ways()], way)
    }
    pub fn exec(&self, i: usize) -> Outcome {
        let (op, way) = self.case(i);
        match way {
            Way::Device => self.world.exec_faulty(op, &[]).0,
            Way::Memory => {
                let blobs: Vec<&[u8]> = self.scn.blobs.iter().map(|b| &b[..]).collect();
                self.ram.exec_shared(&blobs, op)
            }
            Way::Fault(k) => {
                let f = self.world.faults(&self.scn.plan.faults[k..k + 1]);
                let o = self.world.exec_faulty(op, &f).0;
                self.world.restore();
                o
            }
        }
    }
}

/// How bits are kept in memory may differ.
fn bits_alike(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut rest = s;
    while let Some(i) = rest.find("BitVec<u") {
        out.push_str(&rest[..i]);
        let t = &rest[i..];
        let (Some(a), Some(b), Some(e)) = (t.find(", bitvec::order"), t.find(" { addr: "), t.find('}')) else {
            out.push_str(&t[..8]);
            rest = &t[8..];
            continue;
        };
        if a > 11 || b > 40 || e < b {
            out.push_str(&t[..8]);
            rest = &t[8..];
            continue;
        }
        let head = &t[b..e];
        let bits = head.find("bits: ").map_or("", |k| head[k..].split(',').next().unwrap_or(""));
        out.push_str("BitVec");
        out.push_str(&t[a..b]);
        out.push_str(" { ");
        out.push_str(bits);
        out.push_str(" }");
        rest = &t[e + 1..];
    }
    out.push_str(rest);
    out
}

/// Which characters `Debug` escapes depends on the Unicode tables of the
/// standard library, and that of the narrow target is another one: all are.
fn escaped(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    for c in s.chars() {
        if c.is_ascii() {
            // escaped once is as good as twice
            if c == 'u' {
                let bare = out.trim_end_matches('\\').len();
                if bare + 1 < out.len() {
                    out.truncate(bare + 1);
                }
            }
            out.push(c);
        } else {
            out.extend(c.escape_unicode());
        }
    }
    out
}

/// Kind (`D`one, `F`ailed, `P`anicked), whether device errors are in there,
/// and all there is to see.
pub fn text(o: &Outcome) -> String {
    let mut s = match o {
        Outcome::Done { .. } => "D ".to_string(),
        Outcome::Fail(_) => "F ".to_string(),
        Outcome::Panic(_) => "P ".to_string(),
    };
    s.push_str(&bits_alike(&format!("{o:?}")));
    s.push_str("\n");
    match show(o) {
        Ok(t) => s.push_str(&t),
        Err(m) => {
            s.push_str("SHOW PANIC ");
            s.push_str(&m);
        }
    }
    escaped(&s)
}
