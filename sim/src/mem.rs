//! The simulated external memory: a flat, paged device behind the crate's own
//! `ExternalMemory` / `AddressableBuffer` / `ResolveType` seams, with a fault
//! plan, a simulated clock and an event digest. Also the session scheduler.
use crate::prng::fnv;
use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
use parity_scale_codec::{Decode, DecodeAll, Encode};
use scale_info::{form::PortableForm, Type};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;
use substrate_parser::error::{RegistryError, RegistryInternalError};
use substrate_parser::traits::ResolveType;

/// Error of the simulated device. Every injected failure has its own code.
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub enum SimErr {
    /// Injected failure.
    Injected { code: u32 },
    /// The stored type description can not be loaded (damaged type table).
    BadRecord { id: u32 },
    /// More reads than any terminating operation needs.
    Budget,
    /// Going on would only show the listed finding D5 of C11.
    Cut { id: u32 },
}

impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub enum Fault {
    /// Reads number `at .. at+count` (counted from arming) fail.
    Reads { at: u32, count: u32, code: u32 },
    /// Reads touching `start .. start+len` fail while the fault is armed.
    Range { start: u32, len: u32, code: u32 },
    /// Just before read number `at` the bytes from `start` are replaced.
    Rewrite { at: u32, start: u32, bytes: Vec<u8> },
    /// Reads number `at .. at+count` take `ticks` more.
    Slow { at: u32, count: u32, ticks: u32 },
    /// Read number `at` transfers one byte changed (stored bytes stay).
    Flip { at: u32, off: u32, xor: u8 },
}

pub const FAULT_KINDS: usize = 10;
pub const FAULT_NAMES: [&str; FAULT_KINDS] = [
    "read_error_single",
    "read_error_burst",
    "read_error_until_power_cycle",
    "unreadable_range",
    "rewrite_during_decoding",
    "slow_read",
    "damaged_type_record",
    "read_budget_exceeded",
    "bit_flip_in_transfer",
    "cut_before_listed_finding_D5",
];

#[derive(Debug, Default)]
pub struct Device {
    pub bytes: Vec<u8>,
    pub page: u32,
    /// Bytes were rewritten since they were last restored.
    pub dirty: bool,
    /// Number of rewrites there were.
    pub version: u64,
    /// Faults and the number of reads since they were armed, by session.
    pub armed: Vec<(Vec<Fault>, u32)>,
    pub reads: u64,
    pub ticks: u64,
    pub digest: u64,
    pub fired: [u64; FAULT_KINDS],
    /// Errors returned since last `take_errors`, in order.
    pub errors: Vec<SimErr>,
    /// Reads allowed until the budget error.
    pub budget: u64,
    /// Bytes of records asked for.
    pub delivered: u64,
    /// Extent of successful reads.
    pub lo: usize,
    pub hi: usize,
    /// Starting address of each read since `trace = Some`.
    pub trace: Option<Vec<(u32, u32)>>,
}

impl Device {
    fn armed(&mut self, session: usize) -> &mut (Vec<Fault>, u32) {
        while self.armed.len() <= session {
            self.armed.push(Default::default());
        }
        &mut self.armed[session]
    }
    pub fn arm_for(&mut self, session: usize, faults: &[Fault]) {
        *self.armed(session) = (faults.to_vec(), 0);
    }
    pub fn arm(&mut self, faults: &[Fault]) {
        self.arm_for(0, faults);
    }
    pub fn clear(&mut self) {
        self.armed.clear();
    }
    /// Reads of the first session since faults were armed.
    pub fn clock(&mut self) -> u32 {
        self.armed(0).1
    }
    pub fn take_errors(&mut self) -> Vec<SimErr> {
        std::mem::take(&mut self.errors)
    }
    fn fail(&mut self, kind: usize, e: SimErr) -> SimErr {
        self.fired[kind] += 1;
        self.digest = fnv(self.digest, &e.encode());
        if self.errors.len() < 1000 {
            self.errors.push(e.clone());
        }
        e
    }
    fn read(&mut self, addr: usize, len: usize, session: usize) -> Result<Vec<u8>, SimErr> {
        let armed = self.armed(session);
        let n = armed.1;
        armed.1 = n.saturating_add(1);
        // taken out for the time of the read
        let faults = std::mem::take(&mut armed.0);
        let out = self.read_with(addr, len, session, n, &faults);
        self.armed(session).0 = faults;
        out
    }
    fn read_with(
        &mut self,
        addr: usize,
        len: usize,
        session: usize,
        n: u32,
        faults: &[Fault],
    ) -> Result<Vec<u8>, SimErr> {
        self.reads += 1;
        let page = self.page.max(1) as usize;
        let pages = if len == 0 { 1 } else { (addr + len - 1) / page - addr / page + 1 };
        self.ticks += 1 + pages as u64 * 4;
        self.digest = fnv(
            self.digest,
            &[(session as u64).to_le_bytes(), (addr as u64).to_le_bytes(), (len as u64).to_le_bytes()].concat(),
        );
        if let Some(t) = &mut self.trace {
            t.push((addr as u32, len as u32));
        }
        if self.budget == 0 {
            return Err(self.fail(7, SimErr::Budget));
        }
        self.budget -= 1;
        let mut flip = None;
        {
            for f in faults {
                match f.clone() {
                    Fault::Reads { at, count, code } => {
                        if n >= at && n - at < count {
                            let kind = match count {
                                1 => 0,
                                u32::MAX => 2,
                                _ => 1,
                            };
                            return Err(self.fail(kind, SimErr::Injected { code }));
                        }
                    }
                    Fault::Range { start, len: l, code } => {
                        if addr < (start as usize + l as usize) && addr + len > start as usize && len > 0 {
                            return Err(self.fail(3, SimErr::Injected { code }));
                        }
                    }
                    Fault::Rewrite { at, start, bytes } => {
                        if n == at {
                            let s = start as usize;
                            self.dirty = true;
                            self.version += 1;
                            self.bytes[s..s + bytes.len()].copy_from_slice(&bytes);
                            self.fired[4] += 1;
                            self.digest = fnv(self.digest, &bytes);
                        }
                    }
                    Fault::Slow { at, count, ticks } => {
                        if n >= at && n - at < count {
                            self.ticks += ticks as u64;
                            self.fired[5] += 1;
                        }
                    }
                    Fault::Flip { at, off, xor } => {
                        if n == at && len > 0 {
                            flip = Some((off as usize % len, xor));
                            self.fired[8] += 1;
                            self.digest = fnv(self.digest, &[xor]);
                        }
                    }
                }
            }
        }
        if len > 0 {
            self.lo = self.lo.min(addr);
            self.hi = self.hi.max(addr + len);
        }
        let mut out = self.bytes[addr..addr + len].to_vec();
        if let Some((i, x)) = flip {
            out[i] ^= x;
        }
        Ok(out)
    }
}

/// One session's handle of the device.
#[derive(Clone)]
pub struct SimMem {
    pub dev: Arc<Mutex<Device>>,
    pub session: usize,
}

impl std::fmt::Debug for SimMem {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "SimMem#{}", self.session)
    }
}

impl SimMem {
    pub fn new(dev: Device) -> Self {
        SimMem { dev: Arc::new(Mutex::new(dev)), session: 0 }
    }
    pub fn lock(&self) -> MutexGuard<'_, Device> {
        self.dev.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn read(&mut self, addr: usize, len: usize) -> Result<Vec<u8>, SimErr> {
        yield_here();
        self.lock().read(addr, len, self.session)
    }
}

impl ExternalMemory for SimMem {
    type ExternalMemoryError = SimErr;
}

/// Data record on the device: start address and length.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SimBuf {
    pub start: usize,
    pub len: usize,
}

thread_local! {
    /// Length of what lies before the content of records. It can not be read.
    pub static FAR: Cell<usize> = const { Cell::new(0) };
}

pub fn far() -> usize {
    FAR.with(|f| f.get())
}

impl AddressableBuffer<SimMem> for SimBuf {
    type ReadBuffer = Vec<u8>;
    fn total_len(&self) -> usize {
        far() + self.len
    }
    fn read_slice(&self, mem: &mut SimMem, position: usize, slice_len: usize) -> Result<Vec<u8>, BufferError<SimMem>> {
        let far = far();
        if position < far {
            return Err(BufferError::External(mem.lock().fail(3, SimErr::Injected { code: u32::MAX })));
        }
        let position = position - far;
        if self.len < position {
            return Err(BufferError::OutOfRange { position, total_length: self.len });
        }
        if self.len - position < slice_len {
            return Err(BufferError::DataTooShort { position, minimal_length: slice_len });
        }
        mem.lock().delivered += slice_len as u64;
        mem.read(self.start + position, slice_len).map_err(BufferError::External)
    }
    fn limit_length(&self, new_len: usize) -> Result<Self, BufferError<SimMem>> {
        let new_len = new_len.saturating_sub(far());
        if new_len > self.len {
            Err(BufferError::DataTooShort { position: 0, minimal_length: new_len })
        } else {
            Ok(SimBuf { start: self.start, len: new_len })
        }
    }
}

/// Type table on the device: an index of (address, length), then SCALE-encoded
/// type descriptions.
#[derive(Clone, Debug)]
pub struct SimRegistry {
    pub index_at: usize,
    pub count: u32,
    /// Keeps damage during decoding away from listed finding D5.
    pub guard: Option<Arc<Guard>>,
}

#[derive(Debug)]
pub struct Guard {
    /// The table as it was in the beginning.
    base: Vec<Option<Ty>>,
    base_min: Vec<u64>,
    now: Mutex<Now>,
}

#[derive(Debug)]
struct Now {
    version: u64,
    types: Vec<Option<Ty>>,
    /// Judged already.
    known: BTreeMap<u32, bool>,
}

type Ty = Type<PortableForm>;

impl Guard {
    pub fn new(base: Vec<Option<Ty>>, version: u64) -> Self {
        let base_min = (0..base.len()).map(|i| least_size(&base, i as u32)).collect();
        Guard { base_min, now: Mutex::new(Now { version, types: base.clone(), known: BTreeMap::new() }), base }
    }
    /// May the type be given out, in place of what was there?
    fn allows(&self, r: &SimRegistry, id: u32, t: &Ty, d: &Device) -> bool {
        let mut now = self.now.lock().unwrap();
        if now.version != d.version {
            *now = Now { version: d.version, types: r.stored(&d.bytes), known: BTreeMap::new() };
        }
        let i = id as usize;
        let stored = now.types[i].as_ref() == Some(t);
        if stored && now.types == self.base {
            return true;
        }
        if let Some(ok) = now.known.get(&id).filter(|_| stored) {
            return *ok;
        }
        let was = now.types[i].replace(t.clone());
        let ok = !(least_size(&now.types, id) == 0 && self.base_min[i] > 0) && work(&now.types, id) <= WORK;
        now.types[i] = was;
        if stored {
            now.known.insert(id, ok);
        }
        ok
    }
}

/// Nodes visited without taking a byte: more than this is finding D5.
pub const WORK: u64 = 20_000;

/// Number of bytes an item takes at least (only zero or not is meant).
pub fn least_size(types: &[Option<Ty>], id: u32) -> u64 {
    least(types, id, &mut vec![], &mut BTreeMap::new())
}

fn least(types: &[Option<Ty>], id: u32, on: &mut Vec<u32>, known: &mut BTreeMap<u32, u64>) -> u64 {
    use scale_info::TypeDef as D;
    if let Some(n) = known.get(&id) {
        return *n;
    }
    if on.contains(&id) {
        return 0;
    }
    let Some(Some(t)) = types.get(id as usize) else { return 1 };
    on.push(id);
    let n = match &t.type_def {
        D::Composite(c) => c.fields.iter().map(|f| least(types, f.ty.id, on, known)).max().unwrap_or(0),
        D::Tuple(c) => c.fields.iter().map(|f| least(types, f.id, on, known)).max().unwrap_or(0),
        D::Array(a) if a.len == 0 => 0,
        D::Array(a) => least(types, a.type_param.id, on, known),
        D::Variant(v) => !v.variants.is_empty() as u64,
        D::Compact(c) => least(types, c.type_param.id, on, known),
        _ => 1,
    };
    on.pop();
    known.insert(id, n);
    n
}

/// Number of nodes visited between one byte taken and the next, at most.
pub fn work(types: &[Option<Ty>], id: u32) -> u64 {
    fn go(
        types: &[Option<Ty>],
        id: u32,
        on: &mut Vec<u32>,
        known: &mut BTreeMap<u32, u64>,
        sizes: &mut BTreeMap<u32, u64>,
    ) -> u64 {
        use scale_info::TypeDef as D;
        if let Some(n) = known.get(&id) {
            return *n;
        }
        if on.contains(&id) {
            return 1;
        }
        let Some(Some(t)) = types.get(id as usize) else { return 1 };
        on.push(id);
        let mut sum = |ids: Vec<u32>, on: &mut Vec<u32>, sizes: &mut BTreeMap<u32, u64>| {
            let (mut zero, mut other) = (1u64, 0u64);
            for i in ids {
                let w = go(types, i, on, known, sizes);
                if least(types, i, &mut vec![], sizes) == 0 {
                    zero = zero.saturating_add(w);
                } else {
                    other = other.max(w);
                }
            }
            zero.saturating_add(other)
        };
        let n = match &t.type_def {
            D::Composite(c) => sum(c.fields.iter().map(|f| f.ty.id).collect(), on, sizes),
            D::Tuple(c) => sum(c.fields.iter().map(|f| f.id).collect(), on, sizes),
            D::Array(a) => {
                let n = if least(types, a.type_param.id, &mut vec![], sizes) == 0 { a.len as u64 } else { 1 };
                sum(vec![a.type_param.id], on, sizes).saturating_mul(n.max(1))
            }
            D::Sequence(q) if least(types, q.type_param.id, &mut vec![], sizes) == 0 => u64::MAX,
            D::Compact(c) => sum(vec![c.type_param.id], on, sizes),
            _ => 1,
        };
        on.pop();
        known.insert(id, n);
        n
    }
    go(types, id, &mut vec![], &mut BTreeMap::new(), &mut BTreeMap::new())
}

impl SimRegistry {
    /// What the device holds, read without the simulated operation.
    pub fn stored(&self, bytes: &[u8]) -> Vec<Option<Ty>> {
        (0..self.count as usize)
            .map(|i| {
                let e = bytes.get(self.index_at + 8 * i..self.index_at + 8 * i + 8)?;
                let addr = u32::from_le_bytes(e[..4].try_into().unwrap()) as usize;
                let len = u32::from_le_bytes(e[4..].try_into().unwrap()) as usize;
                let mut raw = bytes.get(addr..addr.checked_add(len)?)?;
                <Ty>::decode_all(&mut raw).ok()
            })
            .collect()
    }
}

impl ResolveType<SimMem> for SimRegistry {
    fn resolve_ty(&self, id: u32, mem: &mut SimMem) -> Result<Type<PortableForm>, RegistryError<SimMem>> {
        if id >= self.count {
            return Err(RegistryError::Internal(RegistryInternalError::TypeNotResolved { id }));
        }
        let e = mem.read(self.index_at + 8 * id as usize, 8).map_err(RegistryError::External)?;
        let addr = u32::from_le_bytes(e[..4].try_into().unwrap()) as usize;
        let len = u32::from_le_bytes(e[4..].try_into().unwrap()) as usize;
        let total = mem.lock().bytes.len();
        let bad = |mem: &SimMem| {
            let mut d = mem.lock();
            RegistryError::External(d.fail(6, SimErr::BadRecord { id }))
        };
        if addr > total || len > total - addr {
            return Err(bad(mem));
        }
        let raw = mem.read(addr, len).map_err(RegistryError::External)?;
        match <Type<PortableForm>>::decode_all(&mut &raw[..]) {
            Ok(t) => {
                if let Some(g) = &self.guard {
                    let mut d = mem.lock();
                    if !g.allows(self, id, &t, &d) {
                        return Err(RegistryError::External(d.fail(9, SimErr::Cut { id })));
                    }
                }
                Ok(t)
            }
            Err(_) => Err(bad(mem)),
        }
    }
}

/// Decides which session runs: exactly one at a time, switches only at reads
/// of memory and queries of metadata.
pub struct Sched {
    state: Mutex<SchedState>,
    cv: Condvar,
}

struct SchedState {
    current: usize,
    alive: Vec<bool>,
    step: u32,
    switches: Vec<(u32, u8)>,
    cursor: usize,
    trace: u64,
    taken: u32,
}

impl std::fmt::Debug for Sched {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Sched")
    }
}

/// Sessions turned out to wait for each other outside of the simulator: from
/// then on they run one after another in this process.
pub static SERIAL: AtomicBool = AtomicBool::new(false);
const BLOCKED: Duration = Duration::from_secs(4);

thread_local! {
    static TURN: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

/// Session of this thread.
pub fn session() -> Option<usize> {
    TURN.with(|t| t.borrow().as_ref().map(|x| x.1))
}

/// Possible switch of sessions, if this thread is one.
pub fn yield_here() {
    let t = TURN.with(|t| t.borrow().clone());
    if let Some((s, me)) = t {
        s.yield_point(me);
    }
}

/// This thread is a session for as long as it lives.
pub struct Turn(Arc<Sched>, usize);

impl Turn {
    pub fn take(s: &Arc<Sched>, me: usize) -> Self {
        TURN.with(|t| *t.borrow_mut() = Some((s.clone(), me)));
        s.start(me);
        Turn(s.clone(), me)
    }
}

impl Drop for Turn {
    fn drop(&mut self) {
        TURN.with(|t| *t.borrow_mut() = None);
        self.0.finish(self.1);
    }
}

impl Sched {
    /// `switches`: at yield step `.0` move on to the `.1`-th live session.
    pub fn new(sessions: usize, switches: &[(u32, u8)]) -> Self {
        Sched {
            state: Mutex::new(SchedState {
                current: 0,
                alive: vec![true; sessions],
                step: 0,
                switches: if SERIAL.load(Ordering::SeqCst) { vec![] } else { switches.to_vec() },
                cursor: 0,
                trace: 0,
                taken: 0,
            }),
            cv: Condvar::new(),
        }
    }
    fn wait_turn<'a>(&'a self, mut g: MutexGuard<'a, SchedState>, me: usize) {
        let mut seen = (g.step, g.current);
        while g.current != me {
            let (h, t) = self.cv.wait_timeout(g, BLOCKED).unwrap();
            g = h;
            if t.timed_out() && g.current != me && (g.step, g.current) == seen && !SERIAL.load(Ordering::SeqCst) {
                // the session whose turn it is waits for one that sleeps here
                SERIAL.store(true, Ordering::SeqCst);
                g.switches.clear();
            }
            if SERIAL.load(Ordering::SeqCst) && g.switches.is_empty() && t.timed_out() && (g.step, g.current) == seen {
                g.current = me;
                self.cv.notify_all();
            }
            seen = (g.step, g.current);
        }
    }
    fn start(&self, me: usize) {
        let g = self.state.lock().unwrap();
        self.wait_turn(g, me);
    }
    pub fn yield_point(&self, me: usize) {
        let mut g = self.state.lock().unwrap();
        if g.current != me {
            // comes back from waiting outside
            return self.wait_turn(g, me);
        }
        let step = g.step;
        g.step += 1;
        while g.cursor < g.switches.len() && g.switches[g.cursor].0 < step {
            g.cursor += 1;
        }
        if g.cursor < g.switches.len() && g.switches[g.cursor].0 == step {
            let want = g.switches[g.cursor].1 as usize;
            g.cursor += 1;
            let live: Vec<usize> = (0..g.alive.len()).filter(|i| g.alive[*i]).collect();
            let next = live[want % live.len()];
            if next != me {
                g.current = next;
                g.taken += 1;
                g.trace = fnv(g.trace, &[me as u8, next as u8]);
                g.trace = fnv(g.trace, &step.to_le_bytes());
                self.cv.notify_all();
                self.wait_turn(g, me);
            }
        }
    }
    fn finish(&self, me: usize) {
        let mut g = self.state.lock().unwrap();
        g.alive[me] = false;
        if g.current == me {
            if let Some(n) = (0..g.alive.len()).find(|i| g.alive[*i]) {
                g.current = n;
            }
        }
        let step = g.step;
        g.trace = fnv(g.trace, &[me as u8, 0xff]);
        g.trace = fnv(g.trace, &step.to_le_bytes());
        self.cv.notify_all();
    }
    /// Digest of the interleaving, number of switches, and number of steps.
    pub fn summary(&self) -> (u64, u32, u32) {
        let g = self.state.lock().unwrap();
        (g.trace, g.taken, g.step)
    }
}
