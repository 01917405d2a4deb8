//! Running batches: worker processes, merging, reporting, replaying.
use crate::alloc;
use crate::findings;
use crate::mem::FAULT_NAMES;
use crate::minimise;
use crate::ops::{guarded, quiet_panics, Outcome, Scenario, Val};
use crate::prng::Rng;
use crate::props::common::{describe, Stats, Violation};
use crate::props::{self, Prop};
use parity_scale_codec::{Decode, Encode};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Without a sign of life for so long a run counts as not terminating.
/// A single operation does not take that much processor time ...
pub const STALL: Duration = Duration::from_secs(20);
/// ... and does not stand still for so many times that long.
const STILL: u32 = 6;
pub const MEMORY: usize = 2_500_000_000;

pub fn scenario(p: &Prop, seed: u64, index: u64) -> Scenario {
    (p.gen)(Rng::for_run(seed, p.id, index), index)
}

/// Judge one scenario, in this process.
pub fn judge(p: &Prop, scn: &Scenario, st: &mut Stats) -> Result<(), Violation> {
    let mut out = Ok(());
    let o = guarded(|| {
        out = (p.run)(scn, st);
        Outcome::Done { val: Val::Many(vec![]), end: None }
    });
    if let Outcome::Panic(m) = o {
        // panics of the code under test are caught closer; this is the harness
        eprintln!("harness: panic outside of operations: {m}");
        std::process::exit(2);
    }
    out
}

/// Runs of this property lead to endless recursion when they find something.
fn stack_for(prop: &str) -> usize {
    if prop == "C11" {
        512 << 20
    } else {
        3 << 30
    }
}

pub fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    on_stack(3 << 30, f)
}

fn on_stack<T: Send + 'static>(size: usize, f: impl FnOnce() -> T + Send + 'static) -> T {
    let b = std::thread::Builder::new().stack_size(size);
    b.spawn(f).expect("thread").join().unwrap_or_else(|_| std::process::exit(2))
}

#[derive(Clone, Debug, Encode, Decode)]
pub struct Found {
    pub index: u64,
    pub v: Violation,
}

fn say(line: &str) {
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(line.as_bytes());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}

static RUN: AtomicU64 = AtomicU64::new(0);
static BEAT: Mutex<Option<Instant>> = Mutex::new(None);

/// The run begins.
fn begin(i: u64) {
    RUN.store(i, Ordering::Relaxed);
    *BEAT.lock().unwrap() = Some(Instant::now());
    say(&format!("R {i}"));
}

/// An operation has ended: now and then a sign of life, in long runs.
pub fn beat() {
    let mut b = BEAT.lock().unwrap();
    if let Some(t) = *b {
        if t.elapsed() > Duration::from_secs(1) {
            *b = Some(Instant::now());
            say(&format!("R {}", RUN.load(Ordering::Relaxed)));
        }
    }
}

extern "C" {
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
}

/// Sessions take turns, so that one processor serves them best.
fn one_processor(n: u64) {
    let mut mask = [0u64; 16];
    if unsafe { sched_getaffinity(0, 128, mask.as_mut_ptr()) } <= 0 {
        return;
    }
    let all: Vec<usize> = (0..1024).filter(|i| mask[i / 64] >> (i % 64) & 1 == 1).collect();
    if all.is_empty() {
        return;
    }
    let i = all[n as usize % all.len()];
    let mut one = [0u64; 16];
    one[i / 64] = 1 << (i % 64);
    unsafe { sched_setaffinity(0, 128, one.as_ptr()) };
}

fn worker(p: Prop, seed: u64, from: u64, to: u64) -> i32 {
    quiet_panics();
    if p.id == "C10" {
        one_processor(from / p.chunk);
    }
    alloc::LIMIT.store(MEMORY, Ordering::Relaxed);
    on_stack(stack_for(p.id), move || {
        let mut st = Stats::default();
        for i in from..to {
            begin(i);
            let scn = scenario(&p, seed, i);
            st.runs += 1;
            if st.samples.len() < 2 && i % 7 == 3 {
                st.samples.push(format!("run {i}: {}", describe(&scn)));
            }
            if let Err(v) = judge(&p, &scn, &mut st) {
                say(&format!("V {}", hex::encode(Found { index: i, v }.encode())));
                break;
            }
        }
        say(&format!("S {}", hex::encode(st.encode())));
    });
    0
}

pub enum End {
    Done(Box<Stats>, Option<Found>),
    /// Died or stalled in this run.
    Died { index: u64, how: &'static str },
    Harness(String),
}

pub fn me() -> std::path::PathBuf {
    std::env::current_exe().expect("own path")
}

/// Processor time of a child process in ms.
fn used(pid: u32) -> u64 {
    let text = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let ticks: u64 =
        text.rsplit(") ").next().unwrap_or("").split(' ').skip(11).take(2).filter_map(|t| t.parse::<u64>().ok()).sum();
    ticks * 10
}

/// Run a child and follow its output; `Err` on death.
fn follow(mut c: Command, input: Option<Vec<u8>>, stall: Duration) -> (Vec<String>, Result<i32, &'static str>) {
    c.stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped());
    let mut child = c.spawn().expect("child process");
    if let Some(b) = input {
        let mut i = child.stdin.take().unwrap();
        std::thread::spawn(move || {
            let _ = i.write_all(&b);
        });
    }
    let out = child.stdout.take().unwrap();
    let pid = child.id();
    let child = Arc::new(Mutex::new(child));
    let last = Arc::new(AtomicU64::new(0));
    let last_used = Arc::new(AtomicU64::new(0));
    let over = Arc::new(AtomicBool::new(false));
    let stalled = Arc::new(AtomicBool::new(false));
    let t0 = Instant::now();
    let dog = {
        let (child, last, over, stalled) = (child.clone(), last.clone(), over.clone(), stalled.clone());
        let last_used = last_used.clone();
        std::thread::spawn(move || {
            while !over.load(Ordering::SeqCst) {
                std::thread::park_timeout(Duration::from_millis(500));
                let idle = t0.elapsed().as_millis() as u64 - last.load(Ordering::SeqCst).min(t0.elapsed().as_millis() as u64);
                let used = used(pid).saturating_sub(last_used.load(Ordering::SeqCst));
                let limit = stall.as_millis() as u64;
                if !over.load(Ordering::SeqCst) && (used > limit || idle > limit * STILL as u64) {
                    stalled.store(true, Ordering::SeqCst);
                    let _ = child.lock().unwrap().kill();
                    return;
                }
            }
        })
    };
    let mut lines = Vec::new();
    let mut running = String::new();
    let mut stamp = 0;
    for l in BufReader::new(out).lines() {
        let Ok(l) = l else { break };
        let now = t0.elapsed().as_millis() as u64;
        // reading it is not free: once in a while is enough
        if now > stamp + 500 {
            stamp = now;
            last_used.store(used(pid), Ordering::SeqCst);
        }
        last.store(now, Ordering::SeqCst);
        if l.starts_with("R ") {
            running = l;
        } else {
            lines.push(l);
        }
    }
    over.store(true, Ordering::SeqCst);
    dog.thread().unpark();
    let status = child.lock().unwrap().wait().expect("child status");
    let _ = dog.join();
    lines.insert(0, running);
    if stalled.load(Ordering::SeqCst) {
        return (lines, Err("does not terminate"));
    }
    match status.code() {
        Some(alloc::OVER) => (lines, Err("uses unlimited memory")),
        Some(c) => (lines, Ok(c)),
        None => (lines, Err("process died")),
    }
}

fn run_chunk(p: &Prop, seed: u64, from: u64, to: u64) -> End {
    let mut c = Command::new(me());
    c.args(["worker", p.id, &seed.to_string(), &from.to_string(), &to.to_string()]);
    let (lines, end) = follow(c, None, STALL);
    let index = lines[0].get(2..).and_then(|s| s.parse().ok()).unwrap_or(from);
    match end {
        Err(how) => End::Died { index, how },
        Ok(0) => {
            let mut st = None;
            let mut found = None;
            for l in &lines[1..] {
                let (k, v) = l.split_at(2.min(l.len()));
                let raw = hex::decode(v.trim()).unwrap_or_default();
                match k {
                    "S " => st = Stats::decode(&mut &raw[..]).ok(),
                    "V " => found = Found::decode(&mut &raw[..]).ok(),
                    _ => (),
                }
            }
            match st {
                Some(s) => End::Done(Box::new(s), found),
                None => End::Harness("worker gave no statistics".into()),
            }
        }
        Ok(c) => End::Harness(format!("worker ended with {c} in run {index}")),
    }
}

/// Judge a scenario in a process of its own, after those preceding it: its
/// violation, and the digest of all events.
pub fn judge_apart(scns: &[Scenario], stall: Duration) -> Result<(Option<Violation>, u64), String> {
    let mut c = Command::new(me());
    c.args(["judge"]);
    if std::env::var_os("SIM_PANICS").is_none() {
        // a process that dies says so itself
        c.stderr(Stdio::null());
    }
    let (lines, end) = follow(c, Some(scns.to_vec().encode()), stall);
    match end {
        Err(how) => Ok((Some(Violation { class: how.into(), msg: format!("the run {how}"), narrow: None }), 0)),
        Ok(0) => {
            for l in &lines[1..] {
                if let Some(h) = l.strip_prefix("J ") {
                    let raw = hex::decode(h).unwrap_or_default();
                    return <(Option<Violation>, u64)>::decode(&mut &raw[..]).map_err(|e| e.to_string());
                }
            }
            Err("no judgement".into())
        }
        Ok(c) => Err(format!("judging ended with {c}")),
    }
}

fn judge_stdin() -> i32 {
    quiet_panics();
    alloc::LIMIT.store(MEMORY, Ordering::Relaxed);
    let mut raw = Vec::new();
    if std::io::stdin().read_to_end(&mut raw).is_err() {
        return 2;
    }
    let Ok(scns) = <Vec<Scenario>>::decode(&mut &raw[..]) else { return 2 };
    on_stack(scns.first().map_or(0, |s| stack_for(&s.prop)), move || {
        let mut st = Stats::default();
        let mut v = None;
        for (i, scn) in scns.iter().enumerate() {
            begin(i as u64);
            let Some(p) = props::find(&scn.prop) else { return 2 };
            v = judge(&p, scn, &mut st).err();
        }
        say(&format!("J {}", hex::encode((v, st.digest).encode())));
        0
    })
}

fn replay_text(p: &Prop, seed: u64, index: u64, v: &Violation, digest: u64, scns: &[Scenario]) -> String {
    let scn = scns.last().expect("scenario");
    let raw: Vec<String> = scns.iter().map(|s| format!("scenario {}\n", hex::encode(s.encode()))).collect();
    let line = |s: &str| s.replace('\n', " ");
    format!(
        "# substrate-parser simulation replay; run with: bash /verif/check.sh replay <this file>\n\
         property {}\nseed {seed}\nrun {index}\nclass {}\ndigest {digest:016x}\n\
         # what: {}\n# scenario: {}\n# operations: {}\n# plan: {}\n{}",
        p.id,
        line(&v.class),
        line(&v.msg),
        line(&describe(scn)),
        line(&crate::ops::brief(&scn.ops)),
        line(&crate::ops::brief(&scn.plan)),
        raw.concat()
    )
}

fn replay(path: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("can not read {path}");
        return 2;
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string());
    let Some(class) = get("class ") else {
        eprintln!("not a replay file");
        return 2;
    };
    let mut scns = vec![];
    for h in text.lines().filter_map(|l| l.strip_prefix("scenario ")) {
        match hex::decode(h.trim()).ok().and_then(|raw| Scenario::decode(&mut &raw[..]).ok()) {
            Some(s) => scns.push(s),
            None => {
                eprintln!("replay file of another version");
                return 2;
            }
        }
    }
    let Some(prop) = scns.last().map(|s| s.prop.clone()) else { return 2 };
    match judge_apart(&scns, STALL) {
        Ok((Some(v), d)) => {
            println!("class {}\ndigest {d:016x}\n{}", v.class, v.msg);
            let same = v.class == class && get("digest ").as_deref() == Some(&format!("{d:016x}"));
            println!("{}", if same { "reproduced exactly" } else { "fails, but not as recorded" });
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        Ok((None, _)) => {
            println!("no violation");
            0
        }
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}

fn opt<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| &s[..])
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn obj<V: std::fmt::Display>(m: &BTreeMap<String, V>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect();
    format!("{{{}}}", v.join(", "))
}

struct Outcomes {
    stats: Stats,
    found: Option<(Found, Scenario)>,
    wall: f64,
}

const REAL_PARTS: &str = "real: every substrate_parser code path reached from the public decoding functions, the card and \
    text output, the V14/V15 metadata implementations of its traits; scale-info, parity-scale-codec, frame-metadata";
const STUB_PARTS: &str = "simulated: external memory device (data and type table), device error type, metadata source of \
    device-resident tables, session scheduler, clock (ticks per read)";

fn evidence(p: &Prop, seed: u64, tier: &str, o: &Outcomes, violations: u64, known: &[String]) -> String {
    let s = &o.stats;
    let mut faults = BTreeMap::new();
    for (i, n) in FAULT_NAMES.iter().enumerate() {
        faults.insert(n.to_string(), s.fired[i]);
    }
    faults.insert("metadata_source_failure".into(), s.meta_fired);
    let hours = o.wall.max(0.001) / 3600.0;
    let mut cov: BTreeMap<String, String> = BTreeMap::new();
    cov.insert("evaluations".into(), s.execs.to_string());
    cov.insert("distinct_nontrivial".into(), s.nontrivial.len().to_string());
    cov.insert("rule".into(), esc(p.rule));
    let samples: Vec<String> = s.samples.iter().map(|x| esc(x)).collect();
    cov.insert("samples".into(), format!("[{}]", samples.join(", ")));
    cov.insert("simulated_runs".into(), s.runs.to_string());
    cov.insert("judgements".into(), s.checks.to_string());
    cov.insert("runs_per_hour".into(), format!("{:.0}", s.runs as f64 / hours));
    cov.insert("seeds_per_hour".into(), format!("{:.0}", s.runs as f64 / hours));
    cov.insert("device_reads".into(), s.reads.to_string());
    cov.insert("simulated_time_ticks".into(), s.ticks.to_string());
    cov.insert("faults_injected".into(), obj(&faults));
    cov.insert("distinct_executions".into(), s.traces.len().to_string());
    cov.insert(
        "distinct_executions_measure".into(),
        esc("hash over the sequence of (session, address, length) of all reads, errors returned, bytes rewritten, operation and its outcome"),
    );
    if !s.schedules.is_empty() {
        cov.insert("distinct_interleavings".into(), s.schedules.len().to_string());
        cov.insert(
            "distinct_interleavings_measure".into(),
            esc("hash over the sequence of (step, from, to) of all switches between sessions and the steps at which sessions end"),
        );
        cov.insert("switches_between_sessions".into(), s.switches.to_string());
    }
    cov.insert("operations".into(), obj(&s.ops));
    cov.insert("metadata".into(), obj(&s.metas));
    cov.insert("probes".into(), obj(&s.probes));
    let mut classes: Vec<(&String, &u64)> = s.classes.iter().collect();
    classes.sort_by(|a, b| b.1.cmp(a.1).then(a.0.cmp(b.0)));
    let top: BTreeMap<String, u64> = classes.into_iter().take(40).map(|(k, v)| (k.clone(), *v)).collect();
    cov.insert("outcome_classes".into(), s.classes.len().to_string());
    cov.insert("most_frequent_outcomes".into(), obj(&top));
    cov.insert("event_digest".into(), esc(&format!("{:016x}", s.digest)));
    cov.insert("known_findings_met".into(), obj(&s.known));
    let k: Vec<String> = known.iter().map(|x| esc(x)).collect();
    cov.insert("known_findings".into(), format!("[{}]", k.join(", ")));
    cov.insert("components".into(), format!("[{}, {}]", esc(REAL_PARTS), esc(STUB_PARTS)));
    format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\", \"coverage\": {}, \
         \"assumptions\": [{}, {}], \"wall_s\": {:.2}, \"violations\": {violations}}}\n",
        esc(p.id),
        esc(tier),
        obj(&cov),
        esc("the simulated device keeps the AddressableBuffer contract: exact reads or an error"),
        esc("sampling: what was not generated was not checked"),
        o.wall
    )
}

/// All runs of a batch; stops at the violation of the lowest number.
fn batch(p: Prop, seed: u64, runs: u64, jobs: usize, deadline: Duration) -> Result<Outcomes, String> {
    let t0 = Instant::now();
    let chunks = runs.div_ceil(p.chunk);
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let done: Mutex<BTreeMap<u64, Stats>> = Default::default();
    let found: Mutex<BTreeMap<u64, Found>> = Default::default();
    let harness: Mutex<Vec<String>> = Default::default();
    std::thread::scope(|s| {
        for _ in 0..jobs {
            let b = std::thread::Builder::new().stack_size(1 << 30);
            let _ = b.spawn_scoped(s, || loop {
                let c = next.fetch_add(1, Ordering::SeqCst);
                if c >= chunks || c > stop_at.load(Ordering::SeqCst) || t0.elapsed() > deadline {
                    return;
                }
                let mut from = c * p.chunk;
                let to = (from + p.chunk).min(runs);
                while from < to {
                    match run_chunk(&p, seed, from, to) {
                        End::Done(st, f) => {
                            let mut g = done.lock().unwrap();
                            match g.get_mut(&c) {
                                Some(x) => x.merge(*st),
                                None => {
                                    g.insert(c, *st);
                                }
                            }
                            drop(g);
                            if let Some(f) = f {
                                found.lock().unwrap().insert(f.index, f);
                                stop_at.fetch_min(c, Ordering::SeqCst);
                            }
                            break;
                        }
                        End::Died { index, how } => {
                            let scn = scenario(&p, seed, index);
                            if let Some(k) = findings::attributed(&scn, how) {
                                // a listed finding: go on after it
                                let mut g = done.lock().unwrap();
                                g.entry(c).or_default().known(k);
                                from = index + 1;
                                continue;
                            }
                            let v = Violation {
                                class: how.into(),
                                msg: format!("the run {how}"),
                                narrow: None,
                            };
                            found.lock().unwrap().insert(index, Found { index, v });
                            stop_at.fetch_min(c, Ordering::SeqCst);
                            break;
                        }
                        End::Harness(e) => {
                            harness.lock().unwrap().push(e);
                            stop_at.fetch_min(c, Ordering::SeqCst);
                            break;
                        }
                    }
                }
            }).expect("thread");
        }
    });
    if let Some(e) = harness.into_inner().unwrap().pop() {
        return Err(e);
    }
    let mut stats = Stats::default();
    for (_, s) in done.into_inner().unwrap() {
        stats.merge(s);
    }
    let found = found.into_inner().unwrap().into_iter().next().map(|(i, f)| {
        let scn = scenario(&p, seed, i);
        (f, scn)
    });
    Ok(Outcomes { stats, found, wall: t0.elapsed().as_secs_f64() })
}

fn check(p: Prop, args: &[String]) -> i32 {
    let seed: u64 = opt(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = opt(args, "--tier").unwrap_or("quick").to_string();
    let jobs: usize = opt(args, "--jobs").and_then(|s| s.parse().ok()).unwrap_or(8);
    let runs = opt(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    let deadline = Duration::from_secs(opt(args, "--deadline").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX / 4));
    let root = opt(args, "--root").unwrap_or("/verif").to_string();
    println!("property {} tier {tier} seed {seed} runs {runs}", p.id);
    let write_evidence = |o: &Outcomes, violations: u64, known: &[String]| {
        let dir = format!("{root}/evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(format!("{dir}/{}.json", p.id), evidence(&p, seed, &tier, o, violations, known)) {
            eprintln!("evidence: {e}");
        }
    };
    let o = match batch(p, seed, runs, jobs, deadline) {
        Ok(o) => o,
        Err(e) => {
            eprintln!("harness error: {e}");
            return 2;
        }
    };
    println!(
        "{} runs, {} executions, {} distinct, {} reads, {:.1} s, digest {:016x}",
        o.stats.runs,
        o.stats.execs,
        o.stats.traces.len(),
        o.stats.reads,
        o.wall,
        o.stats.digest
    );
    // listed findings, probed again
    let mut known = vec![];
    let mut bad: Option<(Violation, Scenario, u64)> = None;
    for f in findings::of(p.id) {
        match judge_apart(&[f.scenario.clone()], STALL) {
            Ok((Some(v), _)) if f.is(&v) => {
                if findings::listed(f.key) {
                    println!("KNOWN-FINDING: property={} {}", p.id, f.what);
                    known.push(f.what.to_string());
                } else {
                    bad = Some((v, f.scenario.clone(), u64::MAX));
                }
            }
            Ok((Some(v), _)) => bad = Some((v, f.scenario.clone(), u64::MAX)),
            Ok((None, _)) => println!("finding {} no longer fails", f.key),
            Err(e) => {
                eprintln!("harness error: finding {}: {e}", f.key);
                return 2;
            }
        }
    }
    if let Some((f, scn)) = &o.found {
        bad = Some((f.v.clone(), scn.clone(), f.index));
    }
    let Some((v, scn, index)) = bad else {
        write_evidence(&o, 0, &known);
        return 0;
    };
    println!("run {index} fails: {}: {}", v.class, v.msg);
    let mut before = vec![];
    match judge_apart(&[scn.clone()], STALL) {
        Ok((Some(_), _)) => (),
        Ok((None, _)) => {
            // what earlier runs of the same process left behind matters
            println!("alone in a fresh process it does not fail; taking the preceding runs along");
            before = (index - index % p.chunk..index).map(|i| scenario(&p, seed, i)).collect();
        }
        Err(e) => {
            eprintln!("harness error: {e}");
            return 2;
        }
    };
    let Some((min, v, digest)) = minimise::minimise(before, &scn) else {
        eprintln!("harness error: run {index} is not repeatable");
        return 2;
    };
    let dir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{seed}-{}.txt", p.id, if index == u64::MAX { "finding".to_string() } else { index.to_string() });
    if let Err(e) = std::fs::write(&path, replay_text(&p, seed, index, &v, digest, &min)) {
        eprintln!("harness error: {path}: {e}");
        return 2;
    }
    let again: Vec<bool> = (0..2)
        .map(|_| matches!(judge_apart(&min, STALL), Ok((Some(x), d)) if x.class == v.class && d == digest))
        .collect();
    println!("minimised: {}: {}", v.class, v.msg);
    println!("{}", describe(min.last().unwrap()));
    println!("replayed twice, same violation and events: {again:?}");
    write_evidence(&o, 1, &known);
    println!("VIOLATION property={} replay={path}", p.id);
    1
}

pub fn main(args: &[String]) -> i32 {
    let a: Vec<&str> = args.iter().map(|s| &s[..]).collect();
    match a[..] {
        ["check", id, ..] => match props::find(id) {
            Some(p) => {
                let args = args.to_vec();
                big_stack(move || check(p, &args))
            }
            None => {
                eprintln!("no property {id}");
                2
            }
        },
        ["worker", id, seed, from, to] => {
            let n = |s: &str| s.parse::<u64>().expect("number");
            worker(props::find(id).expect("property"), n(seed), n(from), n(to))
        }
        ["judge"] => judge_stdin(),
        ["solo"] => crate::solo::serve(),
        ["replay", path] => replay(path),
        ["one", id, seed, index] => {
            let p = props::find(id).expect("property");
            let scn = scenario(&p, seed.parse().unwrap(), index.parse().unwrap());
            println!("{}", describe(&scn));
            println!("{:#?}", scn.ops);
            println!("{:#?}", scn.plan);
            match judge_apart(&[scn], STALL) {
                Ok((v, d)) => println!("{:?}\ndigest {d:016x}", v.map(|v| (v.class, v.msg))),
                Err(e) => println!("harness: {e}"),
            }
            0
        }
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check <property> [--seed N] [--tier quick|thorough] | replay <file> | one <property> <seed> <run>");
            2
        }
    }
}
