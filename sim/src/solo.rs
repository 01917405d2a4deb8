//! Operations alone in a fresh process. The server itself never runs the code
//! under test; every operation is run in a fork of it.
use crate::alloc;
use crate::driver::{big_stack, me, MEMORY};
use crate::ops::{quiet_panics, Scenario};
use crate::props::c10;
use parity_scale_codec::{Decode, Encode};
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::Ordering;
use std::sync::Mutex;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}

/// Digest and beginning of the text of an outcome.
pub type Answer = (u64, String);

fn put(o: &mut impl Write, b: &[u8]) -> bool {
    let mut f = (b.len() as u32).to_le_bytes().to_vec();
    f.extend_from_slice(b);
    o.write_all(&f).is_ok() && o.flush().is_ok()
}

fn get(i: &mut impl Read) -> Option<Vec<u8>> {
    let mut n = [0; 4];
    i.read_exact(&mut n).ok()?;
    let mut b = vec![0; u32::from_le_bytes(n) as usize];
    i.read_exact(&mut b).ok()?;
    Some(b)
}

pub fn serve() -> i32 {
    quiet_panics();
    alloc::LIMIT.store(MEMORY, Ordering::Relaxed);
    big_stack(|| {
        let mut i = std::io::stdin().lock();
        while let Some(raw) = get(&mut i) {
            let Ok(scn) = Scenario::decode(&mut &raw[..]) else { return 2 };
            let same = c10::same_as(&scn);
            let set = c10::Set::new(&scn);
            for k in (0..scn.ops.len()).filter(|k| same[*k] == *k) {
                let pid = unsafe { fork() };
                if pid == 0 {
                    let a = set.alone(k);
                    let ok = put(&mut std::io::stdout().lock(), &a.encode());
                    unsafe { _exit(if ok { 0 } else { 3 }) }
                }
                let mut status = 0;
                if pid < 0 || unsafe { waitpid(pid, &mut status, 0) } != pid {
                    return 2;
                }
                if status != 0 {
                    let a: Answer = (1, "the process died".into());
                    put(&mut std::io::stdout().lock(), &a.encode());
                }
            }
        }
        0
    })
}

struct Server {
    _child: Child,
    i: ChildStdin,
    o: ChildStdout,
}

static SERVER: Mutex<Option<Server>> = Mutex::new(None);

/// What each operation of the scenario gives when run alone.
pub fn answers(scn: &Scenario) -> Vec<Answer> {
    let mut g = SERVER.lock().unwrap();
    let s = g.get_or_insert_with(|| {
        let mut c = Command::new(me());
        let mut child = c.arg("solo").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("solo process");
        let i = child.stdin.take().unwrap();
        let o = child.stdout.take().unwrap();
        Server { _child: child, i, o }
    });
    if !put(&mut s.i, &scn.encode()) {
        panic!("solo process is gone");
    }
    let same = c10::same_as(scn);
    let mut out: Vec<Answer> = vec![];
    for (k, i) in same.into_iter().enumerate() {
        if i < k {
            out.push(out[i].clone());
        } else {
            let raw = get(&mut s.o).expect("solo process is gone");
            out.push(Answer::decode(&mut &raw[..]).expect("answer of the solo process"));
        }
    }
    out
}
