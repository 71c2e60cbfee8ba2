//! One simulated run in this process.

use crate::{core, props, sched, seam};
use std::collections::BTreeSet;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Mutex;

static LISTED: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
static PANIC_AT: Mutex<Option<String>> = Mutex::new(None);
static THOROUGH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn thorough() -> bool {
    THOROUGH.load(SeqCst)
}
/// A violation that counts as a known finding if the committed file lists `key`.
pub fn finding(key: &str, class: &str, detail: String) {
    if LISTED.lock().unwrap().contains(key) {
        core::known_finding(key);
    } else {
        core::violation(format!("{class}:{key}"), detail);
    }
}
pub fn last_panic_place() -> String {
    PANIC_AT.lock().unwrap().clone().unwrap_or_default()
}

/// Silence: the code under test prints a lot.
pub fn redirect() -> std::fs::File {
    unsafe {
        let fd = libc::dup(1);
        libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::dup2(null, 2);
        libc::close(null);
        std::fs::File::from_raw_fd(fd)
    }
}
pub fn panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("ZKPSIM_DEBUG").is_ok() {
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open("/tmp/zkpsim.debug") {
                let _ = writeln!(f, "{i}");
            }
        }
        if let Ok(mut g) = PANIC_AT.try_lock() {
            *g = Some(at);
        }
    }));
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " ")
}

pub fn main() -> ! {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let mut prop = String::new();
    let (mut replay, mut seed, mut tape, mut want_trace) = (false, 0u64, vec![], false);
    for line in text.lines() {
        let (k, v) = line.split_once(' ').unwrap_or((line, ""));
        match k {
            "prop" => prop = v.to_string(),
            "seed" => seed = v.parse().unwrap(),
            "replay" => {
                replay = true;
                tape = v.split_whitespace().map(|x| x.parse().unwrap()).collect();
            }
            "trace" => want_trace = true,
            "listed" => {
                LISTED.lock().unwrap().insert(v.to_string());
            }
            "thorough" => THOROUGH.store(true, SeqCst),
            _ => {}
        }
    }
    let mut out = redirect();
    panic_hook();
    core::start(replay, seed, tape);
    let ent = core::draw(1 << 40);
    seam::set_ent(seam::ent(core::combine(ent, 0xd217)));
    seam::ACTIVE.store(true, SeqCst);
    let r = core::guard(|| props::run(&prop, ent));
    sched::YIELD_RATE.store(0, SeqCst);
    seam::enter_harness();
    core::fault_n("entropy:EINTR", seam::N_EINTR.load(SeqCst));
    core::fault_n("entropy:short-read", seam::N_SHORT.load(SeqCst));
    core::fault_n("entropy:unavailable", seam::N_FAIL.load(SeqCst));
    if let Err(e) = r {
        let at = last_panic_place();
        if at.starts_with("src/") || at.contains("/verif/sim/") {
            core::with(|c| c.violation = Some(("HARNESS".into(), format!("{e} at {at}"))));
        } else {
            core::violation("panic-in-setup", format!("{e} at {at}"));
        }
    }
    let c = core::finish();
    let mut o = String::new();
    if let Some((class, detail)) = &c.violation {
        o += &format!("violation\t{}\t{}\n", esc(class), esc(detail));
    }
    for (k, n) in &c.known {
        o += &format!("known\t{}\t{n}\n", esc(k));
    }
    for (k, n) in &c.faults {
        o += &format!("fault\t{}\t{n}\n", esc(k));
    }
    for (k, n) in &c.probes {
        o += &format!("probe\t{}\t{n}\n", esc(k));
    }
    o += &format!("stat\t{}\t{}\t{}\t{}\t{}\n", c.trace_hash, c.events, c.now, c.verdicts, c.overflow as u8);
    o += &format!("key\t{}\n", esc(&c.key));
    let t: Vec<String> = c.tape.iter().map(|x| x.to_string()).collect();
    o += &format!("tape\t{}\n", t.join(" "));
    if want_trace {
        for t in &c.trace {
            o += &format!("trace\t{}\n", esc(t));
        }
    }
    o += "end\n";
    let _ = out.write_all(o.as_bytes());
    let _ = out.flush();
    unsafe { libc::_exit(0) }
}
