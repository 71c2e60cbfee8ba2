//! Discrete-event scheduler. Code of the repository runs in tasks: real threads of which exactly
//! one runs at a time. A task gives up control only at yield points, which sit in seams inside the
//! repository's own call graph (hash finalisation, entropy requests, ...). When it continues, and
//! what happens in between, is decided by the tape.

use crate::core::{self, draw};
use crate::seam::{self, Ent};
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};

/// One in N yield points suspends the task. 0 = never.
pub static YIELD_RATE: AtomicU64 = AtomicU64::new(0);
pub static MAX_DELAY: AtomicU64 = AtomicU64::new(20);

struct CrashToken;

#[derive(PartialEq, Clone, Copy)]
enum Turn {
    Driver,
    Task,
}
struct State {
    turn: Turn,
    kill: bool,
    delay: u64,
    finished: bool,
    result: Option<Result<Box<dyn Any + Send>, Fail>>,
}
struct Shared {
    m: Mutex<State>,
    cv: Condvar,
}
#[derive(Debug, Clone)]
pub enum Fail {
    Crashed,
    Panicked(String),
}
thread_local! {
    static CURRENT: RefCell<Option<Arc<Shared>>> = const { RefCell::new(None) };
}

fn current() -> Option<Arc<Shared>> {
    CURRENT.with(|c| c.try_borrow().ok().and_then(|c| c.clone()))
}

/// Hands control to the driver; true if the party has been crashed meanwhile.
fn give_up(sh: &Arc<Shared>, delay: u64) -> bool {
    let was = seam::enter_harness();
    let kill = {
        let mut g = sh.m.lock().unwrap();
        g.delay = delay;
        g.turn = Turn::Driver;
        sh.cv.notify_all();
        while g.turn != Turn::Task {
            g = sh.cv.wait(g).unwrap();
        }
        g.kill
    };
    seam::leave_harness(was);
    kill
}

/// A place where the running party may be suspended, or die.
pub fn yield_point(site: &str) {
    if pause(site) && !std::thread::panicking() {
        resume_unwind(Box::new(CrashToken));
    }
}
/// A place where the running party may be suspended but not die (below C code).
pub fn yield_only(site: &str) {
    pause(site);
}
fn pause(site: &str) -> bool {
    let Some(sh) = current() else { return false };
    if std::thread::panicking() {
        return false;
    }
    if killed(&sh) {
        return true;
    }
    let rate = YIELD_RATE.load(SeqCst);
    if rate == 0 || !core::chance(1, rate) {
        return false;
    }
    let d = 1 + draw(MAX_DELAY.load(SeqCst));
    core::probe(&format!("yield:{site}"));
    give_up(&sh, d)
}
/// Catches a panic of the code under test inside a task, but not the task's own death.
pub fn guard_in_task<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) if e.is::<CrashToken>() => resume_unwind(e),
        Err(e) => Err(core::panic_text(&e)),
    }
}
fn killed(sh: &Arc<Shared>) -> bool {
    let was = seam::enter_harness();
    let k = sh.m.lock().unwrap().kill;
    seam::leave_harness(was);
    k
}
/// The party cannot go on (it waits for a lock): always gives up control. False outside tasks.
pub fn must_yield(site: &str) -> bool {
    let Some(sh) = current() else { return false };
    core::probe(&format!("yield:{site}"));
    give_up(&sh, 1);
    true
}

type Ev<W> = Box<dyn FnOnce(&mut Sim<W>)>;
type TaskEnd<W> = Box<dyn FnOnce(&mut Sim<W>, Result<Box<dyn Any + Send>, Fail>)>;

type Work = Box<dyn FnOnce() + Send>;
/// A thread of a node. It serves one task after another, so that what the code under test keeps
/// per thread lives on; it ends when the node crashes.
struct Worker {
    tx: std::sync::mpsc::Sender<Work>,
    join: std::thread::JoinHandle<()>,
}
impl Worker {
    fn new() -> Worker {
        let (tx, rx) = std::sync::mpsc::channel::<Work>();
        let join = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                seam::enter_harness();
                while let Ok(w) = rx.recv() {
                    w();
                }
            })
            .expect("spawn");
        Worker { tx, join }
    }
    fn end(self) {
        drop(self.tx);
        self.join.join().unwrap();
    }
}

struct Task<W> {
    node: usize,
    name: String,
    sh: Arc<Shared>,
    worker: Option<Worker>,
    keep: bool,
    end: Option<TaskEnd<W>>,
}

pub struct Sim<W> {
    pub now: u64,
    seq: u64,
    q: BTreeMap<(u64, u64), Ev<W>>,
    tasks: BTreeMap<u64, Task<W>>,
    pub w: W,
    pub events: u64,
    /// Nodes keep their threads between tasks.
    keep: bool,
    idle: BTreeMap<usize, Vec<Worker>>,
}

impl<W: 'static> Sim<W> {
    pub fn new(w: W) -> Self {
        let keep = core::chance(2, 3);
        if keep {
            core::probe("threads:kept");
        }
        Sim { now: 0, seq: 0, q: BTreeMap::new(), tasks: BTreeMap::new(), w, events: 0, keep, idle: BTreeMap::new() }
    }
    pub fn after(&mut self, d: u64, f: impl FnOnce(&mut Sim<W>) + 'static) {
        self.seq += 1;
        self.q.insert((self.now + d, self.seq), Box::new(f));
    }
    /// Starts a task on a node with its own entropy stream.
    pub fn spawn<R: Send + 'static>(
        &mut self,
        node: usize,
        name: String,
        ent: Ent,
        body: impl FnOnce() -> R + Send + 'static,
        end: impl FnOnce(&mut Sim<W>, Result<R, Fail>) + 'static,
    ) {
        self.seq += 1;
        let id = self.seq;
        let sh = Arc::new(Shared {
            m: Mutex::new(State { turn: Turn::Driver, kill: false, delay: 0, finished: false, result: None }),
            cv: Condvar::new(),
        });
        let sh2 = sh.clone();
        // a thread whose randomness is to fail must not have had any before
        let keep = self.keep && !ent.fail;
        let worker = if keep { self.idle.get_mut(&node).and_then(|v| v.pop()) } else { None }.unwrap_or_else(Worker::new);
        let work: Work = Box::new(move || {
            {
                let mut g = sh2.m.lock().unwrap();
                while g.turn != Turn::Task {
                    g = sh2.cv.wait(g).unwrap();
                }
            }
            CURRENT.with(|c| *c.borrow_mut() = Some(sh2.clone()));
            seam::set_ent(ent);
            seam::leave_harness(false);
            let r = catch_unwind(AssertUnwindSafe(|| {
                let killed = { sh2.m.lock().unwrap().kill };
                if killed {
                    resume_unwind(Box::new(CrashToken));
                }
                body()
            }));
            seam::enter_harness();
            CURRENT.with(|c| *c.borrow_mut() = None);
            let r = match r {
                Ok(v) => Ok(Box::new(v) as Box<dyn Any + Send>),
                Err(e) if e.is::<CrashToken>() => Err(Fail::Crashed),
                Err(e) => Err(Fail::Panicked(core::panic_text(&e))),
            };
            let mut g = sh2.m.lock().unwrap();
            g.result = Some(r);
            g.finished = true;
            g.turn = Turn::Driver;
            sh2.cv.notify_all();
        });
        worker.tx.send(work).expect("worker");
        let end: TaskEnd<W> = Box::new(move |s, r| end(s, r.map(|b| *b.downcast::<R>().unwrap())));
        self.tasks.insert(id, Task { node, name, sh, worker: Some(worker), keep, end: Some(end) });
        self.after(0, move |s| s.resume(id));
    }
    fn resume(&mut self, id: u64) {
        let Some(t) = self.tasks.get(&id) else { return };
        let sh = t.sh.clone();
        let (finished, delay) = {
            let mut g = sh.m.lock().unwrap();
            g.turn = Turn::Task;
            sh.cv.notify_all();
            while g.turn != Turn::Driver {
                g = sh.cv.wait(g).unwrap();
            }
            (g.finished, g.delay)
        };
        if !finished {
            core::trace(format!("suspend {}", t.name));
            self.after(delay, move |s| s.resume(id));
            return;
        }
        let mut t = self.tasks.remove(&id).unwrap();
        let (r, kill) = {
            let mut g = sh.m.lock().unwrap();
            (g.result.take().unwrap(), g.kill)
        };
        let worker = t.worker.take().unwrap();
        if t.keep && !kill {
            self.idle.entry(t.node).or_default().push(worker);
        } else {
            worker.end();
        }
        let r = if kill { Err(Fail::Crashed) } else { r };
        (t.end.take().unwrap())(self, r)
    }
    /// Ends every task of a node where it stands.
    pub fn crash(&mut self, node: usize) -> usize {
        for w in self.idle.remove(&node).unwrap_or_default() {
            w.end();
        }
        let ids: Vec<u64> = self.tasks.iter().filter(|(_, t)| t.node == node).map(|(i, _)| *i).collect();
        for id in &ids {
            self.tasks[id].sh.m.lock().unwrap().kill = true;
            // A task that holds out (it waits for a lock) dies at its next chance.
            self.resume(*id);
        }
        ids.len()
    }
    pub fn busy(&self, node: usize) -> bool {
        self.tasks.values().any(|t| t.node == node)
    }
    /// Runs until nothing is left, a violation was found, `stop` says so, or the bounds are hit.
    /// False if the bounds were hit.
    pub fn run(&mut self, max_events: u64, mut stop: impl FnMut(&Sim<W>) -> bool) -> bool {
        let mut ok = true;
        while let Some((&k, _)) = self.q.iter().next() {
            if core::violated() || stop(self) {
                break;
            }
            if self.events >= max_events {
                ok = false;
                break;
            }
            self.events += 1;
            let f = self.q.remove(&k).unwrap();
            self.now = k.0;
            core::set_now(self.now);
            f(self);
        }
        // leave no thread behind
        let nodes: Vec<usize> = self.tasks.values().map(|t| t.node).collect();
        for n in nodes {
            for t in self.tasks.values_mut() {
                if t.node == n {
                    t.end = Some(Box::new(|_, _| {}));
                }
            }
            self.crash(n);
        }
        ok
    }
}
