//! Judging stations: parties that run the code under test on messages whose right answer the
//! simulator knows, several at a time, suspended inside hashes and entropy requests, crashed in the
//! middle and asked again.

use super::session::swarm;
use crate::core::{self, chance, draw, draw_us, fault, probe, range, trace, verdict, violation, weighted};
use crate::sched::{Fail, Sim};
use crate::seam;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Expect {
    Accept,
    Reject,
}
#[derive(Clone, Copy, PartialEq)]
pub enum OnPanic {
    Violation,
    CountsAsReject,
}
pub type Body = Arc<dyn Fn() -> Result<(), String> + Send + Sync>;
pub struct Case {
    pub name: String,
    pub detail: String,
    pub body: Body,
    pub expect: Expect,
    pub panic: OnPanic,
    /// listed key: an unexpected acceptance is a known finding
    pub finding: Option<String>,
    /// the entropy source of this case fails
    pub no_entropy: bool,
}
impl Case {
    pub fn new(name: impl Into<String>, detail: impl Into<String>, expect: Expect, body: impl Fn() -> Result<(), String> + Send + Sync + 'static) -> Self {
        Case { name: name.into(), detail: detail.into(), body: Arc::new(body), expect, panic: OnPanic::Violation, finding: None, no_entropy: false }
    }
    pub fn tolerant(mut self) -> Self {
        self.panic = OnPanic::CountsAsReject;
        self
    }
    pub fn finding(mut self, k: &str) -> Self {
        self.finding = Some(k.into());
        self
    }
}

struct World {
    cases: Vec<(Arc<Case>, bool, u32)>,
    inc: Vec<u64>,
    up: Vec<bool>,
    calls: u64,
    ent: u64,
    mode: u8,
    calm: bool,
    reach: u64,
}

fn ask(s: &mut Sim<World>, i: usize, node: usize) {
    let again = move |s: &mut Sim<World>| {
        let n = draw_us(s.w.up.len());
        ask(s, i, n)
    };
    if s.w.cases[i].1 {
        return;
    }
    if !s.w.up[node] {
        s.after(50, again);
        return;
    }
    s.w.calls += 1;
    s.w.cases[i].2 += 1;
    let (inc, call) = (s.w.inc[node], s.w.calls);
    let mut e = seam::ent(core::combine(core::combine(s.w.ent, call), node as u64 + 99));
    e.mode = s.w.mode;
    let c = s.w.cases[i].0.clone();
    if c.no_entropy {
        e.fail = true;
    }
    trace(format!("ask#{call} node{node} {}", c.name));
    let b = c.body.clone();
    s.spawn(node, format!("call#{call}"), e, move || b(), move |s, r| {
        if s.w.inc[node] != inc {
            // the answer is lost with the node
            let d = range(1, 60);
            s.after(d, again);
            return;
        }
        s.w.cases[i].1 = true;
        judge(&c, call, r);
        if !s.w.calm && chance(1, 12) {
            // asked again: the answer must not depend on what came before
            fault("net:duplicated");
            s.w.cases[i].1 = false;
            let d = range(1, 60);
            s.after(d, again);
        }
    });
}

fn judge(c: &Case, call: u64, r: Result<Result<(), String>, Fail>) {
    let kind = c.name.split([' ', ':']).next().unwrap_or("").to_string();
    let r = match r {
        Err(Fail::Crashed) => return,
        Err(Fail::Panicked(e)) => {
            trace(format!("ask#{call} panics: {e}"));
            if c.panic == OnPanic::Violation {
                verdict("panic");
                return violation(format!("panic:{kind}"), format!("{} {}: {e} at {}", c.name, c.detail, crate::exec::last_panic_place()));
            }
            probe(&format!("refused-by-panic:{kind}"));
            Err(e)
        }
        Ok(r) => r,
    };
    trace(format!("ask#{call} -> {}", match &r { Ok(()) => "accepted".to_string(), Err(e) => format!("rejected ({e})") }));
    match (c.expect, r) {
        (Expect::Accept, Ok(())) => verdict(&format!("accepted:{kind}")),
        (Expect::Reject, Err(_)) => verdict(&format!("rejected:{kind}")),
        (Expect::Accept, Err(e)) => {
            verdict("wrongly-rejected");
            violation(format!("rejected:{kind}"), format!("{} {}: {e}", c.name, c.detail))
        }
        (Expect::Reject, Ok(())) => {
            verdict("wrongly-accepted");
            match &c.finding {
                Some(k) => crate::exec::finding(k, "accepted", format!("{} {}", c.name, c.detail)),
                None => violation(format!("accepted:{kind}"), format!("{} {}", c.name, c.detail)),
            }
        }
    }
}

pub fn run(cases: Vec<Case>, ent: u64) {
    let mode = swarm(true);
    run_with(cases, ent, mode)
}

pub fn run_with(cases: Vec<Case>, ent: u64, mode: u8) {
    let nodes = range(1, 3) as usize;
    if mode > 0 {
        fault("entropy:degenerate");
    }
    for c in &cases {
        core::key(&format!("{} {}", c.name, c.detail));
    }
    let reach = [5, 100, 600][draw_us(3)];
    let mut s = Sim::new(World {
        cases: cases.into_iter().map(|c| (Arc::new(c), false, 0)).collect(),
        inc: vec![0; nodes],
        up: vec![true; nodes],
        calls: 0,
        ent,
        mode,
        calm: false,
        reach,
    });
    for i in 0..s.w.cases.len() {
        let d = range(1, s.w.reach);
        if d > 50 {
            fault("net:delayed");
        }
        let n = draw_us(nodes);
        s.after(d, move |s| ask(s, i, n));
    }
    for _ in 0..[0, 0, 1, 2, 3][weighted(&[1, 1, 1, 1, 1])] {
        let (t, n, d) = (range(1, reach + 40), draw_us(nodes), range(1, 100));
        s.after(t, move |s| {
            if !s.w.up[n] {
                return;
            }
            fault(if s.busy(n) { "crash:in-operation" } else { "crash:idle" });
            trace(format!("crash node{n}"));
            s.w.up[n] = false;
            s.w.inc[n] += 1;
            s.crash(n);
            s.after(d, move |s| s.w.up[n] = true);
        });
    }
    s.after(1000, |s| {
        trace("faults stop");
        s.w.calm = true;
        for u in s.w.up.iter_mut() {
            *u = true;
        }
    });
    let total = s.w.cases.len();
    let done = s.run(20_000, |s| s.w.cases.iter().all(|c| c.1));
    if core::violated() {
        return;
    }
    let open = s.w.cases.iter().filter(|c| !c.1).count();
    if !done || open > 0 {
        violation("no-progress", format!("{open} of {total} requests never answered"));
    }
    let _ = draw(2);
}
