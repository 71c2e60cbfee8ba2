//! A deployment of provers and verifiers on a simulated network, generic in the proof system.
//!
//! Provers make proofs for their statements and retransmit until acknowledged; verifiers hold
//! their own statements and answer. An adversary on the network may alter, splice and misdirect
//! what it has seen. The oracle knows which messages are honest proofs for which statement.

use crate::core::{self, chance, draw, draw_us, fault, probe, range, trace, verdict, violation, weighted};
use crate::sched::{self, Fail, Sim};
use crate::seam::{self, Ent};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

pub trait Proto: Send + Sync + 'static {
    type Stmt: Send + Sync + 'static;
    type Proof: Send + Sync + 'static;
    fn prove(&self, s: &Self::Stmt) -> Self::Proof;
    fn verify(&self, s: &Self::Stmt, p: &Self::Proof) -> Result<(), String>;
    fn same_proof(&self, a: &Self::Proof, b: &Self::Proof) -> bool;
    /// Would an honest proof for `a` be an honest proof for `b`?
    fn same_stmt(&self, a: &Self::Stmt, b: &Self::Stmt) -> bool;
    /// Is `m` an honest proof, given the honest proof `honest`?
    fn genuine(&self, honest: &Self::Proof, m: &Self::Proof) -> bool {
        self.same_proof(honest, m)
    }
    /// Could the message be accepted by chance, though it is not right?
    fn lucky(&self, _s: &Self::Stmt, _m: &Self::Proof) -> bool {
        false
    }
    /// Does the prover do the same for both?
    fn same_input(&self, a: &Self::Stmt, b: &Self::Stmt) -> bool {
        self.same_stmt(a, b)
    }
    /// Two proofs of the same statement made at different times are equal.
    fn deterministic(&self) -> bool {
        false
    }
    /// Is the message right whoever made it, where the simulator can tell?
    fn valid(&self, _s: &Self::Stmt, _p: &Self::Proof) -> Option<bool> {
        None
    }
    /// A changed version of the proof (for the statement it will be sent to), with a name.
    fn alter(&self, target: &Self::Stmt, p: &Self::Proof, others: &[Arc<Self::Proof>]) -> Option<(Self::Proof, String)>;
    fn show(&self, s: &Self::Stmt) -> String;
}

pub struct Cfg {
    /// Altered, spliced and misdirected messages.
    pub byzantine: bool,
    /// Crashes and message loss.
    pub faults: bool,
    pub max_verify: usize,
}

struct Msg<P: Proto> {
    sess: usize,
    proof: Arc<P::Proof>,
    desc: String,
}
impl<P: Proto> Clone for Msg<P> {
    fn clone(&self) -> Self {
        Msg { sess: self.sess, proof: self.proof.clone(), desc: self.desc.clone() }
    }
}

struct Session<P: Proto> {
    stmt: Arc<P::Stmt>,
    prover: usize,
    verifier: usize,
    /// the proof in the prover's memory
    proof: Option<Arc<P::Proof>>,
    proving: bool,
    acked: bool,
    accepted: bool,
    sends: u64,
}
struct Node {
    up: bool,
    inc: u64,
    slow: u64,
}
struct World<P: Proto> {
    p: Arc<P>,
    cfg: Cfg,
    ent: u64,
    ent_mode: u8,
    nodes: Vec<Node>,
    sess: Vec<Session<P>>,
    /// statements only used to misdirect proofs: (statement, the node that verifies)
    decoys: Vec<Arc<P::Stmt>>,
    honest: Vec<(Arc<P::Stmt>, Arc<P::Proof>)>,
    spawns: u64,
    verifies: usize,
    attacks: u64,
    calm: bool,
    drop: u64,
    dup: u64,
    max_latency: u64,
    cut: Option<(usize, usize)>,
    calls: u64,
}
type S<P> = Sim<World<P>>;

/// Chooses the fault mix of the run (the same for all kinds of worlds).
pub fn swarm(faults: bool) -> u8 {
    let rates = [0, 3, 8, 20];
    sched::YIELD_RATE.store(rates[weighted(&[1, 2, 3, 3])], SeqCst);
    sched::MAX_DELAY.store([1, 20, 200][draw_us(3)], SeqCst);
    if faults {
        seam::EINTR_RATE.store([0, 9, 3][weighted(&[3, 1, 1])], SeqCst);
        seam::SHORT_RATE.store([0, 7, 2][weighted(&[3, 1, 1])], SeqCst);
        let skew = [0u64, 3_600_000_000_000, u64::MAX - 1_600_000_000_000_000_000][weighted(&[3, 1, 1])];
        if skew != 0 {
            fault("clock:skewed");
        }
        seam::CLOCK_SKEW.store(skew, SeqCst);
    }
    [0u8, 1, 2][weighted(&[8, 1, 1])]
}

impl<P: Proto> World<P> {
    fn entropy(&mut self, node: usize) -> Ent {
        self.spawns += 1;
        let inc = self.nodes[node].inc;
        let mut e = seam::ent(core::combine(core::combine(self.ent, node as u64), core::combine(inc, self.spawns)));
        e.mode = self.ent_mode;
        e
    }
}

fn send<P: Proto>(s: &mut S<P>, from: usize, to: usize, m: Msg<P>) {
    if let Some((a, b)) = s.w.cut {
        if (a, b) == (from, to) || (a, b) == (to, from) {
            fault("net:partitioned");
            return;
        }
    }
    if !s.w.calm && s.w.drop > 0 && chance(1, s.w.drop) {
        fault("net:dropped");
        trace(format!("drop {} s{}", m.desc, m.sess));
        return;
    }
    let copies = if !s.w.calm && s.w.dup > 0 && chance(1, s.w.dup) {
        fault("net:duplicated");
        2
    } else {
        1
    };
    for _ in 0..copies {
        let d = range(1, s.w.max_latency);
        if d > 40 {
            fault("net:delayed");
        }
        let m = m.clone();
        s.after(d, move |s| deliver(s, to, m));
    }
}

fn deliver<P: Proto>(s: &mut S<P>, to: usize, m: Msg<P>) {
    if !s.w.nodes[to].up {
        fault("net:lost-at-dead-node");
        return;
    }
    // a verifier that has accepted a session answers repeats from memory, mostly
    if s.w.sess.get(m.sess).map(|x| x.accepted) == Some(true) && m.desc == "genuine" && !chance(1, 3) {
        probe("repeat-answered");
        return ack(s, m.sess);
    }
    if s.w.verifies >= s.w.cfg.max_verify && !s.w.calm {
        probe("verification-budget-used");
        return;
    }
    s.w.verifies += 1;
    let stmt = s.w.sess.get(m.sess).map(|x| x.stmt.clone()).unwrap_or_else(|| s.w.decoys[m.sess - s.w.sess.len()].clone());
    s.w.calls += 1;
    let call = s.w.calls;
    trace(format!("verify#{call} node{to} s{} {}", m.sess, m.desc));
    let e = s.w.entropy(to);
    let (p, st, pr) = (s.w.p.clone(), stmt.clone(), m.proof.clone());
    let inc = s.w.nodes[to].inc;
    s.spawn(to, format!("verify#{call}"), e, move || p.verify(&st, &pr), move |s, r| {
        if s.w.nodes[to].inc != inc {
            return;
        }
        judge(s, to, call, &stmt, m, r)
    });
}

fn judge<P: Proto>(s: &mut S<P>, to: usize, call: u64, stmt: &Arc<P::Stmt>, m: Msg<P>, r: Result<Result<(), String>, Fail>) {
    let _ = to;
    let p = s.w.p.clone();
    let genuine = p.valid(stmt, &m.proof).unwrap_or_else(|| {
        s.w.honest.iter().any(|(st, pr)| (Arc::ptr_eq(st, stmt) || p.same_stmt(st, stmt)) && p.genuine(pr, &m.proof))
    });
    let res = match r {
        Err(Fail::Crashed) => return,
        Err(Fail::Panicked(e)) => {
            verdict("panic");
            return violation("verifier-panics", format!("verifying {} for {}: {e} at {}", m.desc, p.show(stmt), crate::exec::last_panic_place()));
        }
        Ok(x) => x,
    };
    trace(format!("verify#{call} -> {}", if res.is_ok() { "accepted".to_string() } else { format!("rejected ({})", res.clone().unwrap_err()) }));
    match (genuine, res) {
        (true, Ok(())) => {
            verdict("honest-accepted");
            if m.desc != "genuine" {
                probe("altered-but-right");
                return;
            }
            if let Some(x) = s.w.sess.get_mut(m.sess) {
                x.accepted = true;
                return ack(s, m.sess);
            }
        }
        (true, Err(e)) => {
            verdict("honest-rejected");
            violation("honest-proof-rejected", format!("{}: {e} [{}]", p.show(stmt), m.desc));
        }
        (false, Err(_)) => {
            verdict("bad-rejected");
            probe(&format!("rejected:{}", m.desc.split(' ').next().unwrap_or("")));
        }
        (false, Ok(())) if p.lucky(stmt, &m.proof) => probe("accepted-by-chance"),
        (false, Ok(())) => {
            verdict("bad-accepted");
            let d = m.desc.split(' ').next().unwrap_or("").to_string();
            violation(format!("bad-proof-accepted:{d}"), format!("{} accepted for {}", m.desc, p.show(stmt)));
        }
    }
}

fn ack<P: Proto>(s: &mut S<P>, sess: usize) {
    if !s.w.calm && s.w.drop > 0 && chance(1, s.w.drop) {
        fault("net:ack-dropped");
        return;
    }
    let d = range(1, s.w.max_latency);
    let prover = s.w.sess[sess].prover;
    s.after(d, move |s| {
        if s.w.nodes[prover].up {
            s.w.sess[sess].acked = true;
        }
    });
}

fn start_proving<P: Proto>(s: &mut S<P>, i: usize) {
    let node = s.w.sess[i].prover;
    if !s.w.nodes[node].up || s.w.sess[i].proving || s.w.sess[i].acked {
        return;
    }
    s.w.sess[i].proving = true;
    let inc = s.w.nodes[node].inc;
    let (p, st) = (s.w.p.clone(), s.w.sess[i].stmt.clone());
    let st2 = st.clone();
    let e = s.w.entropy(node);
    trace(format!("prove s{i} node{node}"));
    s.spawn(node, format!("prove s{i}"), e, move || p.prove(&st), move |s, r| match r {
        Err(Fail::Crashed) => {}
        Err(Fail::Panicked(e)) => {
            if s.w.nodes[node].inc == inc {
                violation("prover-panics", format!("{}: {e} at {}", s.w.p.show(&st2), crate::exec::last_panic_place()));
            }
        }
        Ok(pr) => {
            let pr = Arc::new(pr);
            if s.w.p.deterministic() {
                let clash = s.w.honest.iter().any(|(st, old)| {
                    (Arc::ptr_eq(st, &st2) || s.w.p.same_input(st, &st2)) && !s.w.p.same_proof(old, &pr)
                });
                if clash {
                    return violation("proof-not-repeatable", s.w.p.show(&st2));
                }
            }
            s.w.honest.push((st2, pr.clone()));
            if s.w.nodes[node].inc != inc {
                return;
            }
            s.w.sess[i].proving = false;
            s.w.sess[i].proof = Some(pr);
            transmit(s, i);
        }
    });
}

fn transmit<P: Proto>(s: &mut S<P>, i: usize) {
    let (node, v) = (s.w.sess[i].prover, s.w.sess[i].verifier);
    if !s.w.nodes[node].up || s.w.sess[i].acked {
        return;
    }
    let Some(pr) = s.w.sess[i].proof.clone() else { return };
    s.w.sess[i].sends += 1;
    let m = Msg { sess: i, proof: pr.clone(), desc: "genuine".into() };
    send(s, node, v, m);
    if s.w.cfg.byzantine && !s.w.calm {
        let n = range(1, 3);
        for _ in 0..n {
            attack(s, i, pr.clone());
        }
    }
    let t = 300 + 50 * s.w.sess[i].sends.min(6);
    s.after(t, move |s| {
        if s.w.sess[i].acked {
            return;
        }
        if s.w.sess[i].proof.is_some() {
            probe("retransmission");
            transmit(s, i)
        }
    });
}

fn attack<P: Proto>(s: &mut S<P>, i: usize, pr: Arc<P::Proof>) {
    if s.w.attacks == 0 {
        return;
    }
    s.w.attacks -= 1;
    let total = s.w.sess.len() + s.w.decoys.len();
    let p = s.w.p.clone();
    let mut target = i;
    let (proof, desc) = match weighted(&[6, 3]) {
        0 => {
            if chance(1, 6) {
                target = draw_us(total);
            }
            let st = s.w.sess.get(target).map(|x| x.stmt.clone()).unwrap_or_else(|| s.w.decoys[target - s.w.sess.len()].clone());
            let others: Vec<Arc<P::Proof>> = s.w.honest.iter().map(|x| x.1.clone()).collect();
            match core::guard(|| p.alter(&st, &pr, &others)) {
                Ok(Some((q, d))) => {
                    fault(&format!("byz:altered:{}", d.split([' ', '+', '~', ':']).next().unwrap_or("")));
                    (Arc::new(q), d)
                }
                Ok(None) => return,
                Err(e) => return violation("verifier-panics", format!("while the adversary probed it: {e} at {}", crate::exec::last_panic_place())),
            }
        }
        _ => {
            if total < 2 {
                return;
            }
            // prefer the near misses
            target = if !s.w.decoys.is_empty() && chance(3, 4) {
                s.w.sess.len() + draw_us(s.w.decoys.len())
            } else {
                draw_us(total)
            };
            fault("byz:misdirected");
            (pr, "misdirected".to_string())
        }
    };
    let v = s.w.sess.get(target).map(|x| x.verifier).unwrap_or(s.w.sess[i].verifier);
    let d = range(1, s.w.max_latency);
    s.after(d, move |s| deliver(s, v, Msg { sess: target, proof, desc }));
}

fn crash<P: Proto>(s: &mut S<P>, n: usize) {
    if !s.w.nodes[n].up {
        return;
    }
    let busy = s.busy(n);
    fault(if busy { "crash:in-operation" } else { "crash:idle" });
    trace(format!("crash node{n}"));
    s.w.nodes[n].up = false;
    s.w.nodes[n].inc += 1;
    s.crash(n);
    for x in s.w.sess.iter_mut().filter(|x| x.prover == n) {
        x.proving = false;
        x.proof = None;
    }
    for x in s.w.sess.iter_mut().filter(|x| x.verifier == n) {
        x.accepted = false;
    }
    let d = range(1, 400);
    s.after(d, move |s| restart(s, n));
}
fn restart<P: Proto>(s: &mut S<P>, n: usize) {
    if s.w.nodes[n].up {
        return;
    }
    trace(format!("restart node{n}"));
    s.w.nodes[n].up = true;
    for i in 0..s.w.sess.len() {
        if s.w.sess[i].prover == n {
            start_proving(s, i);
        }
    }
}

pub fn run<P: Proto>(p: P, stmts: Vec<P::Stmt>, decoys: Vec<P::Stmt>, cfg: Cfg, ent: u64) {
    let ent_mode = swarm(cfg.faults);
    if ent_mode > 0 {
        fault("entropy:degenerate");
    }
    let np = range(1, 3.min(stmts.len() as u64)) as usize;
    let nv = range(1, 2) as usize;
    let nodes = (0..np + nv)
        .map(|_| Node { up: true, inc: 0, slow: if chance(1, 6) { range(50, 500) } else { 0 } })
        .collect();
    let faults = cfg.faults;
    let mut s = Sim::new(World {
        p: Arc::new(p),
        ent,
        ent_mode,
        nodes,
        sess: stmts
            .into_iter()
            .enumerate()
            .map(|(i, st)| Session {
                stmt: Arc::new(st),
                prover: i % np,
                verifier: np + draw_us(nv),
                proof: None,
                proving: false,
                acked: false,
                accepted: false,
                sends: 0,
            })
            .collect(),
        decoys: decoys.into_iter().map(Arc::new).collect(),
        honest: vec![],
        spawns: 0,
        verifies: 0,
        attacks: if cfg.byzantine { range(2, 7) } else { 0 },
        calm: false,
        drop: if faults { [0, 10, 3][draw_us(3)] } else { 0 },
        dup: if faults { [0, 6, 2][draw_us(3)] } else { 0 },
        max_latency: [5, 60, 400][draw_us(3)],
        cut: None,
        calls: 0,
        cfg,
    });
    for i in 0..s.w.sess.len() {
        let d = draw(100);
        let slow = s.w.nodes[s.w.sess[i].prover].slow;
        if slow > 0 {
            fault("node:slow");
        }
        s.after(d + slow, move |s| start_proving(s, i));
        let sh = s.w.p.show(&s.w.sess[i].stmt);
        core::key(&sh);
    }
    if faults {
        for _ in 0..draw(4) {
            let (t, n) = (range(1, 700), draw_us(s.w.nodes.len()));
            s.after(t, move |s| crash(s, n));
        }
        if chance(1, 3) {
            let (a, b) = (draw_us(np), np + draw_us(nv));
            let (t, d) = (range(1, 300), range(50, 600));
            s.after(t, move |s| {
                fault("net:partition");
                s.w.cut = Some((a, b));
            });
            s.after(t + d, move |s| s.w.cut = None);
        }
    }
    // faults stop
    s.after(1500, move |s| {
        trace("faults stop");
        s.w.calm = true;
        s.w.cut = None;
        s.w.max_latency = 20;
        for n in 0..s.w.nodes.len() {
            restart(s, n);
        }
        for i in 0..s.w.sess.len() {
            if s.w.sess[i].proof.is_none() {
                start_proving(s, i);
            }
        }
    });
    let done = s.run(4000, |s| s.w.sess.iter().all(|x| x.acked) && (s.w.calm || s.w.attacks == 0) && s.now > 0 && {
        // let late messages arrive
        s.w.calm || s.now > 900
    });
    if core::violated() {
        return;
    }
    let waiting: BTreeMap<usize, u64> = s.w.sess.iter().enumerate().filter(|x| !x.1.acked).map(|(i, x)| (i, x.sends)).collect();
    if !done || !waiting.is_empty() || s.now > 6000 {
        violation("no-progress", format!("sessions not accepted after faults stopped: {waiting:?} at t={}", s.now));
    } else {
        verdict("progress");
    }
}
