//! C17: a step machine that is asked for right, stale, altered and repeated steps, and crashes.

use super::nova::{alter_instance, job, other_point, to_fr, Fields, Job, Machine, Pair};
use super::session::swarm;
use crate::core::{self, chance, draw, draw_us, fault, field_of, probe, range, trace, verdict, violation, weighted};
use crate::sched::{guard_in_task, Fail, Sim};
use crate::seam;
use ark_bls12_381::{Fq, Fr};
use ark_ff::{One, Zero};
use kzg::commitment::KzgCommitment;
use nova::ivc::IVCProof;
use nova::r1cs::{FInstance, FWitness};
use std::sync::Arc;

/// Where the machine must stand.
#[derive(Clone)]
struct Model {
    n: usize,
    z: Fq,
    h: Option<Fq>,
    big: Pair,
    /// what has been run but not yet begun: next state, hash, next running pair
    pending: Option<(Fq, Fq, Option<Pair>)>,
}
#[derive(Clone)]
struct Right {
    input: IVCProofBox,
    com_t: Option<KzgCommitment>,
    next: Pair,
}
type IVCProofBox = Arc<IVCProof>;

#[derive(Clone)]
struct Ask {
    u: FInstance,
    big: Option<FInstance>,
    w: FWitness,
    com_t: Option<KzgCommitment>,
    name: String,
}
enum Req {
    Run(Ask),
    Next,
}
struct W {
    job: Arc<Job>,
    model: Model,
    right: Option<Right>,
    old: Vec<Right>,
    m: Option<Box<dyn Machine>>,
    disk: (Fields, Model),
    up: bool,
    inc: u64,
    busy: bool,
    queue: Vec<Req>,
    ent: u64,
    calls: u64,
    calm: bool,
    target: usize,
    asked: u64,
    max_asked: u64,
    foreign: Vec<IVCProofBox>,
}
type S = Sim<W>;

fn boot(s: &mut S) {
    let w = &mut s.w;
    let mut m = w.job.machine();
    m.restore(&w.disk.0);
    w.model = w.disk.1.clone();
    w.m = Some(m);
    w.up = true;
    w.busy = false;
    w.right = None;
    trace(format!("machine starts at step {}", w.model.n));
    serve(s);
}

/// The right input of the present step, made the way an honest prover makes it.
fn right(s: &mut S) -> Option<Right> {
    if s.w.right.is_none() {
        let w = &s.w;
        let (job, model) = (w.job.clone(), w.model.clone());
        let k = model.n.min(job.inputs.len() - 1);
        let mut u = job.inputs[k].i.clone();
        if model.n > 0 {
            u.x = vec![to_fr(job.hash_io(Fq::from(model.n as u64), job.z[0], model.z, &model.big.i))];
        }
        let input = IVCProof::new(&u, &job.inputs[k].w, &model.big.i, &model.big.w);
        let mut m = job.machine();
        m.restore(&s.w.disk.0);
        let mut f = m.fields();
        f.i = Fq::from(model.n as u64);
        f.z_i = model.z;
        m.restore(&f);
        let out = core::guard(|| m.prove(&job.sys.r1cs, &input));
        match out {
            Err(e) => {
                violation("proving-panics", e);
                return None;
            }
            Ok((wit, i, zk)) => {
                let next = if model.n == 0 { job.trivial.clone() } else { Pair { w: wit, i } };
                s.w.right = Some(Right { input: Arc::new(input), com_t: zk.com_t, next });
            }
        }
    }
    s.w.right.clone()
}

fn request(s: &mut S) {
    if s.w.model.n >= s.w.target || core::violated() {
        return;
    }
    s.w.asked += 1;
    let calm = s.w.calm || s.w.asked > s.w.max_asked;
    let Some(r) = right(s) else { return };
    let n = s.w.model.n;
    let mut ask = Ask {
        u: r.input.u_i.clone(),
        big: if n == 0 { None } else { Some(r.input.big_u_i.clone()) },
        w: r.input.w_i.clone(),
        com_t: r.com_t.clone(),
        name: "right".into(),
    };
    let req = match if calm { weighted(&[1, 1]) } else { weighted(&[3, 3, 10]) } {
        0 => Req::Run(ask),
        1 => Req::Next,
        _ => {
            if n > 0 {
                alter(s, &mut ask);
                fault(&format!("byz:{}", ask.name));
            }
            Req::Run(ask)
        }
    };
    s.w.queue.push(req);
    serve(s);
    let d = range(1, 30);
    s.after(d, request);
}

fn alter(s: &mut S, a: &mut Ask) {
    let w = &s.w;
    let (job, m) = (w.job.clone(), w.model.clone());
    let n = Fq::from(m.n as u64);
    let h = |i: Fq, z0: Fq, z: Fq, b: &FInstance| vec![to_fr(job.hash_io(i, z0, z, b))];
    let z0 = job.z[0];
    a.name = match weighted(&[4, 4, 2, 5, 3, 1, 2]) {
        0 => {
            let other = w.old.last().map(|o| o.input.u_i.clone());
            let (u, name) = alter_instance(&a.u, other.as_ref());
            a.u = u;
            format!("u.{name}")
        }
        1 => {
            let other = w.old.last().map(|o| o.input.big_u_i.clone()).unwrap_or(a.u.clone());
            let (u, name) = alter_instance(a.big.as_ref().unwrap(), Some(&other));
            a.big = Some(u);
            if chance(1, 2) {
                a.u.x = h(n, z0, m.z, a.big.as_ref().unwrap());
                format!("running-rehashed.{name}")
            } else {
                format!("running.{name}")
            }
        }
        2 => {
            match draw(3) {
                0 => a.big = None,
                1 => a.com_t = None,
                _ => a.com_t = a.com_t.as_ref().map(other_point),
            }
            "missing".into()
        }
        3 => {
            // an instance for another position
            let b = a.big.clone().unwrap();
            let one = Fq::one();
            a.u.x = match draw(7) {
                0 => h(n + core::delta::<Fq>(), z0, m.z, &b),
                1 => h(n - one, z0, m.z, &b),
                2 => h(n, z0 + core::delta::<Fq>(), m.z, &b),
                3 => h(n, z0, m.z + core::delta::<Fq>(), &b),
                4 => h(n, m.z, z0, &b),
                5 => h(n, z0, field_of(draw(1 << 40)), &b),
                _ => h(n, z0, m.z, &job.trivial.i),
            };
            "position".into()
        }
        4 => {
            // a step taken before, or of another run
            let from: Vec<IVCProofBox> = w.old.iter().map(|o| o.input.clone()).chain(w.foreign.iter().cloned()).collect();
            if from.is_empty() {
                return;
            }
            let o = from[draw_us(from.len())].clone();
            match draw(3) {
                0 => {
                    a.u = o.u_i.clone();
                    a.big = Some(o.big_u_i.clone());
                }
                1 => a.u = o.u_i.clone(),
                _ => a.big = Some(o.big_u_i.clone()),
            }
            "stale".into()
        }
        5 => {
            a.u = a.big.clone().unwrap();
            "running-as-new".into()
        }
        _ => {
            // another input: a right step all the same
            let k = draw_us(job.inputs.len());
            a.w = job.inputs[k].w.clone();
            "other-input".into()
        }
    };
}

fn serve(s: &mut S) {
    if !s.w.up || s.w.busy || s.w.queue.is_empty() || core::violated() {
        return;
    }
    let req = s.w.queue.remove(0);
    s.w.busy = true;
    s.w.calls += 1;
    let mut m = s.w.m.take().unwrap();
    let (inc, call) = (s.w.inc, s.w.calls);
    let e = seam::ent(core::combine(s.w.ent, call));
    let before = m.fields();
    match req {
        Req::Run(a) => {
            trace(format!("run#{call} at {}: {}", s.w.model.n, a.name));
            let b = a.clone();
            s.spawn(
                0,
                format!("run#{call}"),
                e,
                move || {
                    let r = guard_in_task(|| m.run(&b.u, b.big.as_ref(), &b.w, b.com_t.as_ref()));
                    (m, r)
                },
                move |s, r| {
                    if s.w.inc != inc {
                        return;
                    }
                    match r {
                        Err(Fail::Crashed) => {}
                        Err(Fail::Panicked(e)) => violation("HARNESS", e),
                        Ok((m, r)) => {
                            judge(s, &a, &before, &m.fields(), r);
                            back(s, m);
                        }
                    }
                },
            );
        }
        Req::Next => {
            // a party that does not know what its pending step is does not begin it
            if matches!(&s.w.model.pending, Some((_, _, None))) {
                return back(s, m);
            }
            trace(format!("next#{call} at {}", s.w.model.n));
            s.spawn(
                0,
                format!("next#{call}"),
                e,
                move || {
                    let r = guard_in_task(|| m.next());
                    (m, r)
                },
                move |s, r| {
                    if s.w.inc != inc {
                        return;
                    }
                    match r {
                        Err(Fail::Crashed) => {}
                        Err(Fail::Panicked(e)) => violation("HARNESS", e),
                        Ok((m, r)) => {
                            let f = m.fields();
                            advance(s, &before, &f, r);
                            if s.w.model.pending.is_none() && chance(3, 4) {
                                s.w.disk = (f, s.w.model.clone());
                                probe("checkpoint");
                            }
                            back(s, m);
                        }
                    }
                },
            );
        }
    }
}
fn back(s: &mut S, m: Box<dyn Machine>) {
    s.w.busy = false;
    s.w.m = Some(m);
    if core::violated() {
        return;
    }
    let d = draw(4);
    s.after(d, serve);
}

fn judge(s: &mut S, a: &Ask, before: &Fields, after: &Fields, r: Result<Result<Fq, String>, String>) {
    let w = &s.w;
    let (job, m) = (w.job.clone(), w.model.clone());
    let kind = a.name.split('.').next().unwrap_or("").to_string();
    let say = |what: &str| format!("{what}: {} at step {} of {}", a.name, m.n, job.show());
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            verdict("panic");
            return violation("step-panics", say(&format!("{e} at {}", crate::exec::last_panic_place())));
        }
    };
    trace(format!("-> {}", if r.is_ok() { "taken" } else { "refused" }));
    let ok = m.n == 0
        || (a.u.x.first() == Some(&to_fr(m.h.unwrap()))
            && a.big.as_ref() == Some(&m.big.i)
            && a.com_t.is_some()
            && a.u.u == Fr::one()
            && a.u.com_e.0.infinity);
    match (ok, &r) {
        (false, Ok(_)) => {
            verdict("wrong-step-taken");
            return violation(format!("wrong-step-taken:{kind}"), say("taken"));
        }
        (true, Err(_)) if a.u.x.len() > 1 => {
            // more public values than the hash: may be refused
            if before != after {
                violation("refusal-changes-state", say("longer"));
            }
            return;
        }
        (true, Err(e)) => {
            verdict("right-step-refused");
            return violation("right-step-refused", say(e));
        }
        (false, Err(_)) => {
            verdict("wrong-step-refused");
            probe(&format!("refused:{kind}"));
            if before != after {
                return violation("refusal-changes-state", say(&format!("{before:?} -> {after:?}")));
            }
            return;
        }
        (true, Ok(_)) => verdict("right-step-taken"),
    }
    let h = r.unwrap();
    let z1 = job.step.apply(m.z, &a.w);
    let mut want = before.clone();
    want.z_i1 = Some(z1);
    want.h_i1 = Some(h);
    if *after != want {
        return violation("step-wrong-state", say(&format!("{after:?}")));
    }
    // known only if the rest of the input is the right one, too
    let right = w.right.clone().filter(|rt| m.n == 0 || (a.u == rt.input.u_i && a.com_t == rt.com_t));
    if let Some(rt) = &right {
        verdict("hash");
        let want = job.hash_io(Fq::from(m.n as u64 + 1), job.z[0], z1, &rt.next.i);
        if h != want {
            return violation("wrong-hash", say("next"));
        }
    }
    s.w.model.pending = Some((z1, h, right.map(|r| r.next)));
}

fn advance(s: &mut S, before: &Fields, after: &Fields, r: Result<(), String>) {
    let m = s.w.model.clone();
    let job = s.w.job.clone();
    let say = |what: &str| format!("{what}: step {} of {}", m.n, job.show());
    match (&m.pending, r) {
        (None, Err(_)) => {
            verdict("next-refused");
            if before != after {
                violation("refusal-changes-state", say("beginning a step that was not taken"));
            }
        }
        (None, Ok(())) => {
            verdict("next-without-step");
            if before != after {
                violation("next-without-step", say(&format!("{after:?}")));
            }
        }
        (Some(_), Err(e)) => violation("next-refused", say(&e)),
        (Some((z, h, big)), Ok(())) => {
            verdict("advanced");
            let mut want = before.clone();
            want.i += Fq::one();
            want.z_i = *z;
            want.h_i = Some(*h);
            want.z_i1 = None;
            want.h_i1 = None;
            if *after != want {
                return violation("wrong-advance", say(&format!("{after:?}")));
            }
            if let Some(r) = s.w.right.take() {
                s.w.old.push(r);
            }
            s.w.model = Model { n: m.n + 1, z: *z, h: Some(*h), big: big.clone().unwrap(), pending: None };
        }
    }
}

pub fn run(ent: u64) {
    swarm(true);
    let j = Arc::new(job(if crate::exec::thorough() { 8 } else { 4 }));
    core::key(&format!("{} steps {}", j.show(), j.inputs.len()));
    let mut foreign = vec![];
    if chance(1, 2) {
        // another run of the same machine
        let z0 = if chance(1, 2) { j.z[0] + Fq::one() } else { j.z[0] };
        let o = Job::new(j.sys.clone(), j.step.clone(), j.hash, z0, 2);
        for (n, (_, big)) in o.snapshots(2).into_iter().enumerate().skip(1) {
            foreign.push(Arc::new(o.step_input(n, &big)));
        }
    }
    let m = j.machine();
    let f = m.fields();
    let fresh = f.i.is_zero() && f.z_i == j.z[0] && f.z_0 == j.z[0] && f.h_i.is_none() && f.h_i1.is_none() && f.z_i1.is_none();
    if !fresh {
        return violation("wrong-start", format!("{f:?}"));
    }
    let model = Model { n: 0, z: j.z[0], h: None, big: j.trivial.clone(), pending: None };
    let target = j.inputs.len() - 1;
    let mut s = Sim::new(W {
        model: model.clone(),
        right: None,
        old: vec![],
        m: None,
        disk: (f, model),
        up: false,
        inc: 0,
        busy: false,
        queue: vec![],
        ent,
        calls: 0,
        calm: false,
        target,
        asked: 0,
        max_asked: range(5, 30),
        foreign,
        job: j,
    });
    boot(&mut s);
    s.after(1, request);
    for _ in 0..[0, 1, 2, 4][draw_us(4)] {
        let (t, d) = (range(1, 400), range(1, 80));
        s.after(t, move |s| {
            if !s.w.up {
                return;
            }
            fault(if s.w.busy { "crash:in-operation" } else { "crash:idle" });
            trace("crash");
            s.w.up = false;
            s.w.inc += 1;
            s.w.m = None;
            s.w.queue.clear();
            s.crash(0);
            s.after(d, boot);
        });
    }
    s.after(900, |s| {
        trace("faults stop");
        s.w.calm = true;
    });
    s.run(20_000, |s| s.w.model.n >= s.w.target);
    if !core::violated() {
        if s.w.model.n < s.w.target {
            violation("no-progress", format!("{} of {} steps at t={}", s.w.model.n, s.w.target, s.now));
        } else {
            verdict("progress");
        }
    }
}
