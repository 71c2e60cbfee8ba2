//! C15: IVC provers with checkpoints on disk, crashed anywhere, and the verifiers they report to.

use super::nova::{clone_zk, job, Fields, Job, Machine, Pair};
use super::session::swarm;
use crate::core::{self, chance, draw, draw_us, fault, probe, range, trace, verdict, violation, weighted};
use crate::sched::{Fail, Sim};
use crate::seam;
use ark_bls12_381::Fq;
use nova::ivc::ZkIVCProof;
use std::sync::Arc;

struct Disk {
    n: usize,
    f: Fields,
    big: Pair,
}
struct Prover {
    up: bool,
    inc: u64,
    job: Arc<Job>,
    steps: usize,
    disk: Option<Disk>,
    interval: u64,
    // memory
    n: usize,
    m: Option<Box<dyn Machine>>,
    big: Pair,
    proof: Option<Arc<(usize, Fq, ZkIVCProof)>>,
    next_big: Option<Pair>,
    busy: bool,
    finished: bool,
}
struct Verifier {
    up: bool,
    inc: u64,
    /// long-lived objects, one per job: memory only
    m: Vec<Option<Box<dyn Machine>>>,
    /// highest step accepted, per job: on disk
    best: Vec<usize>,
    queue: Vec<(usize, Arc<(usize, Fq, ZkIVCProof)>)>,
    busy: bool,
}
struct W {
    p: Vec<Prover>,
    v: Vec<Verifier>,
    ent: u64,
    calls: u64,
    calm: bool,
    drop: u64,
    dup: u64,
    reach: u64,
    pace: u64,
    restarts: u64,
}
type S = Sim<W>;

fn entropy(s: &mut S) -> seam::Ent {
    s.w.calls += 1;
    seam::ent(core::combine(s.w.ent, s.w.calls))
}
fn say(s: &S, k: usize, what: &str) -> String {
    let p = &s.w.p[k];
    format!("{what}: {} at step {} of {}, {} restarts", p.job.show(), p.n, p.steps, s.w.restarts)
}

fn boot(s: &mut S, k: usize) {
    let p = &mut s.w.p[k];
    p.up = true;
    p.busy = false;
    p.finished = false;
    p.proof = None;
    p.next_big = None;
    let mut m = p.job.machine();
    match &p.disk {
        None => {
            p.n = 0;
            p.big = p.job.trivial.clone();
        }
        Some(d) => {
            m.restore(&d.f);
            p.n = d.n;
            p.big = d.big.clone();
            probe("resumed-from-checkpoint");
        }
    }
    p.m = Some(m);
    trace(format!("prover{k} starts at step {}", s.w.p[k].n));
    go(s, k);
}

/// The next thing the prover does.
fn go(s: &mut S, k: usize) {
    let p = &s.w.p[k];
    if !p.up || p.busy || core::violated() {
        return;
    }
    let node = k;
    if p.n > 0 && p.proof.is_none() {
        // prove the steps so far
        s.w.p[k].busy = true;
        let p = &mut s.w.p[k];
        let (job, n, big, inc) = (p.job.clone(), p.n, p.big.clone(), p.inc);
        let mut m = p.m.take().unwrap();
        let selfcheck = chance(1, 3);
        let e = entropy(s);
        trace(format!("prover{k} proves step {n}"));
        s.spawn(
            node,
            format!("prove{k}.{n}"),
            e,
            move || {
                let before = m.fields();
                let input = job.step_input(n, &big);
                let out = m.prove(&job.sys.r1cs, &input);
                let own = if selfcheck { Some(m.verify(&out.2)) } else { None };
                let same = m.fields() == before;
                (m, out, own, same)
            },
            move |s, r| {
                if s.w.p[k].inc != inc {
                    return;
                }
                let (m, (w, i, zk), own, same) = match r {
                    Err(Fail::Crashed) => return,
                    Err(Fail::Panicked(e)) => {
                        let at = crate::exec::last_panic_place();
                        return violation("proving-panics", say(s, k, &format!("{e} at {at}")));
                    }
                    Ok(x) => x,
                };
                if let Some(r) = own {
                    verdict("own-proof-verified");
                    if let Err(e) = r {
                        return violation("honest-proof-rejected", say(s, k, &format!("by its own prover: {e}")));
                    }
                }
                if !same {
                    return violation("proving-changes-state", say(s, k, "prove or verify"));
                }
                let f = m.fields();
                let p = &mut s.w.p[k];
                p.busy = false;
                p.m = Some(m);
                let next = Pair { w, i };
                if p.job.sys.desc.ends_with('f') {
                    verdict("running-pair-satisfied");
                    if !p.job.sys.good(&next) {
                        return violation("running-pair-bad", say(s, k, "folded pair"));
                    }
                }
                let p = &mut s.w.p[k];
                p.next_big = Some(next);
                p.proof = Some(Arc::new((p.n, f.z_i, zk)));
                report(s, k);
                let d = range(1, s.w.pace);
                s.after(d, move |s| go(s, k));
            },
        );
        return;
    }
    if p.n == p.steps {
        s.w.p[k].finished = true;
        return;
    }
    // take the step
    let p = &mut s.w.p[k];
    p.busy = true;
    let (job, n, big, inc, proof) = (p.job.clone(), p.n, p.big.clone(), p.inc, p.proof.clone());
    let mut m = p.m.take().unwrap();
    let (again, check) = (chance(1, 6), draw(4));
    // an attempt with another input, which is given up
    let abandoned = if chance(1, 6) {
        probe("step-abandoned");
        Some(job.inputs[draw_us(job.inputs.len())].w.clone())
    } else {
        None
    };
    let e = entropy(s);
    trace(format!("prover{k} takes step {n}"));
    s.spawn(
        node,
        format!("step{k}.{n}"),
        e,
        move || {
            let mut steps = || -> Result<Fq, String> {
                let mut h = None;
                if let Some(w) = &abandoned {
                    match &proof {
                        None => m.run(&job.inputs[0].i, None, w, None)?,
                        Some(z) => {
                            let p = job.step_input(n, &big);
                            m.run(&p.u_i, Some(&p.big_u_i), w, z.2.com_t.as_ref())?
                        }
                    };
                }
                for _ in 0..1 + again as u32 {
                    h = Some(match &proof {
                        None => m.run(&job.inputs[0].i, None, &job.inputs[0].w, None)?,
                        Some(z) => {
                            let p = job.step_input(n, &big);
                            m.run(&p.u_i, Some(&p.big_u_i), &p.w_i, z.2.com_t.as_ref())?
                        }
                    });
                }
                Ok(h.unwrap())
            };
            let r = steps();
            let mut own = None;
            if check == 1 {
                let zk = match &proof {
                    Some(z) => clone_zk(&z.2),
                    None => ZkIVCProof::trivial_zk_ivc_proof(&job.trivial.i),
                };
                own = Some(m.verify(&zk));
            }
            let between = m.fields();
            if r.is_ok() {
                m.next();
            }
            (m, r, own, between)
        },
        move |s, r| {
            if s.w.p[k].inc != inc {
                return;
            }
            let (m, r, own, between) = match r {
                Err(Fail::Crashed) => return,
                Err(Fail::Panicked(e)) => {
                    let at = crate::exec::last_panic_place();
                    return violation("step-panics", say(s, k, &format!("{e} at {at}")));
                }
                Ok(x) => x,
            };
            verdict("step-taken");
            if let Err(e) = r {
                return violation("honest-step-refused", say(s, k, &e));
            }
            if let Some(r) = own {
                verdict("own-proof-verified");
                if let Err(e) = r {
                    return violation("honest-proof-rejected", say(s, k, &format!("between step and next step: {e}")));
                }
            }
            let job = s.w.p[k].job.clone();
            let next = s.w.p[k].next_big.take().unwrap_or_else(|| job.trivial.clone());
            let f = m.fields();
            let want = job.hash_io(Fq::from(n as u64 + 1), job.z[0], job.z[n + 1], &next.i);
            verdict("state");
            if f.i != Fq::from(n as u64 + 1) || f.z_0 != job.z[0] || f.z_i != job.z[n + 1] {
                return violation("wrong-state", say(s, k, &format!("after the step: i={} z={}", f.i, f.z_i)));
            }
            if between.i != Fq::from(n as u64) || between.z_i != job.z[n] {
                return violation("wrong-state", say(s, k, "before the next step was begun"));
            }
            if f.h_i != Some(want) {
                return violation("wrong-hash", say(s, k, "after the step"));
            }
            let p = &mut s.w.p[k];
            p.busy = false;
            p.m = Some(m);
            p.n = n + 1;
            p.big = next;
            p.proof = None;
            if p.interval > 0 && (n as u64 + 1) % p.interval == 0 {
                p.disk = Some(Disk { n: p.n, f, big: p.big.clone() });
                probe("checkpoint");
            }
            let d = range(1, s.w.pace);
            s.after(d, move |s| go(s, k));
        },
    );
}

fn report(s: &mut S, k: usize) {
    let Some(z) = s.w.p[k].proof.clone() else { return };
    for v in 0..s.w.v.len() {
        if s.w.v[v].best[k] >= s.w.p[k].steps && !chance(1, 4) {
            continue;
        }
        if s.w.drop > 0 && !s.w.calm && chance(1, s.w.drop) {
            fault("net:dropped");
            continue;
        }
        let copies = if s.w.dup > 0 && !s.w.calm && chance(1, s.w.dup) {
            fault("net:duplicated");
            2
        } else {
            1
        };
        for _ in 0..copies {
            let d = range(1, s.w.reach);
            if d > 40 {
                fault("net:delayed");
            }
            let z = z.clone();
            s.after(d, move |s| {
                if s.w.v[v].up {
                    s.w.v[v].queue.push((k, z));
                    check(s, v);
                } else {
                    fault("net:lost-at-dead-node");
                }
            });
        }
    }
    // until every verifier has it
    s.after(200, move |s| {
        let done = (0..s.w.v.len()).all(|v| s.w.v[v].best[k] >= s.w.p[k].steps);
        if s.w.p[k].up && !done && s.w.p[k].finished && s.w.p[k].proof.is_some() {
            probe("retransmission");
            report(s, k);
        }
    });
}

fn check(s: &mut S, v: usize) {
    let ver = &mut s.w.v[v];
    if !ver.up || ver.busy || ver.queue.is_empty() {
        return;
    }
    ver.busy = true;
    let at = if chance(1, 3) { draw_us(ver.queue.len()) } else { 0 };
    let (k, z) = ver.queue.remove(at);
    let job = s.w.p[k].job.clone();
    let mut m = match s.w.v[v].m[k].take() {
        Some(m) => m,
        None => job.machine(),
    };
    let inc = s.w.v[v].inc;
    let e = entropy(s);
    let node = s.w.p.len() + v;
    trace(format!("verifier{v} gets job {k} step {}", z.0));
    if z.0 < s.w.v[v].best[k] {
        probe("stale-message");
    }
    let z2 = z.clone();
    s.spawn(
        node,
        format!("verify{v}"),
        e,
        move || {
            let f = Fields { i: Fq::from(z2.0 as u64), z_0: job.z[0], z_i: z2.1, z_i1: None, h_i: None, h_i1: None, trivial: job.trivial.i.clone() };
            m.restore(&f);
            let r = m.verify(&z2.2);
            let same = m.fields() == f;
            (m, r, same)
        },
        move |s, r| {
            if s.w.v[v].inc != inc {
                return;
            }
            s.w.v[v].busy = false;
            match r {
                Err(Fail::Crashed) => return,
                Err(Fail::Panicked(e)) => {
                    let at = crate::exec::last_panic_place();
                    return violation("verifier-panics", say(s, k, &format!("{e} at {at}")));
                }
                Ok((m, r, same)) => {
                    verdict("proof-verified");
                    if let Err(e) = r {
                        return violation("honest-proof-rejected", say(s, k, &format!("step {}: {e}", z.0)));
                    }
                    if !same {
                        return violation("verifying-changes-state", say(s, k, ""));
                    }
                    if s.w.p[k].job.z[z.0] != z.1 {
                        return violation("wrong-state", say(s, k, &format!("reported for step {}", z.0)));
                    }
                    s.w.v[v].m[k] = Some(m);
                    let b = &mut s.w.v[v].best[k];
                    *b = (*b).max(z.0);
                }
            }
            check(s, v);
        },
    );
}

pub fn run(ent: u64) {
    swarm(true);
    let np = range(1, 2) as usize;
    let nv = range(1, 2) as usize;
    let max = if crate::exec::thorough() { [5, 12, 24][weighted(&[3, 2, 1])] } else { [3, 6][weighted(&[2, 1])] };
    let mut provers = vec![];
    for _ in 0..np {
        let j = job(max);
        let steps = j.inputs.len() - 1;
        core::key(&format!("{} steps {steps}", j.show()));
        let trivial = j.trivial.clone();
        provers.push(Prover {
            up: true,
            inc: 0,
            job: Arc::new(j),
            steps,
            disk: None,
            interval: [1, 2, 0, 3][draw_us(4)],
            n: 0,
            m: None,
            big: trivial,
            proof: None,
            next_big: None,
            busy: false,
            finished: false,
        });
    }
    let mut s = Sim::new(W {
        v: (0..nv).map(|_| Verifier { up: true, inc: 0, m: (0..np).map(|_| None).collect(), best: vec![0; np], queue: vec![], busy: false }).collect(),
        p: provers,
        ent,
        calls: 0,
        calm: false,
        drop: [0, 8, 3][draw_us(3)],
        dup: [0, 6, 2][draw_us(3)],
        reach: [5, 60, 300][draw_us(3)],
        pace: [3, 40][draw_us(2)],
        restarts: 0,
    });
    for k in 0..np {
        let d = draw(50);
        s.after(d, move |s| boot(s, k));
    }
    for _ in 0..[0, 1, 2, 4][draw_us(4)] {
        let (t, n, d) = (range(1, 500), draw_us(np + nv), range(1, 120));
        s.after(t, move |s| {
            let busy = s.busy(n);
            let np = s.w.p.len();
            if n < np {
                if !s.w.p[n].up || s.w.p[n].m.is_none() && !busy {
                    return;
                }
                s.w.p[n].up = false;
                s.w.p[n].inc += 1;
                s.w.p[n].m = None;
                s.w.restarts += 1;
            } else {
                let v = &mut s.w.v[n - np];
                if !v.up {
                    return;
                }
                v.up = false;
                v.inc += 1;
                v.busy = false;
                v.queue.clear();
                v.m.iter_mut().for_each(|m| *m = None);
            }
            fault(if busy { "crash:in-operation" } else { "crash:idle" });
            trace(format!("crash node{n}"));
            s.crash(n);
            s.after(d, move |s| {
                let np = s.w.p.len();
                if n < np {
                    if !s.w.p[n].up {
                        boot(s, n)
                    }
                } else {
                    s.w.v[n - np].up = true;
                }
            });
        });
    }
    s.after(800, |s| {
        trace("faults stop");
        s.w.calm = true;
        s.w.reach = 20;
        for k in 0..s.w.p.len() {
            if !s.w.p[k].up {
                boot(s, k);
            }
        }
        for v in &mut s.w.v {
            v.up = true;
        }
    });
    s.run(20_000, |s| s.w.p.iter().enumerate().all(|(k, p)| p.finished && s.w.v.iter().all(|v| v.best[k] >= p.steps && v.queue.is_empty() && !v.busy)));
    if core::violated() {
        return;
    }
    let left: Vec<String> = s.w.p.iter().enumerate().map(|(k, p)| format!("{} of {} ({:?})", p.n, p.steps, s.w.v.iter().map(|v| v.best[k]).collect::<Vec<_>>())).collect();
    if s.w.p.iter().enumerate().any(|(k, p)| !p.finished || s.w.v.iter().any(|v| v.best[k] < p.steps)) {
        violation("no-progress", format!("steps done and reported: {left:?} at t={}", s.now));
    } else {
        verdict("progress");
    }
}
