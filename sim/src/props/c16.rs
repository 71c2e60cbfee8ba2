//! C16: IVC proofs with their claims on the network.

use super::nova::{alter_instance, alter_nifs, clone_zk, job, other_point, other_scalar, same_zk, shift, to_fr, Fields, Job, Machine, Pair};
use super::session::{self, Cfg, Proto};
use crate::core::{self, chance, delta, draw, draw_fr, draw_us, field_of, fr_of, range, weighted};
use ark_bls12_381::{Fq, Fr};
use ark_ff::{Field, One, Zero};
use nova::ivc::{IVCProof, ZkIVCProof};
use std::sync::{Arc, Mutex};

pub struct Stmt {
    job: Arc<Job>,
    n: usize,
    fields: Fields,
    big: Pair,
    /// the verifier's long-lived object
    m: Mutex<Option<Box<dyn Machine>>>,
    setup: u64,
}
pub struct Msg {
    i: Fq,
    z0: Fq,
    zi: Fq,
    zk: ZkIVCProof,
}
impl Clone for Msg {
    fn clone(&self) -> Self {
        Msg { i: self.i, z0: self.z0, zi: self.zi, zk: clone_zk(&self.zk) }
    }
}

pub struct Ivc;
impl Proto for Ivc {
    type Stmt = Stmt;
    type Proof = Msg;
    fn prove(&self, s: &Stmt) -> Msg {
        let mut m = s.job.machine();
        m.restore(&s.fields);
        let (_, _, zk) = m.prove(&s.job.sys.r1cs, &s.job.step_input(s.n, &s.big));
        Msg { i: s.fields.i, z0: s.fields.z_0, zi: s.fields.z_i, zk }
    }
    fn verify(&self, s: &Stmt, m: &Msg) -> Result<(), String> {
        let kept = s.m.lock().unwrap().take();
        let mut v = kept.unwrap_or_else(|| s.job.machine());
        let f = Fields { i: m.i, z_0: m.z0, z_i: m.zi, z_i1: None, h_i: None, h_i1: None, trivial: s.job.trivial.i.clone() };
        v.restore(&f);
        let r = v.verify(&m.zk);
        if v.fields() != f {
            core::violation("verifying-changes-state", self.show(s));
        }
        *s.m.lock().unwrap() = Some(v);
        r
    }
    fn same_proof(&self, a: &Msg, b: &Msg) -> bool {
        (a.i, a.z0, a.zi) == (b.i, b.z0, b.zi) && same_zk(&a.zk, &b.zk)
    }
    fn same_stmt(&self, a: &Stmt, b: &Stmt) -> bool {
        a.job.hash == b.job.hash && a.setup == b.setup
    }
    fn same_input(&self, a: &Stmt, b: &Stmt) -> bool {
        std::ptr::eq(a, b)
    }
    fn deterministic(&self) -> bool {
        true
    }
    fn lucky(&self, s: &Stmt, m: &Msg) -> bool {
        // constant polynomials open alike under every setup
        s.setup > 0 && m.zk.folded_u_proof.as_ref().map(|p| p.opening_e.0.infinity && p.opening_w.0.infinity) == Some(true)
    }
    fn alter(&self, s: &Stmt, p: &Msg, others: &[Arc<Msg>]) -> Option<(Msg, String)> {
        let mut q = p.clone();
        let o = if others.is_empty() { None } else { Some(others[draw_us(others.len())].clone()) };
        let d = fr_of(draw(1 << 40));
        let rehash = |q: &mut Msg| {
            let h = s.job.hash_io(q.i, q.z0, q.zi, &q.zk.big_u_i);
            q.zk.u_i.x = vec![to_fr(h)];
        };
        let name = match weighted(&[4, 4, 4, 2, 4, 4, 3, 3, 2, 3]) {
            0 => {
                let k = draw(9);
                match k {
                    0 => q.i += delta::<Fq>(),
                    1 => q.i -= Fq::one(),
                    2 => q.i = Fq::from(draw(20)),
                    3 => q.z0 += delta::<Fq>(),
                    4 => q.zi += delta::<Fq>(),
                    5 => std::mem::swap(&mut q.z0, &mut q.zi),
                    6 => q.zi = q.z0,
                    7 => q.z0 = field_of(draw(1 << 40)),
                    _ => {
                        let o = o?;
                        match draw(4) {
                            0 => q.i = o.i,
                            1 => q.z0 = o.z0,
                            2 => q.zi = o.zi,
                            _ => (q.i, q.z0, q.zi) = (o.i, o.z0, o.zi),
                        }
                    }
                }
                ["claim.i", "claim.i", "claim.i", "claim.z0", "claim.zi", "claim.swapped", "claim.zi", "claim.z0", "claim.of-another"][k as usize].to_string()
            }
            1 => {
                let (x, n) = alter_instance(&q.zk.u_i, Some(o.as_ref().map(|o| &o.zk.u_i).unwrap_or(&q.zk.big_u_i)));
                q.zk.u_i = x;
                format!("u.{n}")
            }
            2 => {
                let (x, n) = alter_instance(&q.zk.big_u_i, Some(o.as_ref().map(|o| &o.zk.big_u_i).unwrap_or(&q.zk.u_i)));
                q.zk.big_u_i = x;
                format!("running.{n}")
            }
            3 => {
                q.zk.com_t = match draw(3) {
                    0 => None,
                    _ => q.zk.com_t.as_ref().map(other_point),
                };
                "com_t".into()
            }
            4 => {
                if chance(1, 6) {
                    q.zk.folded_u_proof = None;
                    "proof-missing".into()
                } else {
                    let other = o.as_ref().and_then(|o| o.zk.folded_u_proof.as_ref());
                    let (x, n) = alter_nifs(q.zk.folded_u_proof.as_ref()?, other);
                    q.zk.folded_u_proof = Some(x);
                    n.to_string()
                }
            }
            5 => {
                // parts of another proof, in groups
                let o = o?;
                match draw(7) {
                    0 => q.zk.u_i = o.zk.u_i.clone(),
                    1 => q.zk.big_u_i = o.zk.big_u_i.clone(),
                    2 => (q.zk.u_i, q.zk.big_u_i) = (o.zk.u_i.clone(), o.zk.big_u_i.clone()),
                    3 => (q.zk.com_t, q.zk.folded_u_proof) = (o.zk.com_t.clone(), o.zk.folded_u_proof.clone()),
                    4 => q.zk.com_t = o.zk.com_t.clone(),
                    5 => (q.i, q.z0, q.zi, q.zk.big_u_i) = (o.i, o.z0, o.zi, o.zk.big_u_i.clone()),
                    _ => (q.zk.big_u_i, q.zk.com_t, q.zk.folded_u_proof) = (o.zk.big_u_i.clone(), o.zk.com_t.clone(), o.zk.folded_u_proof.clone()),
                }
                "splice".into()
            }
            6 => {
                // what cancels in the folded instance
                let r = q.zk.folded_u_proof.as_ref()?.r;
                let ri = r.inverse()?;
                let k = draw(5);
                match k {
                    0 => {
                        q.zk.u_i.com_w = shift(&q.zk.u_i.com_w, d);
                        q.zk.big_u_i.com_w = shift(&q.zk.big_u_i.com_w, -d * ri);
                    }
                    1 => {
                        q.zk.u_i.com_e = shift(&q.zk.u_i.com_e, d);
                        q.zk.com_t = q.zk.com_t.as_ref().map(|t| shift(t, -d * ri));
                    }
                    2 => {
                        q.zk.big_u_i.com_e = shift(&q.zk.big_u_i.com_e, d);
                        q.zk.com_t = q.zk.com_t.as_ref().map(|t| shift(t, -d * r));
                    }
                    3 => {
                        q.zk.u_i.u += d;
                        q.zk.big_u_i.u -= d * ri;
                    }
                    _ => {
                        let x = q.zk.big_u_i.x.first_mut()?;
                        *x -= d * ri;
                        *q.zk.u_i.x.first_mut()? += d;
                    }
                }
                if k != 4 && chance(1, 2) {
                    rehash(&mut q);
                }
                "cancelling".into()
            }
            7 => {
                // moved together with the opening; challenges kept
                let np = q.zk.folded_u_proof.as_mut()?;
                let r = np.r;
                match draw(3) {
                    0 => {
                        q.zk.com_t = q.zk.com_t.as_ref().map(|t| shift(t, d));
                        np.opening_e.1 += d * r;
                    }
                    1 => {
                        q.zk.u_i.com_w = shift(&q.zk.u_i.com_w, d);
                        np.opening_w.1 += d;
                    }
                    _ => {
                        q.zk.big_u_i.com_w = shift(&q.zk.big_u_i.com_w, d);
                        np.opening_w.1 += d * r;
                        if chance(1, 2) {
                            rehash(&mut q);
                        }
                    }
                }
                "moved-along".into()
            }
            9 => {
                // folded and opened anew after a change the step instance knows nothing of
                let p = s.job.step_input(s.n, &s.big);
                let (mut u, mut w) = (p.u_i.clone(), p.w_i.clone());
                let mut big = s.big.clone();
                let what = match draw(12) {
                    0 => {
                        u.u = other_scalar(u.u);
                        "u.u"
                    }
                    1 => {
                        u.x[0] = other_scalar(u.x[0]);
                        "u.x"
                    }
                    3 => {
                        // of the running instance
                        match draw(3) {
                            0 => (u.com_e, w.e) = (big.i.com_e.clone(), big.w.e.clone()),
                            1 => u.u = big.i.u,
                            _ => u.x = big.i.x.clone(),
                        }
                        "u.of-running"
                    }
                    4 => {
                        // the hash is not where it is looked for
                        match draw(3) {
                            0 => u.x.insert(0, draw_fr()),
                            1 => u.x.insert(0, Fr::from(0u64)),
                            _ => u.x.clear(),
                        }
                        "u.x-moved"
                    }
                    2 => {
                        let k = draw_us(w.e.len());
                        w.e[k] += delta::<Fr>();
                        u.com_e = s.job.sys.com(&w.e);
                        "u.error"
                    }
                    _ => {
                        let o = if chance(1, 2) { s.job.trivial.clone() } else { s.job.sys.relaxed() };
                        let (b, what) = s.job.sys.corrupt(&big, &o);
                        big = b;
                        what
                    }
                };
                if (&u, &big.i) == (&p.u_i, &s.big.i) {
                    return None;
                }
                let mut m = s.job.machine();
                m.restore(&s.fields);
                q.zk = m.prove(&s.job.sys.r1cs, &IVCProof::new(&u, &w, &big.i, &big.w)).2;
                format!("reproved:{what}")
            }
            _ => {
                // other claims with the right hash for them, the rest kept
                match draw(3) {
                    0 => q.i += delta::<Fq>(),
                    1 => q.z0 += delta::<Fq>(),
                    _ => q.zi += delta::<Fq>(),
                }
                rehash(&mut q);
                if chance(1, 3) {
                    let np = q.zk.folded_u_proof.as_mut()?;
                    np.r = other_scalar(np.r);
                }
                "claim-rehashed".into()
            }
        };
        // before the first step there is nothing to prove
        if q.i.is_zero() && q.z0 == q.zi {
            return None;
        }
        Some((q, name))
    }
    fn show(&self, s: &Stmt) -> String {
        format!("{} step {}", s.job.show(), s.n)
    }
}

fn stmts_of(j: Arc<Job>, all: &mut Vec<Stmt>, count: usize) {
    let steps = j.inputs.len() - 1;
    let snaps = j.snapshots(steps);
    for _ in 0..count {
        let n = 1 + draw_us(steps);
        let (fields, big) = snaps[n].clone();
        all.push(Stmt { job: j.clone(), n, fields, big, m: Mutex::new(None), setup: 0 });
    }
}

pub fn run(ent: u64) {
    let max = if crate::exec::thorough() { 6 } else { 3 };
    let j = Arc::new(job(max));
    let mut stmts = vec![];
    stmts_of(j.clone(), &mut stmts, range(1, 3) as usize);
    if chance(1, 3) {
        // another run of the same machine
        let mut z0 = j.z[0];
        if chance(1, 2) {
            z0 += Fq::one();
        }
        let steps = range(1, 2) as usize;
        let k = Arc::new(Job::new(j.sys.clone(), j.step.clone(), j.hash, z0, steps));
        stmts_of(k, &mut stmts, 1);
    }
    let mut decoys = vec![];
    for _ in 0..range(1, 2) {
        let s = &stmts[draw_us(stmts.len())];
        let j = &s.job;
        let (mut sys, mut hash, mut setup) = (j.sys.clone(), j.hash, 0);
        if draw(2) == 0 {
            hash = (hash + 1 + draw(3)) % 4;
        } else {
            setup = range(1, 5);
            sys = Arc::new(sys.with_secret(sys.secret + Fr::from(setup)));
        }
        let job = Arc::new(Job { sys, step: j.step.clone(), hash, z: j.z.clone(), inputs: j.inputs.clone(), trivial: j.trivial.clone() });
        decoys.push(Stmt { job, n: s.n, fields: s.fields.clone(), big: s.big.clone(), m: Mutex::new(None), setup });
    }
    session::run(Ivc, stmts, decoys, Cfg { byzantine: true, faults: true, max_verify: 30 }, ent);
}
