//! C19: IVC provers that did not do the computation.

use super::arena::{self, Case, Expect};
use super::c07::g;
use super::nova::{clone_zk, job, shift, to_fr, transcript, Fields, Job, Pair};
use crate::core::{self, chance, draw, draw_fr, draw_us, fault, field_of, fr_of, range, weighted};
use crate::with_hash;
use ark_bls12_381::{Fq, Fr};
use ark_ff::{Field, One, Zero};
use kzg::commitment::KzgCommitment;
use nova::ivc::{IVCProof, ZkIVCProof};
use nova::nifs::{NIFSProof, NIFS};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
struct Claim {
    i: Fq,
    z0: Fq,
    zi: Fq,
}

struct Forger {
    job: Arc<Job>,
    snaps: Vec<(Fields, Pair)>,
}
impl Forger {
    fn true_claim(&self, n: usize) -> Claim {
        Claim { i: Fq::from(n as u64), z0: self.job.z[0], zi: self.job.z[n] }
    }
    /// A fresh pair that commits to the claim and the running pair.
    fn fresh(&self, c: Claim, big: &Pair) -> Pair {
        let k = draw_us(self.job.inputs.len());
        let mut p = self.job.inputs[k].clone();
        p.i.x = vec![to_fr(self.job.hash_io(c.i, c.z0, c.zi, &big.i))];
        p
    }
    /// The proof the library makes of a fold.
    fn fold(&self, u: &Pair, big: &Pair) -> ZkIVCProof {
        let mut m = self.job.machine();
        let mut f = m.fields();
        f.i = Fq::one();
        m.restore(&f);
        m.prove(&self.job.sys.r1cs, &IVCProof::new(&u.i, &u.w, &big.i, &big.w)).2
    }
    /// The same with everything the prover likes: cross term, challenge, opening point.
    fn fold_with(&self, u: &Pair, big: &Pair, t: &[Fr], r: Option<Fr>, point: Option<Fr>) -> Option<ZkIVCProof> {
        let j = &self.job;
        let k = j.sys.scheme();
        let com_t = k.commit_vector(t);
        let right = super::nova::challenge_for(j.hash, &[], &u.i, &big.i, &com_t);
        let r = r.or(right)?;
        with_hash!(j.hash, T => {
            let mut tr = transcript::<T>(&[]);
            let w3 = NIFS::<T>::fold_witness(r, &u.w, &big.w, t);
            let i3 = NIFS::<T>::verifier(r, &u.i, &big.i, &com_t);
            let _ = NIFS::<T>::verify_challenge(r, &u.i, &big.i, &com_t, &mut tr);
            let mut p = NIFS::<T>::prove(r, &w3, &i3, &k, &mut tr);
            if let Some(z) = point {
                p = NIFSProof { r, opening_point: z, opening_e: k.open_vector(&w3.e, z), opening_w: k.open_vector(&w3.w, z) };
            }
            Some(ZkIVCProof { u_i: u.i.clone(), big_u_i: big.i.clone(), com_t: Some(com_t), folded_u_proof: Some(p) })
        })
    }
    fn running(&self) -> Pair {
        match draw(3) {
            0 => self.job.trivial.clone(),
            1 => self.job.sys.relaxed(),
            _ => self.snaps[1 + draw_us(self.snaps.len() - 1)].1.clone(),
        }
    }
    fn false_claim(&self) -> Claim {
        let n = 1 + draw_us(self.snaps.len() - 1);
        let mut c = self.true_claim(n);
        match draw(4) {
            0 => c.zi += core::delta::<Fq>(),
            1 => c.zi = field_of(draw(1 << 40)),
            2 => c.z0 += core::delta::<Fq>(),
            _ => c.i += Fq::from(range(1, 40)),
        }
        c
    }
    /// Could the claim be true for some inputs? Then it proves nothing.
    fn may_be_true(&self, c: Claim) -> bool {
        let s = &self.job.step;
        // without inputs the states are fixed by the number of steps
        match s.kind {
            2 | 4 | 5 => {
                let mut z = c.z0;
                let w = &self.job.inputs[0].w;
                for k in 0..100u64 {
                    if c.i == Fq::from(k) {
                        return z == c.zi;
                    }
                    z = s.apply(z, w);
                }
                true
            }
            _ => false,
        }
    }

    fn attack(&self) -> Option<(Claim, ZkIVCProof, String, Option<&'static str>)> {
        let j = &self.job;
        let last = self.snaps.len() - 1;
        let rows = j.sys.rows;
        let c = self.false_claim();
        let big = self.running();
        let d = fr_of(draw(1 << 40));
        let zero_t = vec![Fr::zero(); rows];
        let random_t: Vec<Fr> = (0..rows).map(|_| draw_fr()).collect();
        Some(match weighted(&[2, 2, 2, 3, 3, 4, 3, 3, 3, 3, 2, 3, 2, 2]) {
            0 => {
                // no computation at all
                let u = self.fresh(c, &big);
                (c, self.fold(&u, &big), "invented".into(), Some("invented-state"))
            }
            1 => {
                // one step is not taken, the rest as it should be
                let n = 1 + draw_us(last);
                let mut c = self.true_claim(n);
                c.i += core::delta::<Fq>();
                let b = &self.snaps[n].1;
                let u = self.fresh(c, b);
                (c, self.fold(&u, b), "skipped".into(), Some("skipped-step"))
            }
            2 => {
                // one step gives another state; from there on all is computed and folded rightly
                let k = 1 + draw_us(last);
                let mut z = j.z[k] + field_of::<Fq>(1 + draw(1 << 30));
                let mut b = self.snaps[k].1.clone();
                let more = draw(3);
                for m in 0..more {
                    let cl = Claim { i: Fq::from(k as u64 + m), z0: j.z[0], zi: z };
                    let p = self.fresh(cl, &b);
                    let mut mc = j.machine();
                    let mut f = mc.fields();
                    f.i = cl.i;
                    mc.restore(&f);
                    let (w, i, _) = mc.prove(&j.sys.r1cs, &IVCProof::new(&p.i, &p.w, &b.i, &b.w));
                    z = j.step.apply(z, &p.w);
                    b = Pair { w, i };
                }
                let cl = Claim { i: Fq::from(k as u64 + more), z0: j.z[0], zi: z };
                let p = self.fresh(cl, &b);
                (cl, self.fold(&p, &b), "changed".into(), Some("changed-step"))
            }
            3 => {
                // a fresh instance with a scalar of its own
                let mut u = self.fresh(c, &big);
                u.i.u = match draw(4) {
                    0 => Fr::zero(),
                    1 => -Fr::one(),
                    2 => Fr::from(2u64),
                    _ => d,
                };
                if u.i.u == Fr::one() {
                    return None;
                }
                (c, self.fold(&u, &big), "fresh-u".into(), None)
            }
            4 => {
                // a fresh instance with an error of its own, satisfying the relaxed equation or not
                let mut u = self.fresh(c, &big);
                u.w.e = match draw(3) {
                    0 => j.sys.slack(&u.w.w, &u.i.x, u.i.u),
                    1 => random_t.clone(),
                    _ => big.w.e.clone(),
                };
                u.i.com_e = j.sys.com(&u.w.e);
                if u.i.com_e.0.infinity {
                    return None;
                }
                (c, self.fold(&u, &big), "fresh-error".into(), None)
            }
            5 => {
                // the challenge is the prover's choice
                let u = self.fresh(c, &big);
                let r = match draw(4) {
                    0 => Fr::zero(),
                    1 => Fr::one(),
                    2 => d,
                    _ => {
                        // the one for another cross term
                        let other = j.sys.scheme().commit_vector(&random_t);
                        super::nova::challenge_for(j.hash, &[], &u.i, &big.i, &other)?
                    }
                };
                let com = j.sys.scheme().commit_vector(&zero_t);
                if super::nova::challenge_for(j.hash, &[], &u.i, &big.i, &com)? == r {
                    return None;
                }
                (c, self.fold_with(&u, &big, &zero_t, Some(r), None)?, "chosen-challenge".into(), None)
            }
            6 => {
                // the opening point is the prover's choice
                let u = self.fresh(c, &big);
                let z = if chance(1, 3) { Fr::zero() } else { d };
                (c, self.fold_with(&u, &big, &random_t, None, Some(z))?, "chosen-point".into(), None)
            }
            7 => {
                // everything as in an honest proof, for another claim
                let n = 1 + draw_us(last);
                let t = self.true_claim(n);
                if t == c {
                    return None;
                }
                let b = &self.snaps[n].1;
                let u = self.fresh(t, b);
                (c, self.fold(&u, b), "wrong-claim".into(), None)
            }
            8 => {
                // the running instance is exchanged after the hash
                let b = self.snaps[1 + draw_us(last)].1.clone();
                if b.i == big.i {
                    return None;
                }
                let u = self.fresh(c, &b);
                (c, self.fold(&u, &big), "running-exchanged".into(), None)
            }
            9 => {
                // parts are left out
                let u = self.fresh(c, &big);
                let mut z = self.fold(&u, &big);
                match draw(4) {
                    0 => z.com_t = None,
                    1 => z.folded_u_proof = None,
                    2 => {
                        z.com_t = None;
                        z.folded_u_proof = None;
                    }
                    _ => z.u_i.x.clear(),
                }
                (c, z, "left-out".into(), None)
            }
            10 => {
                // no steps, but another state
                let mut c = c;
                c.i = Fq::zero();
                if c.z0 == c.zi {
                    return None;
                }
                let u = self.fresh(c, &big);
                let z = match chance(1, 2) {
                    true => ZkIVCProof::trivial_zk_ivc_proof(&j.trivial.i),
                    false => self.fold(&u, &big),
                };
                (c, z, "no-steps".into(), None)
            }
            11 => {
                // commitments to nothing known, made to fit a challenge that was
                if d.is_zero() {
                    return None;
                }
                let mut u = self.fresh(c, &big);
                let com_t = j.sys.scheme().commit_vector(&zero_t);
                let r = super::nova::challenge_for(j.hash, &[], &u.i, &big.i, &com_t)?;
                let mut z = self.fold_with(&u, &big, &zero_t, Some(r), None)?;
                match draw(3) {
                    0 => {
                        // the fold stays the same
                        let x = g(d);
                        u.i.com_w = KzgCommitment((u.i.com_w.0 + x).into());
                        z.u_i.com_w = u.i.com_w.clone();
                        let mut b = big.clone();
                        b.i.com_w = shift(&b.i.com_w, -d * r.inverse()?);
                        z.big_u_i = b.i.clone();
                        z.u_i.x = vec![to_fr(j.hash_io(c.i, c.z0, c.zi, &b.i))];
                    }
                    1 => z.com_t = z.com_t.as_ref().map(|t| shift(t, d)),
                    _ => z.u_i.com_w = shift(&z.u_i.com_w, d),
                }
                (c, z, "fitted".into(), None)
            }
            12 => {
                // openings of something else than what was folded
                let u = self.fresh(c, &big);
                let mut z = self.fold(&u, &big);
                let p = z.folded_u_proof.as_mut()?;
                let k = j.sys.scheme();
                let other: Vec<Fr> = (0..rows).map(|_| draw_fr()).collect();
                match draw(3) {
                    0 => p.opening_e = k.open_vector(&other, p.opening_point),
                    1 => p.opening_w = k.open_vector(&other, p.opening_point),
                    _ => {
                        p.opening_w = k.open_vector(&other, p.opening_point);
                        p.opening_e = p.opening_w.clone();
                    }
                }
                let r = p.r;
                let com = with_hash!(j.hash, T => NIFS::<T>::verifier(r, &u.i, &big.i, z.com_t.as_ref()?));
                if j.sys.opens(&com.com_e, &p.opening_e, p.opening_point) && j.sys.opens(&com.com_w, &p.opening_w, p.opening_point) {
                    return None;
                }
                (c, z, "wrong-opening".into(), None)
            }
            _ => {
                // an honest proof of another run or of fewer steps
                let n = 1 + draw_us(last);
                if self.true_claim(n) == c {
                    return None;
                }
                let b = &self.snaps[n].1;
                let u = self.fresh(self.true_claim(n), b);
                let mut z = self.fold(&u, b);
                // with the hash of the false claim put in afterwards
                z.u_i.x = vec![to_fr(j.hash_io(c.i, c.z0, c.zi, &b.i))];
                (c, z, "hash-afterwards".into(), None)
            }
        })
    }
}
fn verify(job: &Job, c: Claim, z: &ZkIVCProof) -> Result<(), String> {
    let mut m = job.machine();
    let f = Fields { i: c.i, z_0: c.z0, z_i: c.zi, z_i1: None, h_i: None, h_i1: None, trivial: job.trivial.i.clone() };
    m.restore(&f);
    m.verify(z)
}

pub fn run(ent: u64) {
    let job = Arc::new(job(if crate::exec::thorough() { 5 } else { 3 }));
    let steps = job.inputs.len() - 1;
    let snaps = match core::guard(|| job.snapshots(steps)) {
        Ok(s) => s,
        Err(e) => return core::violation("honest-computation-panics", e),
    };
    let f = Forger { job: job.clone(), snaps };
    let mut cases = vec![];
    // the honest proof is accepted, so that rejecting everything is no way out
    let n = 1 + draw_us(steps);
    let b = f.snaps[n].1.clone();
    let p = job.step_input(n, &b);
    let z = f.fold(&Pair { w: p.w_i.clone(), i: p.u_i.clone() }, &b);
    let (j, c) = (job.clone(), f.true_claim(n));
    cases.push(Case::new("honest", format!("step {n} of {}", job.show()), Expect::Accept, move || verify(&j, c, &z)));
    let want = range(3, 9);
    for _ in 0..3 * want {
        if cases.len() as u64 > want {
            break;
        }
        let a = match core::guard(|| f.attack()) {
            Ok(a) => a,
            Err(e) => return core::violation("proving-panics", format!("{e} at {}", crate::exec::last_panic_place())),
        };
        let Some((c, z, name, known)) = a else { continue };
        if f.may_be_true(c) {
            continue;
        }
        fault(&format!("byz:{name}"));
        let (j, z) = (job.clone(), clone_zk(&z));
        let case = Case::new(name, format!("claim i={} of {}", c.i, job.show()), Expect::Reject, move || verify(&j, c, &z));
        cases.push(match known {
            Some(k) => case.finding(k),
            None => case,
        });
    }
    arena::run(cases, ent);
}
