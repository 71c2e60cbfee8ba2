//! C18: folding proofs on the network.

use super::nova::{alter_instance, alter_nifs, challenge_for, other_point, other_scalar, point_for, same_nifs, shift, system, transcript, Pair, Sys};
use super::session::{self, Cfg, Proto};
use crate::core::{chance, draw, draw_fr, draw_us, fr_of, range, weighted};
use crate::with_hash;
use ark_bls12_381::Fr;
use ark_ff::Field;
use kzg::commitment::KzgCommitment;
use nova::nifs::{NIFSProof, NIFS};
use nova::r1cs::FInstance;
use std::sync::Arc;

pub struct Stmt {
    sys: Arc<Sys>,
    hash: u64,
    history: Vec<Fr>,
    a: Pair,
    b: Pair,
    name: String,
}
#[derive(Clone)]
pub struct Msg {
    p: NIFSProof,
    f1: FInstance,
    f2: FInstance,
    f3: FInstance,
    t: KzgCommitment,
    /// the adversary found new challenges for its changes
    refit: bool,
}

pub struct Nifs;
impl Proto for Nifs {
    type Stmt = Stmt;
    type Proof = Msg;
    fn prove(&self, s: &Stmt) -> Msg {
        with_hash!(s.hash, T => {
            let mut t = transcript::<T>(&s.history);
            let k = s.sys.scheme();
            let (w, i, com_t, r) = NIFS::<T>::prover(&s.sys.r1cs, &s.a.w, &s.b.w, &s.a.i, &s.b.i, &k, &mut t);
            let p = NIFS::<T>::prove(r, &w, &i, &k, &mut t);
            Msg { p, f1: s.a.i.clone(), f2: s.b.i.clone(), f3: i, t: com_t, refit: false }
        })
    }
    fn verify(&self, s: &Stmt, m: &Msg) -> Result<(), String> {
        with_hash!(s.hash, T => {
            NIFS::<T>::verify(&m.p, &m.f1, &m.f2, &m.f3, &m.t, &s.sys.scheme(), &mut transcript::<T>(&s.history))
        })
    }
    fn same_proof(&self, a: &Msg, b: &Msg) -> bool {
        same_nifs(&a.p, &b.p) && (&a.f1, &a.f2, &a.f3, &a.t) == (&b.f1, &b.f2, &b.f3, &b.t)
    }
    fn same_stmt(&self, a: &Stmt, b: &Stmt) -> bool {
        a.sys.secret == b.sys.secret && a.hash == b.hash && a.history == b.history
    }
    fn same_input(&self, a: &Stmt, b: &Stmt) -> bool {
        std::ptr::eq(a, b)
    }
    fn deterministic(&self) -> bool {
        true
    }
    /// A changed message that was provided with new challenges may happen to be a proof.
    fn lucky(&self, s: &Stmt, m: &Msg) -> bool {
        let opens = s.sys.opens(&m.f3.com_w, &m.p.opening_w, m.p.opening_point) && s.sys.opens(&m.f3.com_e, &m.p.opening_e, m.p.opening_point);
        // constant polynomials open alike under every setup
        let constant = s.name.ends_with('\'') && opens;
        constant || (m.refit && opens)
    }
    fn alter(&self, s: &Stmt, p: &Msg, others: &[Arc<Msg>]) -> Option<(Msg, String)> {
        let mut q = p.clone();
        let o = if others.is_empty() { None } else { Some(others[draw_us(others.len())].clone()) };
        let d = fr_of(draw(1 << 40));
        let name = match weighted(&[3, 3, 3, 2, 4, 2, 4, 3, 4, 3, 6]) {
            0 => {
                let (x, n) = alter_instance(&q.f1, Some(o.as_ref().map(|o| &o.f1).unwrap_or(&q.f2)));
                q.f1 = x;
                format!("first.{n}")
            }
            1 => {
                let (x, n) = alter_instance(&q.f2, Some(o.as_ref().map(|o| &o.f2).unwrap_or(&q.f1)));
                q.f2 = x;
                format!("second.{n}")
            }
            2 => {
                let (x, n) = alter_instance(&q.f3, Some(o.as_ref().map(|o| &o.f3).unwrap_or(&q.f1)));
                q.f3 = x;
                format!("folded.{n}")
            }
            3 => {
                q.t = other_point(&q.t);
                "com_t".into()
            }
            4 => {
                let (x, n) = alter_nifs(&q.p, o.as_ref().map(|o| &o.p));
                q.p = x;
                n.into()
            }
            5 => {
                std::mem::swap(&mut q.f1, &mut q.f2);
                if chance(1, 2) {
                    q.f3 = with_hash!(s.hash, T => NIFS::<T>::verifier(q.p.r, &q.f1, &q.f2, &q.t));
                }
                "exchanged".into()
            }
            6 => {
                // what cancels in the folded instance
                let ri = q.p.r.inverse()?;
                match draw(5) {
                    0 => {
                        q.f1.com_w = shift(&q.f1.com_w, d);
                        q.f2.com_w = shift(&q.f2.com_w, -d * ri);
                    }
                    1 => {
                        q.f1.u += d;
                        q.f2.u -= d * ri;
                    }
                    2 if !q.f1.x.is_empty() && q.f2.x.len() == q.f1.x.len() => {
                        let k = draw_us(q.f1.x.len());
                        q.f1.x[k] += d;
                        q.f2.x[k] -= d * ri;
                    }
                    3 => {
                        q.f1.com_e = shift(&q.f1.com_e, d);
                        q.f2.com_e = shift(&q.f2.com_e, -d * ri * ri);
                    }
                    _ => {
                        q.f1.com_e = shift(&q.f1.com_e, d);
                        q.t = shift(&q.t, -d * ri);
                    }
                }
                "cancelling".into()
            }
            7 => {
                // parts of another fold
                let o = o?;
                match draw(6) {
                    0 => (q.f1, q.f2) = (o.f1.clone(), o.f2.clone()),
                    1 => (q.f3, q.p) = (o.f3.clone(), o.p.clone()),
                    2 => (q.t, q.p) = (o.t.clone(), o.p.clone()),
                    3 => (q.f1, q.f2, q.t) = (o.f1.clone(), o.f2.clone(), o.t.clone()),
                    4 => q.f3 = o.f3.clone(),
                    _ => q.t = o.t.clone(),
                }
                "splice".into()
            }
            8 => {
                // the folded instance and its openings moved along with an input; challenges kept
                let r = q.p.r;
                match draw(5) {
                    0 => {
                        q.f1.com_w = shift(&q.f1.com_w, d);
                        q.p.opening_w.1 += d;
                    }
                    1 => {
                        q.f2.com_w = shift(&q.f2.com_w, d);
                        q.p.opening_w.1 += d * r;
                    }
                    2 => {
                        q.f1.com_e = shift(&q.f1.com_e, d);
                        q.p.opening_e.1 += d;
                    }
                    3 => {
                        q.f2.com_e = shift(&q.f2.com_e, d);
                        q.p.opening_e.1 += d * r * r;
                    }
                    _ => {
                        q.t = shift(&q.t, d);
                        q.p.opening_e.1 += d * r;
                    }
                }
                q.f3 = with_hash!(s.hash, T => NIFS::<T>::verifier(r, &q.f1, &q.f2, &q.t));
                "moved-along".into()
            }
            10 => {
                // everything opens: only the relation that was broken can tell
                let mut point = None;
                let name = match draw(8) {
                    0 => {
                        q.f3.com_e = other_point(&q.f3.com_e);
                        "folded.com_e"
                    }
                    1 => {
                        q.f3.com_w = other_point(&q.f3.com_w);
                        "folded.com_w"
                    }
                    2 => {
                        q.f3.u = other_scalar(q.f3.u);
                        "folded.u"
                    }
                    3 => {
                        (q.f3, _) = alter_instance(&q.f3, Some(&q.f1));
                        "folded"
                    }
                    4 => {
                        q.p.r = other_scalar(q.p.r);
                        q.f3 = with_hash!(s.hash, T => NIFS::<T>::verifier(q.p.r, &q.f1, &q.f2, &q.t));
                        "r"
                    }
                    5 => {
                        q.t = other_point(&q.t);
                        q.f3 = with_hash!(s.hash, T => NIFS::<T>::verifier(q.p.r, &q.f1, &q.f2, &q.t));
                        "com_t"
                    }
                    6 => {
                        point = Some([Fr::from(0u64), Fr::from(1u64), draw_fr(), q.p.r][draw_us(4)]);
                        "point"
                    }
                    _ => {
                        let i = chance(1, 2);
                        let f = if i { &mut q.f1 } else { &mut q.f2 };
                        (*f, _) = alter_instance(f, o.as_ref().map(|o| &o.f1));
                        q.f3 = with_hash!(s.hash, T => NIFS::<T>::verifier(q.p.r, &q.f1, &q.f2, &q.t));
                        if i { "first" } else { "second" }
                    }
                };
                let k = s.sys.scheme();
                let own = with_hash!(s.hash, T => {
                    let mut t = transcript::<T>(&s.history);
                    let _ = NIFS::<T>::verify_challenge(q.p.r, &q.f1, &q.f2, &q.t, &mut t);
                    NIFS::<T>::prove(q.p.r, &s.a.w, &q.f3, &k, &mut t).opening_point
                });
                let z = point.unwrap_or(own);
                q.p.opening_point = z;
                q.p.opening_e = s.sys.open(&q.f3.com_e, z, q.p.opening_e.1)?;
                q.p.opening_w = s.sys.open(&q.f3.com_w, z, q.p.opening_w.1)?;
                format!("all-opens:{name}")
            }
            _ => {
                // new challenges, old openings
                match draw(3) {
                    0 => q.f1 = alter_instance(&q.f1, None).0,
                    1 => q.f2 = alter_instance(&q.f2, None).0,
                    _ => q.t = other_point(&q.t),
                }
                q.refit = true;
                q.p.r = challenge_for(s.hash, &s.history, &q.f1, &q.f2, &q.t)?;
                q.f3 = with_hash!(s.hash, T => NIFS::<T>::verifier(q.p.r, &q.f1, &q.f2, &q.t));
                if chance(2, 3) {
                    let m = (q.p.clone(), q.f1.clone(), q.f2.clone(), q.f3.clone(), q.t.clone());
                    q.p.opening_point = point_for(s.hash, &s.history, &m, &s.sys)?;
                }
                "refitted".into()
            }
        };
        Some((q, name))
    }
    fn show(&self, s: &Stmt) -> String {
        format!("fold of {} system {} hash {} history {}", s.name, s.sys.desc, s.hash, s.history.len())
    }
}

fn pair(sys: &Sys) -> (Pair, &'static str) {
    match weighted(&[5, 3, 1]) {
        0 => (sys.plain(), "plain"),
        1 => (sys.relaxed(), "relaxed"),
        _ => (sys.trivial(), "trivial"),
    }
}

pub fn run(ent: u64) {
    let free = chance(1, 6);
    let nx = [1, 2, 0, 3][weighted(&[5, 2, 1, 1])];
    let sys = Arc::new(system(if chance(1, 60) { range(20, 80) } else { [4, 8][draw_us(2)] }, nx, free));
    let hash = draw(4);
    let mut stmts: Vec<Stmt> = vec![];
    let mut last: Option<Pair> = None;
    for _ in 0..range(1, 3) {
        let (a, na) = pair(&sys);
        let (b, nb) = pair(&sys);
        let a = match last.take() {
            Some(p) if chance(1, 3) => p,
            _ => a,
        };
        last = Some(b.clone());
        let history: Vec<Fr> = if chance(1, 4) { vec![draw_fr()] } else { vec![] };
        stmts.push(Stmt { sys: sys.clone(), hash, history, a, b, name: format!("{na},{nb}") });
    }
    let mut decoys = vec![];
    for _ in 0..range(1, 3) {
        let p = &stmts[draw_us(stmts.len())];
        let mut st = Stmt { sys: p.sys.clone(), hash: p.hash, history: p.history.clone(), a: p.a.clone(), b: p.b.clone(), name: p.name.clone() };
        match draw(3) {
            0 => st.hash = (hash + 1 + draw(3)) % 4,
            1 => st.history.push(draw_fr()),
            _ => {
                st.sys = Arc::new(sys.with_secret(sys.secret + Fr::from(range(1, 9))));
                st.name += "'";
            }
        }
        decoys.push(st);
    }
    session::run(Nifs, stmts, decoys, Cfg { byzantine: true, faults: true, max_verify: 30 }, ent);
}
