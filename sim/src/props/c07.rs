//! C07: openings of KZG commitments.

use super::session::{self, Cfg, Proto};
use crate::core::{self, chance, draw, draw_fr, draw_us, fr_of, probe, range, verdict, violation, weighted};
use ark_bls12_381::{Fr, G1Affine};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::Zero;
use ark_poly::DenseUVPolynomial;
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use kzg::types::Poly;
use std::sync::Arc;

pub struct Stmt {
    pub coeffs: Vec<Fr>,
    pub z: Fr,
    pub secret: Fr,
    pub srs: Srs,
    /// which of the equivalent entry points is used
    pub how: u64,
}
#[derive(Clone, PartialEq)]
pub struct Msg {
    pub c: G1Affine,
    pub w: G1Affine,
    pub y: Fr,
    pub z: Fr,
}
pub fn horner(c: &[Fr], z: Fr) -> Fr {
    c.iter().rev().fold(Fr::zero(), |a, k| a * z + k)
}
pub fn poly(c: &[Fr]) -> Poly {
    Poly::from_coefficients_slice(c)
}
pub fn g(k: Fr) -> G1Affine {
    (G1Affine::generator() * k).into_affine()
}

pub struct Kzg;
impl Proto for Kzg {
    type Stmt = Stmt;
    type Proof = Msg;
    fn prove(&self, s: &Stmt) -> Msg {
        let k = KzgScheme::new(s.srs.clone());
        crate::sched::yield_point("kzg");
        let c = match s.how {
            0 | 1 => k.commit(&poly(&s.coeffs)),
            2 => k.commit_vector(&s.coeffs),
            _ if s.coeffs.len() <= 1 => k.commit_para(s.coeffs.first().copied().unwrap_or(Fr::zero())),
            _ => k.commit_vector(&s.coeffs),
        };
        crate::sched::yield_point("kzg");
        let o = if s.how % 2 == 0 { k.open(&poly(&s.coeffs), s.z) } else { k.open_vector(&s.coeffs, s.z) };
        assert!(o.clone().eval() == o.1);
        if o.1 != horner(&s.coeffs, s.z) {
            crate::core::violation("wrong-value", self.show(s));
        }
        if c.0 != g(horner(&s.coeffs, s.secret)) {
            crate::core::violation("wrong-commitment", self.show(s));
        }
        Msg { c: c.0, w: o.0, y: o.1, z: s.z }
    }
    fn verify(&self, s: &Stmt, m: &Msg) -> Result<(), String> {
        crate::sched::yield_point("kzg");
        if KzgScheme::new(s.srs.clone()).verify(&KzgCommitment(m.c), &KzgOpening(m.w, m.y), m.z) {
            Ok(())
        } else {
            Err("no".into())
        }
    }
    fn same_proof(&self, a: &Msg, b: &Msg) -> bool {
        a == b
    }
    fn same_stmt(&self, a: &Stmt, b: &Stmt) -> bool {
        a.secret == b.secret && a.coeffs == b.coeffs && a.z == b.z
    }
    fn deterministic(&self) -> bool {
        true
    }
    /// With the secret known, the pairing equation can be decided without pairings.
    fn valid(&self, s: &Stmt, m: &Msg) -> Option<bool> {
        let left = m.w * (s.secret - m.z);
        let right = m.c.into_group() - g(m.y);
        Some(left == right)
    }
    fn alter(&self, target: &Stmt, m: &Msg, others: &[Arc<Msg>]) -> Option<(Msg, String)> {
        let mut q = m.clone();
        let o = others.get(draw_us(others.len().max(1))).map(|o| (**o).clone());
        let point = |p: G1Affine| -> G1Affine {
            match draw(5) {
                0 => (p + G1Affine::generator()).into(),
                1 => -p,
                2 => G1Affine::zero(),
                3 => (p * Fr::from(2)).into(),
                _ => g(fr_of(draw(1 << 40))),
            }
        };
        let scalar = |f: Fr| -> Fr {
            match draw(4) {
                0 => f + crate::core::delta::<Fr>(),
                1 => -f,
                2 => Fr::zero(),
                _ => draw_fr(),
            }
        };
        let name = match weighted(&[3, 3, 3, 3, 3, 2, 2, 2]) {
            0 => {
                q.y = scalar(q.y);
                "value"
            }
            1 => {
                q.w = point(q.w);
                "witness"
            }
            2 => {
                q.c = point(q.c);
                "commitment"
            }
            3 => {
                q.z = scalar(q.z);
                "point"
            }
            4 => {
                // a part of another opening
                let o = o?;
                match draw(5) {
                    0 => q.c = o.c,
                    1 => q.w = o.w,
                    2 => q.y = o.y,
                    3 => q.z = o.z,
                    _ => {
                        q.w = o.w;
                        q.y = o.y;
                    }
                }
                "splice"
            }
            5 => {
                // shifted together, consistently
                let d = draw_fr();
                q.c = (q.c + g(d)).into();
                q.y += d;
                "shifted"
            }
            6 => {
                // an opening forged with the secret: right for any value
                q.y = draw_fr();
                let k = (target.secret - q.z).inverse_or_one();
                q.w = ((q.c.into_group() - g(q.y)) * k).into();
                "forged-with-secret"
            }
            _ => {
                // compensated in the witness as if the secret were another
                let d = draw_fr();
                q.y += d;
                let k = (draw_fr() - q.z).inverse_or_one();
                q.w = (q.w.into_group() - g(d) * k).into();
                "compensated"
            }
        };
        Some((q, name.into()))
    }
    fn show(&self, s: &Stmt) -> String {
        let c: Vec<String> = s.coeffs.iter().map(short).collect();
        format!("kzg[{}] at {} srs {} how {}", c.join(","), short(&s.z), s.srs.g1_points().len(), s.how)
    }
}
pub fn short(f: &Fr) -> String {
    let t = f.to_string();
    if t.len() > 12 {
        format!("{}..", &t[..8])
    } else {
        t
    }
}
trait InvOr {
    fn inverse_or_one(self) -> Self;
}
impl InvOr for Fr {
    fn inverse_or_one(self) -> Self {
        use ark_ff::Field;
        self.inverse().unwrap_or(Fr::from(1))
    }
}

pub fn coeffs(max: usize) -> Vec<Fr> {
    let n = match weighted(&[4, 1, 1, 2]) {
        0 => range(1, max as u64) as usize,
        1 => 0,
        2 => 1,
        _ => max,
    };
    let mut v: Vec<Fr> = match weighted(&[3, 1, 1]) {
        0 => (0..n).map(|_| draw_fr()).collect(),
        1 => vec![Fr::zero(); n],
        _ => {
            let mut v = vec![Fr::zero(); n];
            if n > 0 {
                v[draw_us(n)] = draw_fr();
            }
            v
        }
    };
    if chance(1, 6) {
        v.extend(vec![Fr::zero(); draw_us(3)]);
    }
    v
}

pub fn secret() -> Fr {
    if chance(1, 5) {
        Fr::from(range(2, 30))
    } else {
        fr_of(draw(u64::MAX))
    }
}

pub fn stmt(secret: Fr) -> Stmt {
    let size = match weighted(&[60, 15, 1]) {
        0 => range(1, 12),
        1 => range(1, 40),
        _ => {
            probe("large");
            range(60, 400)
        }
    } as usize;
    let srs = Srs::new_from_secret(secret, size);
    // without assuming how many elements the string has beyond those promised
    let max = srs.g1_points().len();
    let mut c = coeffs(max);
    let mut z = draw_fr();
    if chance(1, 8) {
        // a root of the polynomial
        probe("root");
        let y = horner(&c, z);
        if let Some(k) = c.first_mut() {
            *k -= y;
        }
    }
    if z == secret {
        z += Fr::from(1);
    }
    if c.iter().all(|k| k.is_zero()) {
        probe("zero-polynomial");
    }
    if c.iter().rposition(|k| !k.is_zero()) == Some(max - 1) {
        probe("maximum-degree");
    }
    Stmt { coeffs: c, z, secret, srs, how: draw(4) }
}

/// An opening at the very secret: every witness point fits there, but only one value does.
fn at_secret() {
    probe("point-is-secret");
    let mut s = stmt(secret());
    s.z = s.secret;
    let show = |s: &Stmt| format!("at the secret: {}", Kzg.show(s));
    let k = KzgScheme::new(s.srs.clone());
    let m = match core::guard(|| Kzg.prove(&s)) {
        Ok(m) => m,
        Err(e) => return violation("opening-panics", format!("{e}: {}", show(&s))),
    };
    let e = Fr::from(range(1, 5));
    for (c, y, want) in [(m.c, m.y, true), (m.c, m.y + e, false), ((m.c + g(e)).into_affine(), m.y, false)] {
        match core::guard(|| k.verify(&KzgCommitment(c), &KzgOpening(m.w, y), m.z)) {
            Ok(ok) if ok == want => verdict(if ok { "accepted" } else { "rejected" }),
            Ok(_) => violation(if want { "honest-opening-rejected" } else { "altered-opening-accepted" }, show(&s)),
            Err(e) => violation("verification-panics", format!("{e}: {}", show(&s))),
        }
    }
}

pub fn run(ent: u64) {
    if chance(1, 40) {
        at_secret();
    }
    let n = range(1, 4);
    let s0 = secret();
    let mut stmts: Vec<Stmt> = vec![];
    for _ in 0..n {
        let x = if chance(1, 4) { secret() } else { s0 };
        if !stmts.is_empty() && chance(1, 3) {
            // the same polynomial at another point
            let p = &stmts[draw_us(stmts.len())];
            let z = p.z + Fr::from(range(1, 3));
            if z != p.secret {
                let st = Stmt { coeffs: p.coeffs.clone(), z, secret: p.secret, srs: p.srs.clone(), how: draw(4) };
                stmts.push(st);
                continue;
            }
        }
        stmts.push(stmt(x));
    }
    let mut decoys = vec![];
    for _ in 0..range(1, 2) {
        let p = &stmts[draw_us(stmts.len())];
        let x = p.secret + Fr::from(range(1, 5));
        if !x.is_zero() {
            decoys.push(Stmt { coeffs: p.coeffs.clone(), z: p.z, secret: x, srs: Srs::new_from_secret(x, 2), how: 0 });
        }
    }
    session::run(Kzg, stmts, decoys, Cfg { byzantine: true, faults: true, max_verify: 30 }, ent);
}
