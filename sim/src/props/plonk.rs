//! C01, C02: PLONK deployments.

use super::circ::{self, Desc};
use super::session::{self, Cfg, Proto};
use crate::core::{chance, draw, draw_fr, draw_us, fr_of, probe, range, weighted};
use crate::hash::spy;
use ark_bls12_381::{Fr, G1Affine};
use ark_ec::AffineRepr;
use ark_ff::{UniformRand, Zero};
use kzg::commitment::KzgCommitment;
use kzg::srs::Srs;
use plonk::prover::{generate_proof, Proof};
use plonk::verifier::verify;
use rand::rngs::StdRng;
use rand::SeedableRng;
use std::sync::Arc;

#[macro_export]
macro_rules! with_hash {
    ($k:expr, $H:ident => $e:expr) => {
        match $k {
            0 => { type $H = $crate::hash::SimHash<0>; $e }
            1 => { type $H = $crate::hash::SimHash<1>; $e }
            2 => { type $H = $crate::hash::SimHash64; $e }
            _ => { type $H = $crate::hash::SimHash20; $e }
        }
    };
}

pub fn clone_proof(p: &Proof) -> Proof {
    Proof {
        a_commit: p.a_commit.clone(),
        b_commit: p.b_commit.clone(),
        c_commit: p.c_commit.clone(),
        z_commit: p.z_commit.clone(),
        t_lo_commit: p.t_lo_commit.clone(),
        t_mid_commit: p.t_mid_commit.clone(),
        t_hi_commit: p.t_hi_commit.clone(),
        w_ev_x_commit: p.w_ev_x_commit.clone(),
        w_ev_wx_commit: p.w_ev_wx_commit.clone(),
        bar_a: p.bar_a,
        bar_b: p.bar_b,
        bar_c: p.bar_c,
        bar_s_sigma_1: p.bar_s_sigma_1,
        bar_s_sigma_2: p.bar_s_sigma_2,
        bar_z_w: p.bar_z_w,
        u: p.u,
        degree: p.degree,
    }
}
pub const COMMITS: [&str; 9] = ["a", "b", "c", "z", "t_lo", "t_mid", "t_hi", "w", "w_omega"];
pub const SCALARS: [&str; 7] = ["bar_a", "bar_b", "bar_c", "bar_s1", "bar_s2", "bar_zw", "u"];
pub fn commit_mut(p: &mut Proof, i: usize) -> &mut KzgCommitment {
    match i {
        0 => &mut p.a_commit,
        1 => &mut p.b_commit,
        2 => &mut p.c_commit,
        3 => &mut p.z_commit,
        4 => &mut p.t_lo_commit,
        5 => &mut p.t_mid_commit,
        6 => &mut p.t_hi_commit,
        7 => &mut p.w_ev_x_commit,
        _ => &mut p.w_ev_wx_commit,
    }
}
pub fn scalar_mut(p: &mut Proof, i: usize) -> &mut Fr {
    match i {
        0 => &mut p.bar_a,
        1 => &mut p.bar_b,
        2 => &mut p.bar_c,
        3 => &mut p.bar_s_sigma_1,
        4 => &mut p.bar_s_sigma_2,
        5 => &mut p.bar_z_w,
        _ => &mut p.u,
    }
}
pub fn same_proof(a: &Proof, b: &Proof) -> bool {
    let (mut a, mut b) = (clone_proof(a), clone_proof(b));
    a.degree == b.degree
        && (0..9).all(|i| commit_mut(&mut a, i) == commit_mut(&mut b, i))
        && (0..7).all(|i| scalar_mut(&mut a, i) == scalar_mut(&mut b, i))
}

pub struct Stmt {
    pub desc: Desc,
    pub secret: Fr,
    pub srs: Srs,
    pub hash: u64,
}
pub struct Plonk;

pub fn challenge_of(digest: &[u8]) -> Option<Fr> {
    let s: [u8; 8] = digest.get(..8)?.try_into().ok()?;
    Some(Fr::rand(&mut StdRng::seed_from_u64(u64::from_le_bytes(s))))
}

impl Plonk {
    pub fn check(s: &Stmt, p: &Proof) -> Result<(), String> {
        let cc = s.desc.compile_public();
        with_hash!(s.hash, H => verify::<H>(&cc, s.srs.clone(), clone_proof(p)))
    }
    /// Recomputes the challenge `u` for an altered proof, as any adversary can.
    pub fn fix_u(s: &Stmt, p: &mut Proof) {
        let (_, log) = spy(|| Self::check(s, p));
        if let Some(u) = log.last().and_then(|a| challenge_of(&a.digest)) {
            p.u = u;
        }
    }
}

pub fn change_point(c: &G1Affine, p: &Proof) -> G1Affine {
    let g = G1Affine::generator();
    match draw(6) {
        0 => (*c + g).into(),
        1 => -*c,
        2 => G1Affine::zero(),
        3 => (g * fr_of(draw(1 << 40))).into(),
        4 => (*c * Fr::from(2)).into(),
        _ => {
            let mut q = clone_proof(p);
            commit_mut(&mut q, draw_us(9)).0
        }
    }
}
pub fn change_scalar(f: &Fr, p: &Proof) -> Fr {
    match draw(5) {
        0 => *f + crate::core::delta::<Fr>(),
        1 => -*f,
        2 => Fr::zero(),
        3 => fr_of(draw(1 << 40)),
        _ => {
            let mut q = clone_proof(p);
            *scalar_mut(&mut q, draw_us(6))
        }
    }
}

impl Proto for Plonk {
    type Stmt = Stmt;
    type Proof = Proof;
    fn prove(&self, s: &Stmt) -> Proof {
        let cc = s.desc.compile();
        with_hash!(s.hash, H => generate_proof::<H>(&cc, s.srs.clone()))
    }
    fn verify(&self, s: &Stmt, p: &Proof) -> Result<(), String> {
        Self::check(s, p)
    }
    fn same_proof(&self, a: &Proof, b: &Proof) -> bool {
        same_proof(a, b)
    }
    fn same_stmt(&self, a: &Stmt, b: &Stmt) -> bool {
        a.secret == b.secret && a.hash == b.hash && circ::same_public(&a.desc, &b.desc)
    }
    fn alter(&self, target: &Stmt, p: &Proof, others: &[Arc<Proof>]) -> Option<(Proof, String)> {
        let mut q = clone_proof(p);
        let mut names = vec![];
        let n = if chance(1, 4) { 2 } else { 1 };
        for _ in 0..n {
            match weighted(&[9, 6, 2, 3]) {
                0 => {
                    let i = draw_us(9);
                    let c = commit_mut(&mut q, i).0;
                    commit_mut(&mut q, i).0 = change_point(&c, p);
                    names.push(COMMITS[i]);
                }
                1 => {
                    let i = draw_us(7);
                    let f = *scalar_mut(&mut q, i);
                    *scalar_mut(&mut q, i) = change_scalar(&f, p);
                    names.push(SCALARS[i]);
                }
                2 => {
                    q.degree = match draw(5) {
                        0 => q.degree.wrapping_add(1),
                        1 => q.degree.wrapping_sub(1),
                        2 => 0,
                        3 => usize::MAX,
                        _ => draw(u64::MAX) as usize,
                    };
                    names.push("degree");
                }
                _ => {
                    // components of another proof
                    if others.is_empty() {
                        return None;
                    }
                    let mut o = clone_proof(&others[draw_us(others.len())]);
                    let mask = 1 + draw((1 << 16) - 2);
                    for i in 0..9 {
                        if mask >> i & 1 == 1 {
                            *commit_mut(&mut q, i) = commit_mut(&mut o, i).clone();
                        }
                    }
                    for i in 0..7 {
                        if mask >> (9 + i) & 1 == 1 {
                            *scalar_mut(&mut q, i) = *scalar_mut(&mut o, i);
                        }
                    }
                    names.push("splice");
                }
            }
        }
        names.sort();
        names.dedup();
        let mut name = names.join("+");
        if name != "u" && chance(2, 3) {
            Self::fix_u(target, &mut q);
            name += "~u";
        }
        Some((q, name))
    }
    fn show(&self, s: &Stmt) -> String {
        format!("plonk{} h{}", s.desc.show(), s.hash)
    }
}

pub fn gen_stmt(max_gates: u64, secret: Fr) -> Stmt {
    let desc = circ::random(max_gates);
    let extra = [0, 1, 7][weighted(&[4, 1, 1])];
    let srs = Srs::new_from_secret(secret, desc.size() + extra);
    if desc.gates.len() == desc.size() {
        probe("circuit:unpadded");
    }
    if desc.gates.len() == 1 {
        probe("circuit:single-gate");
    }
    Stmt { desc, secret, srs, hash: draw(4) }
}

fn secret(any: bool) -> Fr {
    if any && chance(1, 6) {
        Fr::from(range(2, 40))
    } else {
        fr_of(draw(u64::MAX))
    }
}

/// One circuit with many gates: sizes, shifts and degrees that no longer fit in a few bits.
fn large(ent: u64) {
    let n = match weighted(&[6, 4, 3, 1]) {
        0 => range(33, 64),
        1 => range(65, 128),
        2 => range(129, 256),
        _ => range(257, 300),
    };
    let desc = circ::sized(n as usize);
    probe(&format!("circuit:size-{}", desc.size()));
    let secret = secret(false);
    let srs = Srs::new_from_secret(secret, desc.size());
    let st = Stmt { desc, secret, srs, hash: draw(4) };
    session::run(Plonk, vec![st], vec![], Cfg { byzantine: false, faults: chance(1, 3), max_verify: 2 }, ent);
}

pub fn run(byzantine: bool, ent: u64) {
    if !byzantine && chance(1, 40) {
        return large(ent);
    }
    // statements whose last rows are far from the first
    let wide = byzantine && chance(1, 16);
    let n = if wide { 1 } else if byzantine { range(1, 2) } else { range(1, 4) };
    let max = if byzantine { 8 } else if chance(1, 8) { 33 } else { 16 };
    let s0 = secret(!byzantine);
    let mut stmts = vec![];
    for _ in 0..n {
        let s = if chance(1, 3) { secret(!byzantine) } else { s0 };
        if !stmts.is_empty() && chance(1, 2) {
            // the same circuit with other values, or the very same statement again
            let prev: &Stmt = &stmts[draw_us(stmts.len())];
            let mut st = Stmt { desc: prev.desc.clone(), secret: prev.secret, srs: prev.srs.clone(), hash: prev.hash };
            if chance(1, 2) {
                st.desc = circ::sibling(&prev.desc);
                probe("circuit:sibling");
            }
            stmts.push(st);
            continue;
        }
        if wide {
            let desc = circ::sized(range(17, 36) as usize);
            probe("circuit:wide");
            let srs = Srs::new_from_secret(s, desc.size());
            stmts.push(Stmt { desc, secret: s, srs, hash: draw(4) });
            continue;
        }
        stmts.push(gen_stmt(max, s));
    }
    let mut decoys = vec![];
    if byzantine {
        for _ in 0..range(1, 4) {
            let b = &stmts[draw_us(stmts.len())];
            let mut d = Stmt { desc: b.desc.clone(), secret: b.secret, srs: b.srs.clone(), hash: b.hash };
            match weighted(&[6, 2, 2]) {
                0 => d.desc = circ::near_miss(&b.desc),
                1 => {
                    d.secret = b.secret + draw_fr();
                    if d.secret.is_zero() {
                        d.secret = Fr::from(3);
                    }
                    d.srs = Srs::new_from_secret(d.secret, d.desc.size() + draw_us(2));
                }
                _ => d.hash = (b.hash + 1 + draw(3)) % 4,
            }
            decoys.push(d);
        }
    }
    session::run(
        Plonk,
        stmts,
        decoys,
        Cfg { byzantine, faults: true, max_verify: if wide { 6 } else if byzantine { 14 } else { 12 } },
        ent,
    );
}
