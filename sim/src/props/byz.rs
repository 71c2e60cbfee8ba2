//! Byzantine PLONK provers: an independent prover without any assertion that deviates in one
//! chosen way. Challenges are learnt from the outside, by letting the real verifier hash a partly
//! filled proof. Nothing here judges: the caller alarms only if a forged proof is accepted.

use super::plonk::{challenge_of, clone_proof, commit_mut, scalar_mut};
use crate::core::{draw, fr_of};
use crate::hash::{spy, Absorb};
use ark_bls12_381::{Fr, G1Affine};
use ark_ec::AffineRepr;
use ark_ff::{Field, One, UniformRand, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{DenseUVPolynomial, EvaluationDomain, Evaluations, GeneralEvaluationDomain, Polynomial};
use ark_serialize::CanonicalSerialize;
use kzg::commitment::KzgCommitment;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use plonk::compiled_circuit::CompiledCircuit;
use plonk::prover::Proof;
use rand::rngs::StdRng;
use rand::SeedableRng;

pub type Poly = DensePolynomial<Fr>;

pub struct Target<'a> {
    pub cc: &'a CompiledCircuit,
    pub srs: Srs,
    pub check: &'a dyn Fn(&Proof) -> Result<(), String>,
}

/// What the forger believes about the verifier's equation.
#[derive(Clone, Debug)]
pub struct Hyp {
    /// qm, ql, qr, qo, qc, pi present
    pub sel: [bool; 6],
    pub perm: bool,
    pub l1: bool,
    pub sig: [bool; 3],
    pub pow: [u64; 2],
    pub vpow: [u64; 5],
    pub vterm: [bool; 5],
    pub u_one: bool,
    /// where alpha, zeta, v and u come from
    pub src: [Src; 4],
}
/// The origin of a challenge.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Src {
    /// The i-th draw after group g.
    Draw(usize, usize),
    Const(i64),
}
impl Hyp {
    pub fn right() -> Self {
        Hyp { src: [1, 2, 3, 4].map(|g| Src::Draw(g, 0)), sel: [true; 6], perm: true, l1: true, sig: [true; 3], pow: [1, 2], vpow: [1, 2, 3, 4, 5], vterm: [true; 5], u_one: false }
    }
}

#[derive(Clone, Debug)]
pub enum Attack {
    /// Follow the protocol with whatever assignment there is.
    Follow,
    /// As `Follow`, with z = 0.
    ZeroZ,
    /// z solves all constraints together (for merged powers of alpha).
    Joint,
    /// Message k is chosen after the challenge that should depend on it.
    Late(usize),
    /// Evaluation k (0..6) is wrong so that the linearisation vanishes.
    WrongBar(usize),
    /// Two wrong evaluations whose errors cancel.
    WrongPair(usize, usize),
    /// Both opening proofs are combined with a known u.
    KnownU,
    /// Row `1` of the constants (4) or the public inputs (5) is chosen after zeta.
    LateStmt(usize, usize),
}

fn pt(c: &KzgCommitment) -> Vec<u8> {
    let mut v = vec![];
    c.0.serialize_uncompressed(&mut v).unwrap();
    v
}
fn find(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}
fn c(v: &[Fr]) -> Poly {
    Poly::from_coefficients_slice(v)
}
fn sc(p: &Poly, f: Fr) -> Poly {
    Poly::from_coefficients_vec(p.coeffs.iter().map(|x| *x * f).collect())
}
/// Quotient by X - z, without the remainder.
fn quot(p: &Poly, z: Fr) -> Poly {
    let n = p.coeffs.len();
    if n < 2 {
        return Poly::zero();
    }
    let mut q = vec![Fr::zero(); n - 1];
    let mut acc = Fr::zero();
    for i in (1..n).rev() {
        acc = acc * z + p.coeffs[i];
        q[i - 1] = acc;
    }
    Poly::from_coefficients_vec(q)
}

fn tx(ts: &[Poly], shift: Fr) -> Poly {
    &(&ts[0] + &sc(&ts[1], shift)) + &sc(&ts[2], shift * shift)
}

pub struct Forger<'a> {
    t: Target<'a>,
    scheme: KzgScheme,
    n: usize,
    dom: GeneralEvaluationDomain<Fr>,
    w: Fr,
    sel: [Poly; 6],
    s: [Poly; 3],
    k: [Fr; 3],
    salt: u64,
    pub queries: u64,
    /// what `LateStmt` adds to the row
    pub delta: Fr,
}

/// The positions of the 15 messages in the groups that precede beta/gamma, alpha, zeta, v, u.
const GROUPS: [&[usize]; 5] = [&[0, 1, 2], &[3], &[4, 5, 6], &[7, 8, 9, 10, 11, 12], &[13, 14]];

impl<'a> Forger<'a> {
    pub fn new(t: Target<'a>) -> Self {
        let n = t.cc.size;
        let dom = GeneralEvaluationDomain::<Fr>::new(n).unwrap();
        let g = t.cc.gate_constraints();
        let cp = t.cc.copy_constraints();
        Forger {
            scheme: KzgScheme::new(t.srs.clone()),
            n,
            dom,
            w: dom.element(1),
            sel: [g.q_mx(), g.q_lx(), g.q_rx(), g.q_ox(), g.q_cx(), g.pi_x()].map(|p| p.clone()),
            s: [cp.s_sigma_1(), cp.s_sigma_2(), cp.s_sigma_3()].map(|p| p.clone()),
            k: [Fr::one(), *cp.k1(), *cp.k2()],
            salt: draw(1 << 40),
            queries: 0,
            delta: Fr::zero(),
            t,
        }
    }
    fn rnd(&mut self) -> Fr {
        self.salt += 1;
        fr_of(crate::core::mix(self.salt))
    }
    fn interp(&self, v: Vec<Fr>) -> Poly {
        Evaluations::from_vec_and_domain(v, self.dom).interpolate()
    }
    fn zh(&self, p: &Poly) -> Poly {
        p.mul_by_vanishing_poly(self.dom)
    }
    fn commit(&self, p: &Poly) -> KzgCommitment {
        if p.coeffs.is_empty() {
            return KzgCommitment(G1Affine::zero());
        }
        let pts = self.t.srs.g1_points();
        let mut acc = ark_bls12_381::G1Projective::zero();
        for (x, g) in p.coeffs.iter().zip(pts.iter()) {
            acc += *g * x;
        }
        assert!(p.coeffs.len() <= pts.len(), "reference string too short for the forger");
        KzgCommitment(acc.into())
    }
    fn message(&self, p: &Proof, k: usize) -> Vec<u8> {
        let mut q = clone_proof(p);
        match k {
            0..=6 => pt(commit_mut(&mut q, k)),
            7..=12 => {
                let f = *scalar_mut(&mut q, k - 7);
                pt(&self.scheme.commit_para(f))
            }
            _ => pt(commit_mut(&mut q, k - 6)),
        }
    }
    fn log(&mut self, p: &Proof) -> Vec<Absorb> {
        self.queries += 1;
        let (_, log) = spy(|| (self.t.check)(p));
        log
    }
    fn positions(&self, p: &Proof, log: &[Absorb]) -> Vec<Option<usize>> {
        let mut used = vec![false; log.len()];
        let mut from = 0;
        (0..15)
            .map(|k| {
                let m = self.message(p, k);
                let hit = |used: &Vec<bool>, r: std::ops::Range<usize>| r.into_iter().find(|i| !used[*i] && find(&log[*i].data, &m));
                let i = hit(&used, from..log.len()).or_else(|| hit(&used, 0..from));
                if let Some(i) = i {
                    used[i] = true;
                    from = i;
                }
                i
            })
            .collect()
    }
    /// The challenge(s) of group g. With `late`, the ones that do not depend on message `late`.
    fn challenge<const N: usize>(&mut self, p: &Proof, g: usize, late: Option<usize>) -> Option<[Fr; N]> {
        let log = self.log(p);
        let pos = self.positions(p, &log);
        let others = GROUPS[g].iter().filter(|k| Some(**k) != late).filter_map(|k| pos[*k]).max();
        let at = match late {
            None => others?,
            Some(k) => match pos[k] {
                Some(i) => i.checked_sub(1)?,
                None => others?,
            },
        };
        let d = log.get(at)?.digest.get(..8)?.try_into().ok()?;
        let mut rng = StdRng::seed_from_u64(u64::from_le_bytes(d));
        Some([(); N].map(|_| Fr::rand(&mut rng)))
    }
    /// Challenge `i` (alpha, zeta, v, u), where the forger believes it comes from.
    fn chal(&mut self, p: &Proof, h: &Hyp, i: usize, late: Option<usize>) -> Option<Fr> {
        match h.src[i] {
            Src::Const(k) if k < 0 => Some(-Fr::from(k.unsigned_abs())),
            Src::Const(k) => Some(Fr::from(k as u64)),
            Src::Draw(g, j) => {
                let late = late.filter(|k| GROUPS[g].contains(k));
                Some(self.challenge::<8>(p, g, late)?[j])
            }
        }
    }
    fn placeholder(&mut self) -> Proof {
        let g = G1Affine::generator();
        let mut c = || KzgCommitment((g * self.rnd()).into());
        let (a_commit, b_commit, c_commit, z_commit) = (c(), c(), c(), c());
        let (t_lo_commit, t_mid_commit, t_hi_commit) = (c(), c(), c());
        let (w_ev_x_commit, w_ev_wx_commit) = (c(), c());
        Proof {
            a_commit,
            b_commit,
            c_commit,
            z_commit,
            t_lo_commit,
            t_mid_commit,
            t_hi_commit,
            w_ev_x_commit,
            w_ev_wx_commit,
            bar_a: self.rnd(),
            bar_b: self.rnd(),
            bar_c: self.rnd(),
            bar_s_sigma_1: self.rnd(),
            bar_s_sigma_2: self.rnd(),
            bar_z_w: self.rnd(),
            u: self.rnd(),
            degree: self.n + 2,
        }
    }
    fn id(&self, col: usize, row: usize) -> Fr {
        self.k[col] * self.dom.element(row)
    }
    fn sigma(&self, h: &Hyp, col: usize, row: usize) -> Fr {
        if h.sig[col] {
            self.s[col].evaluate(&self.dom.element(row))
        } else {
            self.id(col, row)
        }
    }
    fn gate_at(&self, h: &Hyp, x: Fr, v: [Fr; 3]) -> Fr {
        let f = |i: usize| if h.sel[i] { self.sel[i].evaluate(&x) } else { Fr::zero() };
        f(0) * v[0] * v[1] + f(1) * v[0] + f(2) * v[1] + f(3) * v[2] + f(4) + f(5)
    }

    /// A forged proof; `free` is a cell whose value may be changed at will (for late wires).
    pub fn forge(&mut self, cells: &[Vec<Fr>; 3], h: &Hyp, at: &Attack, free: Option<(usize, usize)>) -> Option<Proof> {
        let n = self.n;
        let late = match at {
            Attack::Late(k) => Some(*k),
            _ => None,
        };
        let group_late = |g: usize| late.filter(|k| GROUPS[g].contains(k));
        let mut p = self.placeholder();
        let mut cells = cells.clone();
        for col in cells.iter_mut() {
            col.resize(n, Fr::zero());
        }
        // wires
        let mut wires: Vec<Poly> = vec![];
        for col in 0..3 {
            let b = c(&[self.rnd(), self.rnd()]);
            wires.push(&self.interp(cells[col].clone()) + &self.zh(&b));
            if late != Some(col) {
                commit_mut(&mut p, col).0 = self.commit(&wires[col]).0;
            }
        }
        let [beta, gamma] = self.challenge::<2>(&p, 0, group_late(0))?;
        let fac = |me: &Self, cells: &[Vec<Fr>; 3], i: usize| {
            let mut num = Fr::one();
            let mut den = Fr::one();
            for col in 0..3 {
                num *= cells[col][i] + beta * me.id(col, i) + gamma;
                den *= cells[col][i] + beta * me.sigma(h, col, i) + gamma;
            }
            (num, den)
        };
        if let Some(k) = group_late(0) {
            // the free cell makes the permutation product one
            let (col, row) = free?;
            if col != k {
                return None;
            }
            cells[col][row] = Fr::zero();
            let (mut num, mut den) = (Fr::one(), Fr::one());
            for i in 0..n {
                for j in 0..3 {
                    if (j, i) != (col, row) {
                        num *= cells[j][i] + beta * self.id(j, i) + gamma;
                        den *= cells[j][i] + beta * self.sigma(h, j, i) + gamma;
                    }
                }
            }
            // num (x + i) = den (x + s)
            let (i, s) = (beta * self.id(col, row) + gamma, beta * self.sigma(h, col, row) + gamma);
            cells[col][row] = (den * s - num * i) * (num - den).inverse()?;
            let b = c(&[self.rnd(), self.rnd()]);
            wires[col] = &self.interp(cells[col].clone()) + &self.zh(&b);
            commit_mut(&mut p, col).0 = self.commit(&wires[col]).0;
        }
        let (mut num, mut den) = (vec![], vec![]);
        for i in 0..n {
            let f = fac(self, &cells, i);
            num.push(f.0);
            den.push(f.1);
        }
        // permutation polynomial
        let chain = |z0: Fr, rhs: &dyn Fn(usize) -> Fr| -> Option<Vec<Fr>> {
            // num_i z_i - den_i z_{i+1} + rhs_i = 0
            let mut z = vec![z0];
            for i in 0..n {
                z.push((num[i] * z[i] + rhs(i)) * den[i].inverse()?);
            }
            Some(z)
        };
        let r3 = c(&[self.rnd(), self.rnd(), self.rnd()]);
        let blind_z = self.zh(&r3);
        let zero = |_: usize| Fr::zero();
        let gates: Vec<Fr> = (0..n)
            .map(|i| self.gate_at(h, self.dom.element(i), [cells[0][i], cells[1][i], cells[2][i]]))
            .collect();
        // all constraints at once, given the value of alpha (or powers merged)
        let joint = |ga: Fr, l: Option<Fr>| -> Option<Vec<Fr>> {
            // row i: ga gate_i + perm_i + [i=0] l (z_0 - 1) = 0; affine in z_0
            let solve = |z0: Fr| chain(z0, &|i| ga * gates[i] + if i == 0 { l.map_or(Fr::zero(), |l| l * (z0 - Fr::one())) } else { Fr::zero() });
            let (e0, e1) = (solve(Fr::zero())?, solve(Fr::one())?);
            let (f0, f1) = (e0[n] - Fr::zero(), e1[n] - Fr::one());
            let z0 = f0 * (f0 - f1).inverse()?;
            solve(z0)
        };
        let alpha;
        let zv: Vec<Fr>;
        if late == Some(3) {
            alpha = self.chal(&p, h, 0, Some(3))?;
            let ai = alpha.pow([h.pow[0]]).inverse()?;
            zv = joint(ai, Some(alpha.pow([h.pow[1]]) * ai))?;
        } else {
            zv = match at {
                Attack::ZeroZ => vec![Fr::zero(); n],
                Attack::Joint => {
                    let ga = if h.pow[0] == 0 { Fr::one() } else { Fr::zero() };
                    let l = if h.pow[0] == h.pow[1] { Some(Fr::one()) } else { None };
                    joint(ga, l)?
                }
                _ => chain(Fr::one(), &zero)?,
            };
            alpha = Fr::zero();
        }
        let z = &self.interp(zv[..n].to_vec()) + &blind_z;
        p.z_commit = self.commit(&z);
        let alpha = if late == Some(3) { alpha } else { self.chal(&p, h, 0, None)? };
        let zw = Poly::from_coefficients_vec(z.coeffs.iter().enumerate().map(|(i, x)| *x * self.w.pow([i as u64])).collect());
        // quotient
        let lin = |w: &Poly, m: Poly| &(w + &sc(&m, beta)) + &c(&[gamma]);
        let x = c(&[Fr::zero(), Fr::one()]);
        let sig = |me: &Self, j: usize| if h.sig[j] { me.s[j].clone() } else { sc(&x, me.k[j]) };
        let mut numer = Poly::zero();
        let pick = |me: &Self, i: usize| if h.sel[i] { me.sel[i].clone() } else { Poly::zero() };
        numer += &(&(&wires[0] * &wires[1]) * &pick(self, 0));
        numer += &(&wires[0] * &pick(self, 1));
        numer += &(&wires[1] * &pick(self, 2));
        numer += &(&wires[2] * &pick(self, 3));
        numer += &pick(self, 4);
        numer += &pick(self, 5);
        let (ap, al) = (alpha.pow([h.pow[0]]), alpha.pow([h.pow[1]]));
        if h.perm {
            let mut l = z.clone();
            let mut r = zw.clone();
            for j in 0..3 {
                l = &l * &lin(&wires[j], sc(&x, self.k[j]));
                r = &r * &lin(&wires[j], sig(self, j));
            }
            numer += &sc(&(&l - &r), ap);
        }
        if h.l1 {
            let mut e = vec![Fr::zero(); n];
            e[0] = Fr::one();
            let l1 = self.interp(e);
            numer += &sc(&(&(&z - &c(&[Fr::one()])) * &l1), al);
        }
        let (t, _) = numer.divide_by_vanishing_poly(self.dom).unwrap();
        let m = t.coeffs.len().div_ceil(3).max(n + 3).min(self.t.srs.g1_points().len());
        let mut ts: Vec<Poly> = (0..3)
            .map(|i| Poly::from_coefficients_vec(t.coeffs.iter().skip(i * m).take(m).cloned().collect()))
            .collect();
        if t.coeffs.len() > 3 * m {
            return None;
        }
        p.degree = m - 1;
        for i in 0..3 {
            if late != Some(4 + i) {
                commit_mut(&mut p, 4 + i).0 = self.commit(&ts[i]).0;
            }
        }
        let zeta = self.chal(&p, h, 1, group_late(2))?;
        let zhv = zeta.pow([n as u64]) - Fr::one();
        let shift = zeta.pow([m as u64]);
        if let Some(k) = group_late(2) {
            let want = numer.evaluate(&zeta) * zhv.inverse()?;
            let have = ts[0].evaluate(&zeta) + shift * ts[1].evaluate(&zeta) + shift * shift * ts[2].evaluate(&zeta);
            let i = k - 4;
            ts[i] += &c(&[(want - have) * shift.pow([i as u64]).inverse()?]);
            commit_mut(&mut p, k).0 = self.commit(&ts[i]).0;
        }
        if let Attack::LateStmt(i, row) = at {
            let want = (&tx(&ts, shift)).evaluate(&zeta) * zhv;
            let mut e = vec![Fr::zero(); n];
            e[*row] = Fr::one();
            let l = self.interp(e);
            self.delta = (want - numer.evaluate(&zeta)) * l.evaluate(&zeta).inverse()?;
            self.sel[*i] += &sc(&l, self.delta);
        }
        // evaluations
        let mut bars = [
            wires[0].evaluate(&zeta),
            wires[1].evaluate(&zeta),
            wires[2].evaluate(&zeta),
            self.s[0].evaluate(&zeta),
            self.s[1].evaluate(&zeta),
            z.evaluate(&(zeta * self.w)),
        ];
        let l1v = zhv * (Fr::from(n as u64) * (zeta - Fr::one())).inverse()?;
        let piv = if h.sel[5] { self.sel[5].evaluate(&zeta) } else { Fr::zero() };
        let tt = tx(&ts, shift);
        let lin_poly = |me: &Self, b: &[Fr; 6]| -> Poly {
            let mut r = Poly::zero();
            for (i, f) in [(0, b[0] * b[1]), (1, b[0]), (2, b[1]), (3, b[2]), (4, Fr::one())] {
                if h.sel[i] {
                    r += &sc(&me.sel[i], f);
                }
            }
            r += &c(&[piv]);
            if h.perm {
                let f = (b[0] + beta * zeta + gamma) * (b[1] + beta * me.k[1] * zeta + gamma) * (b[2] + beta * me.k[2] * zeta + gamma);
                r += &sc(&z, ap * f);
                let s1 = if h.sig[0] { b[3] } else { zeta };
                let s2 = if h.sig[1] { b[4] } else { me.k[1] * zeta };
                let f = (b[0] + beta * s1 + gamma) * (b[1] + beta * s2 + gamma) * b[5] * ap;
                let third = if h.sig[2] { sc(&me.s[2], beta) } else { c(&[beta * me.k[2] * zeta]) };
                r += &sc(&(&third + &c(&[b[2] + gamma])), -f);
            }
            if h.l1 {
                r += &sc(&(&z - &c(&[Fr::one()])), al * l1v);
            }
            r += &sc(&tt, -zhv);
            r
        };
        let rv = |me: &Self, b: &[Fr; 6]| lin_poly(me, b).evaluate(&zeta);
        let mut vterm = h.vterm;
        let mut vpow = h.vpow;
        let solve_bar = |me: &Self, b: &[Fr; 6], k: usize| -> Option<Fr> {
            let (mut b0, mut b1) = (*b, *b);
            b0[k] = Fr::zero();
            b1[k] = Fr::one();
            let (r0, r1) = (rv(me, &b0), rv(me, &b1));
            Some(-r0 * (r1 - r0).inverse()?)
        };
        match at {
            Attack::WrongBar(k) => {
                bars[*k] = solve_bar(self, &bars, *k)?;
                if *k < 5 {
                    vterm[*k] = false;
                }
            }
            Attack::WrongPair(i, j) => {
                let r = |d: u64| {
                    let mut b = bars;
                    b[*i] += Fr::from(d);
                    b[*j] -= Fr::from(d);
                    rv(self, &b)
                };
                let (r0, r1, r2) = (r(0), r(1), r(2));
                let half = Fr::from(2u64).inverse()?;
                let a = (r2 - r1 - r1 + r0) * half;
                let b = r1 - r0 - a;
                let d = if a.is_zero() {
                    -r0 * b.inverse()?
                } else {
                    ((b * b - Fr::from(4u64) * a * r0).sqrt()? - b) * (a + a).inverse()?
                };
                bars[*i] += d;
                bars[*j] -= d;
                vpow[*j] = vpow[*i];
            }
            Attack::KnownU | Attack::Late(13) => bars[5] = solve_bar(self, &bars, 5)?,
            _ => {}
        }
        for k in 0..6 {
            if late != Some(7 + k) {
                *scalar_mut(&mut p, k) = bars[k];
            }
        }
        let v = self.chal(&p, h, 2, group_late(3))?;
        let vp: Vec<Fr> = (0..5).map(|i| if vterm[i] { v.pow([vpow[i]]) } else { Fr::zero() }).collect();
        let big = |me: &Self, b: &[Fr; 6]| -> Poly {
            let mut r = lin_poly(me, b);
            let ps = [&wires[0], &wires[1], &wires[2], &me.s[0], &me.s[1]];
            for i in 0..5 {
                r += &sc(&(ps[i] - &c(&[b[i]])), vp[i]);
            }
            r
        };
        if let Some(k) = group_late(3) {
            let k = k - 7;
            let f = |x: Fr| {
                let mut b = bars;
                b[k] = x;
                big(self, &b).evaluate(&zeta)
            };
            let (r0, r1) = (f(Fr::zero()), f(Fr::one()));
            bars[k] = -r0 * (r1 - r0).inverse()?;
            *scalar_mut(&mut p, k) = bars[k];
        }
        let pp = big(self, &bars);
        let zo = zeta * self.w;
        let zy = &z - &c(&[bars[5]]);
        let lin1 = |a: Fr| c(&[-a, Fr::one()]);
        match at {
            Attack::Late(14) => {
                let w0 = pp.evaluate(&zo) * (zo - zeta).inverse()?;
                p.w_ev_x_commit = self.commit(&c(&[w0]));
                let u = self.chal(&p, h, 3, Some(14))?;
                let rest = &(&pp - &sc(&lin1(zeta), w0)) + &sc(&zy, u);
                p.w_ev_wx_commit = self.commit(&sc(&quot(&rest, zo), u.inverse()?));
            }
            Attack::Late(13) | Attack::KnownU => {
                let w1 = zy.evaluate(&zeta) * (zeta - zo).inverse()?;
                p.w_ev_wx_commit = self.commit(&c(&[w1]));
                let u = if matches!(at, Attack::KnownU) { if h.u_one { Fr::one() } else { v } } else { self.chal(&p, h, 3, Some(13))? };
                let rest = &pp + &sc(&(&zy - &sc(&lin1(zo), w1)), u);
                p.w_ev_x_commit = self.commit(&quot(&rest, zeta));
            }
            _ => {
                p.w_ev_x_commit = self.commit(&quot(&pp, zeta));
                p.w_ev_wx_commit = self.commit(&quot(&zy, zo));
            }
        }
        let log = self.log(&p);
        p.u = log.last().and_then(|a| challenge_of(&a.digest))?;
        if h.src[3] != Src::Draw(4, 0) {
            p.u = self.chal(&p, h, 3, None)?;
        }
        if let Attack::KnownU = at {
            // u may not come from the hash at all
            if draw(2) == 1 {
                p.u = if h.u_one { Fr::one() } else { v };
            }
        }
        Some(p)
    }
}
