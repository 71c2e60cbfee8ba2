//! Constraint systems, instances and step functions for the folding scheme.

use super::c07::{g, horner};
use crate::core::{self, chance, draw, draw_fr, draw_us, field_of, fr_of, probe, range, weighted};
use ark_bls12_381::{Fq, Fr, G1Affine};
use ark_ec::AffineRepr;
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
use kzg::commitment::KzgCommitment;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use nova::circuit::{FCircuit, State};
use nova::r1cs::{FInstance, FWitness, R1CS};
use std::sync::Arc;

/// A rank-1 system together with a way to solve it.
pub struct Sys {
    pub r1cs: R1CS<Fr>,
    pub nv: usize,
    pub nx: usize,
    pub rows: usize,
    /// variables in the order in which they get values, with the row that defines each
    order: Vec<(usize, Option<usize>)>,
    pub secret: Fr,
    pub srs: Srs,
    pub desc: String,
}

/// `free_x`: the public values are not constrained.
pub fn system(max_vars: u64, nx: usize, free_x: bool) -> Sys {
    let nv = range(1, max_vars) as usize;
    let cols = nv + nx + 1;
    // the order: a shuffled list of variables
    let mut vars: Vec<usize> = (0..nv + nx).collect();
    for i in (1..vars.len()).rev() {
        let j = i - draw_us(i + 1);
        vars.swap(i, j);
    }
    let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
    let mut order = vec![];
    let mut known: Vec<usize> = vec![cols - 1];
    let coef = || match weighted(&[4, 1, 2]) {
        0 => Fr::one(),
        1 => draw_fr(),
        _ => Fr::from(range(2, 9)),
    };
    let zero = || vec![Fr::zero(); cols];
    let combination = |known: &[usize]| {
        let mut r = zero();
        for _ in 0..range(1, 3) {
            r[known[draw_us(known.len())]] += coef();
        }
        r
    };
    for (k, &v) in vars.iter().enumerate() {
        let is_x = v >= nv;
        let last = k + 1 == vars.len() && a.is_empty();
        if (is_x && free_x) || (!last && chance(1, 3)) {
            order.push((v, None));
        } else {
            a.push(combination(&known));
            b.push(combination(&known));
            let mut r = zero();
            if chance(1, 3) {
                r = combination(&known);
            }
            r[v] = match chance(1, 4) {
                true => Fr::from(range(2, 5)),
                false => Fr::one(),
            };
            c.push(r);
            order.push((v, Some(a.len() - 1)));
        }
        if !(is_x && free_x) {
            known.push(v);
        }
    }
    // rows that say nothing new
    let add = [0, 0, 1, range(1, 4)][draw_us(4)];
    for _ in 0..add.max(a.is_empty() as u64) {
        if a.is_empty() || chance(1, 3) {
            a.push(zero());
            b.push(combination(&known));
            c.push(zero());
        } else {
            let k = coef();
            let i = draw_us(a.len());
            a.push(a[i].iter().map(|x| *x * k).collect());
            b.push(b[i].clone());
            c.push(c[i].iter().map(|x| *x * k).collect());
        }
    }
    let rows = a.len();
    let secret = super::c07::secret();
    let srs = Srs::new_from_secret(secret, nv.max(rows).max(1) + draw_us(4));
    let desc = format!("{rows}x{nv}+{nx}{}", if free_x { "f" } else { "" });
    core::key(&desc);
    Sys { r1cs: R1CS { matrix_a: a, matrix_b: b, matrix_c: c, num_io: nx, num_vars: nv }, nv, nx, rows, order, secret, srs, desc }
}

#[derive(Clone)]
pub struct Pair {
    pub w: FWitness,
    pub i: FInstance,
}

fn dot(row: &[Fr], z: &[Fr]) -> Fr {
    row.iter().zip(z).map(|(a, b)| *a * b).sum()
}

impl Sys {
    pub fn scheme(&self) -> KzgScheme {
        KzgScheme::new(self.srs.clone())
    }
    pub fn com(&self, v: &[Fr]) -> KzgCommitment {
        KzgCommitment(g(horner(v, self.secret)))
    }
    fn z(w: &[Fr], x: &[Fr], u: Fr) -> Vec<Fr> {
        let mut z = w.to_vec();
        z.extend(x);
        z.push(u);
        z
    }
    /// Values that satisfy the system with u = 1.
    pub fn solve(&self) -> (Vec<Fr>, Vec<Fr>) {
        let mut z = vec![Fr::zero(); self.nv + self.nx + 1];
        z[self.nv + self.nx] = Fr::one();
        for (v, row) in &self.order {
            z[*v] = match row {
                None => draw_fr(),
                Some(r) => {
                    let (a, b, c) = (&self.r1cs.matrix_a[*r], &self.r1cs.matrix_b[*r], &self.r1cs.matrix_c[*r]);
                    z[*v] = Fr::zero();
                    (dot(a, &z) * dot(b, &z) - dot(c, &z)) * c[*v].inverse().unwrap()
                }
            };
        }
        (z[..self.nv].to_vec(), z[self.nv..self.nv + self.nx].to_vec())
    }
    /// What is missing to satisfy the relaxed equation, per row.
    pub fn slack(&self, w: &[Fr], x: &[Fr], u: Fr) -> Vec<Fr> {
        let z = Self::z(w, x, u);
        let m = &self.r1cs;
        (0..self.rows)
            .map(|r| dot(&m.matrix_a[r], &z) * dot(&m.matrix_b[r], &z) - u * dot(&m.matrix_c[r], &z))
            .collect()
    }
    /// Relaxed satisfaction, decided without the code under test.
    pub fn good(&self, p: &Pair) -> bool {
        if p.w.w.len() != self.nv || p.i.x.len() != self.nx {
            return false;
        }
        let s = self.slack(&p.w.w, &p.i.x, p.i.u);
        let n = s.len().max(p.w.e.len());
        let at = |v: &[Fr], i: usize| v.get(i).copied().unwrap_or(Fr::zero());
        (0..n).all(|i| at(&s, i) == at(&p.w.e, i)) && p.i.com_w == self.com(&p.w.w) && p.i.com_e == self.com(&p.w.e)
    }
    /// A pair as a participant makes it with the library.
    pub fn plain(&self) -> Pair {
        let (w, x) = self.solve();
        let w = FWitness::new(&w, self.rows);
        let i = w.commit(&self.scheme(), &x);
        Pair { w, i }
    }
    /// A good pair with error vector and scalar of its own.
    pub fn relaxed(&self) -> Pair {
        let w: Vec<Fr> = (0..self.nv).map(|_| draw_fr()).collect();
        let x: Vec<Fr> = (0..self.nx).map(|_| draw_fr()).collect();
        let u = draw_fr();
        let e = self.slack(&w, &x, u);
        let i = FInstance { com_e: self.com(&e), u, com_w: self.com(&w), x };
        Pair { w: FWitness { e, w }, i }
    }
    pub fn trivial(&self) -> Pair {
        let (w, i) = nova::r1cs::create_trivial_pair(self.nx, self.nv, &self.scheme());
        Pair { w, i }
    }
    /// The pair with something wrong (usually: the caller asks `good`).
    pub fn corrupt(&self, p: &Pair, other: &Pair) -> (Pair, &'static str) {
        let mut p = p.clone();
        let d = core::delta::<Fr>();
        let name = match draw(11) {
            0 => {
                let k = draw_us(p.w.w.len());
                p.w.w[k] += d;
                p.i.com_w = self.com(&p.w.w);
                "witness"
            }
            1 => {
                let k = draw_us(p.i.x.len().max(1));
                if let Some(x) = p.i.x.get_mut(k) {
                    *x += d;
                }
                "public"
            }
            2 => {
                p.i.u += d;
                "u"
            }
            3 => {
                let k = draw_us(p.w.e.len());
                p.w.e[k] += d;
                p.i.com_e = self.com(&p.w.e);
                "error"
            }
            4 => {
                p.i.com_w = shift(&p.i.com_w, d);
                "com_w"
            }
            5 => {
                p.i.com_e = shift(&p.i.com_e, d);
                "com_e"
            }
            6 => {
                let k = draw_us(p.w.e.len());
                p.w.e[k] += d;
                "error-uncommitted"
            }
            7 => {
                let k = draw_us(p.w.w.len());
                p.w.w[k] += d;
                "witness-uncommitted"
            }
            8 => {
                // the values in their order, cut at another place
                let n = p.w.w.len();
                match draw(4) {
                    0 => p.i.x.push(p.i.u),
                    1 if n > 1 => {
                        p.i.x.insert(0, p.w.w.pop().unwrap());
                        p.i.com_w = self.com(&p.w.w);
                    }
                    2 if !p.i.x.is_empty() => {
                        p.w.w.push(p.i.x.remove(0));
                        p.i.com_w = self.com(&p.w.w);
                    }
                    _ => p.w.w.push(Fr::zero()),
                }
                "misfit"
            }
            9 => {
                for _ in 0..range(1, 2) {
                    p.i.x.push(draw_fr());
                }
                "misfit"
            }
            _ => {
                p.i = other.i.clone();
                "swapped-instance"
            }
        };
        (p, name)
    }
}

pub fn shift(c: &KzgCommitment, d: Fr) -> KzgCommitment {
    KzgCommitment((c.0 + g(d)).into())
}

/// Another value in place of a scalar.
pub fn other_scalar(f: Fr) -> Fr {
    match draw(5) {
        0 => f + core::delta::<Fr>(),
        1 => f - Fr::one(),
        2 => -f,
        3 => Fr::zero(),
        _ => draw_fr(),
    }
}
pub fn other_point(c: &KzgCommitment) -> KzgCommitment {
    KzgCommitment(match draw(5) {
        0 => (c.0 + G1Affine::generator()).into(),
        1 => -c.0,
        2 => G1Affine::zero(),
        3 => (c.0 * Fr::from(2u64)).into(),
        _ => g(fr_of(draw(1 << 40))),
    })
}
/// The instance with one part changed.
pub fn alter_instance(i: &FInstance, other: Option<&FInstance>) -> (FInstance, &'static str) {
    let mut q = i.clone();
    let name = match weighted(&[3, 3, 3, 3, 1, 1, 1, if other.is_some() { 3 } else { 0 }]) {
        0 => {
            q.com_e = other_point(&q.com_e);
            "com_e"
        }
        1 => {
            q.u = other_scalar(q.u);
            "u"
        }
        2 => {
            q.com_w = other_point(&q.com_w);
            "com_w"
        }
        3 => {
            let k = draw_us(q.x.len().max(1));
            if let Some(x) = q.x.get_mut(k) {
                *x = other_scalar(*x);
            }
            "x"
        }
        4 => {
            q.x.push(draw_fr());
            "x-longer"
        }
        5 => {
            q.x.pop();
            "x-shorter"
        }
        6 => {
            std::mem::swap(&mut q.com_e, &mut q.com_w);
            "commitments-swapped"
        }
        _ => {
            let o = other.unwrap();
            match draw(5) {
                0 => q.com_e = o.com_e.clone(),
                1 => q.com_w = o.com_w.clone(),
                2 => q.u = o.u,
                3 => q.x = o.x.clone(),
                _ => q = o.clone(),
            }
            "of-another"
        }
    };
    (q, name)
}

/// A step function: what it does is fixed by numbers, so that the reference can do it too.
#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub kind: u64,
    pub a: u64,
    pub b: u64,
}
pub fn step_function() -> Step {
    Step { kind: draw(6), a: 1 + draw(1 << 20), b: 1 + draw(1 << 20) }
}
fn base(f: Fr) -> Fq {
    Fq::from_le_bytes_mod_order(&f.into_bigint().to_bytes_le())
}
impl Step {
    pub fn apply(&self, z: Fq, w: &FWitness) -> Fq {
        let w0 = w.w.first().copied().unwrap_or(Fr::zero());
        let wl = w.w.last().copied().unwrap_or(Fr::zero());
        let (a, b) = (Fq::from(self.a), Fq::from(self.b));
        match self.kind {
            // the one of the examples
            0 => z + base(w0 * w0 * w0 + w0 + Fr::from(5u64)),
            1 => z * z + base(w0),
            2 => a * z + b,
            3 => z * base(w0) + base(wl) + b,
            // a counter: no input
            4 => z + Fq::one(),
            // constant: any state leads to one
            _ => a,
        }
    }
}
impl FCircuit for Step {
    fn run(&self, z_i: &State, w_i: &FWitness) -> State {
        crate::sched::yield_point("step");
        let state = self.apply(z_i.state, w_i);
        crate::sched::yield_point("step");
        State { state }
    }
}
pub fn draw_state() -> Fq {
    match draw(3) {
        0 => Fq::from(draw(50)),
        1 => Fq::zero(),
        _ => field_of::<Fq>(draw(1 << 40)),
    }
}
pub fn to_fr(h: Fq) -> Fr {
    Fr::from_le_bytes_mod_order(&h.into_bigint().to_bytes_le())
}

// ---- the IVC machine, with the hash function chosen at run time

use crate::with_hash;
use nova::circuit::AugmentedCircuit;
use nova::ivc::{IVCProof, ZkIVCProof, IVC};
use nova::nifs::NIFSProof;
use nova::transcript::Transcript;

#[derive(Clone, PartialEq, Debug)]
pub struct Fields {
    pub i: Fq,
    pub z_0: Fq,
    pub z_i: Fq,
    pub z_i1: Option<Fq>,
    pub h_i: Option<Fq>,
    pub h_i1: Option<Fq>,
    pub trivial: FInstance,
}
pub trait Machine: Send {
    fn fields(&self) -> Fields;
    fn restore(&mut self, f: &Fields);
    fn run(&mut self, u: &FInstance, big: Option<&FInstance>, w: &FWitness, com_t: Option<&KzgCommitment>) -> Result<Fq, String>;
    fn next(&mut self);
    fn prove(&self, r1cs: &R1CS<Fr>, p: &IVCProof) -> (FWitness, FInstance, ZkIVCProof);
    fn verify(&mut self, z: &ZkIVCProof) -> Result<(), String>;
}
struct M<T: digest::Digest + Default + std::io::Write>(IVC<T, Step>);
impl<T: digest::Digest + Default + std::io::Write + Send> Machine for M<T> {
    fn fields(&self) -> Fields {
        let a = &self.0.augmented_circuit;
        Fields {
            i: a.i,
            z_0: a.z_0.state,
            z_i: a.z_i.state,
            z_i1: a.z_i1.as_ref().map(|s| s.state),
            h_i: a.h_i,
            h_i1: a.h_i1,
            trivial: a.trivial_instance.clone(),
        }
    }
    fn restore(&mut self, f: &Fields) {
        let a = &mut self.0.augmented_circuit;
        a.i = f.i;
        a.z_0 = State { state: f.z_0 };
        a.z_i = State { state: f.z_i };
        a.z_i1 = f.z_i1.map(|state| State { state });
        a.h_i = f.h_i;
        a.h_i1 = f.h_i1;
        a.trivial_instance = f.trivial.clone();
    }
    fn run(&mut self, u: &FInstance, big: Option<&FInstance>, w: &FWitness, com_t: Option<&KzgCommitment>) -> Result<Fq, String> {
        self.0.augmented_circuit.run(u, big, w, com_t)
    }
    fn next(&mut self) {
        self.0.augmented_circuit.next_step()
    }
    fn prove(&self, r1cs: &R1CS<Fr>, p: &IVCProof) -> (FWitness, FInstance, ZkIVCProof) {
        self.0.prove(r1cs, p, &mut Transcript::<T>::default())
    }
    fn verify(&mut self, z: &ZkIVCProof) -> Result<(), String> {
        self.0.verify(z, &mut Transcript::<T>::default())
    }
}
/// A computation: a step function, an initial state and inputs, with the states it must go through.
pub struct Job {
    pub sys: Arc<Sys>,
    pub step: Step,
    pub hash: u64,
    pub z: Vec<Fq>,
    pub inputs: Vec<Pair>,
    pub trivial: Pair,
}
impl Job {
    pub fn new(sys: Arc<Sys>, step: Step, hash: u64, z0: Fq, steps: usize) -> Job {
        let trivial = sys.trivial();
        let mut inputs: Vec<Pair> = vec![];
        for _ in 0..steps + 1 {
            let p = match inputs.last() {
                Some(p) if chance(1, 5) => p.clone(),
                _ => sys.plain(),
            };
            inputs.push(p);
        }
        let mut z = vec![z0];
        for p in &inputs {
            z.push(step.apply(*z.last().unwrap(), &p.w));
        }
        Job { sys, step, hash, z, inputs, trivial }
    }
    pub fn machine(&self) -> Box<dyn Machine> {
        with_hash!(self.hash, T => {
            let c = AugmentedCircuit::<T, Step>::new(self.step.clone(), &self.trivial.i, &State { state: self.z[0] });
            Box::new(M(IVC::<T, Step> { scheme: self.sys.scheme(), augmented_circuit: c }))
        })
    }
    pub fn hash_io(&self, i: Fq, z0: Fq, zi: Fq, big: &FInstance) -> Fq {
        with_hash!(self.hash, T => AugmentedCircuit::<T, Step>::hash_io(i, &State { state: z0 }, &State { state: zi }, big))
    }
    /// What step `n` consumes, when the running pair is `big`.
    pub fn step_input(&self, n: usize, big: &Pair) -> IVCProof {
        let mut u = self.inputs[n].i.clone();
        let h = self.hash_io(Fq::from(n as u64), self.z[0], self.z[n], &big.i);
        u.x = vec![to_fr(h)];
        IVCProof::new(&u, &self.inputs[n].w, &big.i, &big.w)
    }
    /// The machine right before step `n`, and the running pair, by running the library undisturbed.
    pub fn snapshots(&self, n: usize) -> Vec<(Fields, Pair)> {
        let mut m = self.machine();
        let mut big = self.trivial.clone();
        let mut all = vec![(m.fields(), big.clone())];
        for k in 0..n {
            if k == 0 {
                m.run(&self.inputs[0].i, None, &self.inputs[0].w, None).expect("first step");
            } else {
                let p = self.step_input(k, &big);
                let (w, i, zk) = m.prove(&self.sys.r1cs, &p);
                m.run(&p.u_i, Some(&p.big_u_i), &p.w_i, zk.com_t.as_ref()).expect("step");
                big = Pair { w, i };
            }
            m.next();
            all.push((m.fields(), big.clone()));
        }
        all
    }
    pub fn show(&self) -> String {
        format!("ivc {:?} sys {} hash {}", self.step, self.sys.desc, self.hash)
    }
}
pub fn job(max_steps: u64) -> Job {
    let free = chance(1, 2);
    let big = if chance(1, 60) { 1 + draw(2) } else { 0 };
    let sys = Arc::new(system(if big == 1 { range(20, 70) } else { [3, 6][draw_us(2)] }, 1, free));
    let (step, hash, z0) = (step_function(), draw(4), draw_state());
    let n = if big == 2 { range(max_steps, 4 * max_steps) } else { range(1, max_steps) } as usize;
    match big {
        1 => probe("large-system"),
        2 => probe("long-run"),
        _ => {}
    }
    Job::new(sys, step, hash, z0, n)
}
pub fn clone_zk(z: &ZkIVCProof) -> ZkIVCProof {
    ZkIVCProof { u_i: z.u_i.clone(), big_u_i: z.big_u_i.clone(), com_t: z.com_t.clone(), folded_u_proof: z.folded_u_proof.clone() }
}
pub fn same_nifs(a: &NIFSProof, b: &NIFSProof) -> bool {
    a.r == b.r
        && a.opening_point == b.opening_point
        && (a.opening_e.0, a.opening_e.1) == (b.opening_e.0, b.opening_e.1)
        && (a.opening_w.0, a.opening_w.1) == (b.opening_w.0, b.opening_w.1)
}
pub fn same_zk(a: &ZkIVCProof, b: &ZkIVCProof) -> bool {
    a.u_i == b.u_i
        && a.big_u_i == b.big_u_i
        && a.com_t == b.com_t
        && match (&a.folded_u_proof, &b.folded_u_proof) {
            (None, None) => true,
            (Some(a), Some(b)) => same_nifs(a, b),
            _ => false,
        }
}
/// One part of a folding proof changed.
pub fn alter_nifs(p: &NIFSProof, other: Option<&NIFSProof>) -> (NIFSProof, &'static str) {
    let mut q = p.clone();
    let name = match weighted(&[2, 2, 2, 2, 2, 2, 1, if other.is_some() { 3 } else { 0 }]) {
        0 => {
            q.r = other_scalar(q.r);
            "r"
        }
        1 => {
            q.opening_point = other_scalar(q.opening_point);
            "opening-point"
        }
        2 => {
            q.opening_e.1 = other_scalar(q.opening_e.1);
            "opening-e-value"
        }
        3 => {
            q.opening_w.1 = other_scalar(q.opening_w.1);
            "opening-w-value"
        }
        4 => {
            q.opening_e.0 = other_point(&KzgCommitment(q.opening_e.0)).0;
            "opening-e-point"
        }
        5 => {
            q.opening_w.0 = other_point(&KzgCommitment(q.opening_w.0)).0;
            "opening-w-point"
        }
        6 => {
            std::mem::swap(&mut q.opening_e, &mut q.opening_w);
            "openings-swapped"
        }
        _ => {
            let o = other.unwrap();
            match draw(5) {
                0 => q.r = o.r,
                1 => q.opening_point = o.opening_point,
                2 => q.opening_e = o.opening_e.clone(),
                3 => q.opening_w = o.opening_w.clone(),
                _ => q = o.clone(),
            }
            "nifs-of-another"
        }
    };
    (q, name)
}

/// The challenge a party has to use for these instances: found by listening to the verifier.
pub fn challenge_for(hash: u64, history: &[Fr], a: &FInstance, b: &FInstance, com_t: &KzgCommitment) -> Option<Fr> {
    use nova::nifs::NIFS;
    with_hash!(hash, T => {
        let ask = |r: Fr| NIFS::<T>::verify_challenge(r, a, b, com_t, &mut transcript::<T>(history));
        let (_, log) = crate::hash::spy(|| ask(Fr::zero()));
        let r = super::plonk::challenge_of(&log.last()?.digest)?;
        core::guard(|| ask(r)).ok()?.ok()?;
        Some(r)
    })
}
/// The same for the opening point.
pub fn point_for(hash: u64, history: &[Fr], m: &(NIFSProof, FInstance, FInstance, FInstance, KzgCommitment), sys: &Sys) -> Option<Fr> {
    use nova::nifs::NIFS;
    with_hash!(hash, T => {
        let (p, a, b, c, t) = m;
        let (_, log) = crate::hash::spy(|| NIFS::<T>::verify(p, a, b, c, t, &sys.scheme(), &mut transcript::<T>(history)));
        super::plonk::challenge_of(&log.last()?.digest)
    })
}
pub fn transcript<T: digest::Digest + Default>(history: &[Fr]) -> Transcript<T> {
    let mut t = Transcript::<T>::default();
    for h in history {
        t.feed_scalar_num(*h);
    }
    t
}
impl Sys {
    /// The same system under another setup.
    pub fn with_secret(&self, secret: Fr) -> Sys {
        Sys {
            r1cs: self.r1cs.clone(),
            nv: self.nv,
            nx: self.nx,
            rows: self.rows,
            order: self.order.clone(),
            secret,
            srs: Srs::new_from_secret(secret, self.nv.max(self.rows).max(1)),
            desc: self.desc.clone() + "'",
        }
    }
    /// An opening of a commitment to any value, made with the secret.
    pub fn open(&self, c: &KzgCommitment, z: Fr, y: Fr) -> Option<kzg::opening::KzgOpening> {
        use ark_ec::CurveGroup;
        let d = (self.secret - z).inverse()?;
        Some(kzg::opening::KzgOpening(((c.0.into_group() - g(y)) * d).into_affine(), y))
    }
    /// Is the opening right, decided with the secret?
    pub fn opens(&self, c: &KzgCommitment, o: &kzg::opening::KzgOpening, z: Fr) -> bool {
        use ark_ec::CurveGroup;
        (o.0 * (self.secret - z)).into_affine() == (c.0.into_group() - g(o.1)).into_affine()
    }
}
