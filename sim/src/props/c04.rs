//! C04: blinding of PLONK proofs. The simulator knows the witness and the trapdoor and takes the
//! blinding values out of the public proof.

use super::arena;
use super::circ::{self, Desc};
use super::plonk::challenge_of;
use super::proc::{self, World};
use super::session::swarm;
use crate::core::{self, chance, draw, draw_us, fault, fr_of, probe, range, trace, verdict, violation, weighted};
use crate::hash::spy;
use crate::sched::{Fail, Sim};
use crate::seam;
use crate::with_hash;
use ark_bls12_381::{Fr, G1Affine};
use ark_ec::AffineRepr;
use ark_ff::{BigInteger, Field, One, PrimeField, UniformRand, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{DenseUVPolynomial, EvaluationDomain, Evaluations, GeneralEvaluationDomain, Polynomial};
use ark_serialize::CanonicalSerialize;
use kzg::srs::Srs;
use plonk::compiled_circuit::CompiledCircuit;
use plonk::prover::{generate_proof, Proof};
use rand::rngs::StdRng;
use rand::SeedableRng;
use std::sync::Arc;

type Poly = DensePolynomial<Fr>;

pub struct Setting {
    pub desc: Desc,
    pub cc: CompiledCircuit,
    pub secret: Fr,
    pub srs: Srs,
}
/// What a proof shows about its blinding.
#[derive(Clone)]
struct View {
    who: String,
    zeta: Fr,
    omega_zeta: Fr,
    /// value of the mask polynomial of a, b, c at zeta, of z at omega zeta
    m: [Fr; 4],
    /// commitment minus commitment to the unmasked polynomial
    d: [G1Affine; 4],
}

fn g(x: Fr) -> G1Affine {
    (G1Affine::generator() * x).into()
}

impl Setting {
    pub fn new(desc: Desc, secret: Fr) -> Self {
        let cc = desc.compile();
        let srs = Srs::new_from_secret(secret, desc.size());
        Setting { desc, cc, secret, srs }
    }
    fn n(&self) -> u64 {
        self.cc.size as u64
    }
    fn zh(&self, x: Fr) -> Fr {
        x.pow([self.n()]) - Fr::one()
    }
    fn prove(&self, hash: u64) -> Proof {
        with_hash!(hash, H => generate_proof::<H>(&self.cc, self.srs.clone()))
    }
    /// The challenges the proof was made with, taken from the verifier's hashing.
    fn challenges(&self, p: &Proof, hash: u64) -> Option<(Fr, Fr, Fr)> {
        let st = super::plonk::Stmt { desc: self.desc.clone(), secret: self.secret, srs: self.srs.clone(), hash };
        let (ok, log) = spy(|| super::plonk::Plonk::check(&st, p));
        if ok != Ok(Ok(())) {
            return None;
        }
        let before = |c: &G1Affine| {
            let mut m = vec![];
            c.serialize_uncompressed(&mut m).unwrap();
            log.iter().position(|a| a.data.windows(m.len()).any(|w| w == m)).and_then(|i| i.checked_sub(1)).map(|i| &log[i].digest)
        };
        let d = before(&p.z_commit.0)?.get(..8)?.try_into().ok()?;
        let mut r = StdRng::seed_from_u64(u64::from_le_bytes(d));
        let (beta, gamma) = (Fr::rand(&mut r), Fr::rand(&mut r));
        let zeta = challenge_of(before(&g(p.bar_a))?)?;
        Some((beta, gamma, zeta))
    }
    fn acc(&self, beta: Fr, gamma: Fr) -> Option<Poly> {
        let dom = GeneralEvaluationDomain::<Fr>::new(self.cc.size)?;
        let gc = self.cc.gate_constraints();
        let cp = self.cc.copy_constraints();
        let mut z = vec![Fr::one()];
        for i in 0..self.cc.size - 1 {
            let x = dom.element(i);
            let mut f = z[i];
            for (w, s, k) in [(gc.f_ax(), cp.s_sigma_1(), Fr::one()), (gc.f_bx(), cp.s_sigma_2(), *cp.k1()), (gc.f_cx(), cp.s_sigma_3(), *cp.k2())] {
                let v = w.evaluate(&x);
                f *= (v + beta * k * x + gamma) * (v + beta * s.evaluate(&x) + gamma).inverse()?;
            }
            z.push(f);
        }
        Some(Evaluations::from_vec_and_domain(z, dom).interpolate())
    }
    fn view(&self, p: &Proof, hash: u64, who: &str) -> Option<View> {
        let (beta, gamma, zeta) = self.challenges(p, hash)?;
        let dom = GeneralEvaluationDomain::<Fr>::new(self.cc.size)?;
        let oz = zeta * dom.element(1);
        let gc = self.cc.gate_constraints();
        let acc = self.acc(beta, gamma)?;
        let s = self.secret;
        let at = |bar: Fr, f: &Poly, x: Fr| Some((bar - f.evaluate(&x)) * self.zh(x).inverse()?);
        let diff = |c: &G1Affine, f: &Poly| -> G1Affine { (c.into_group() - G1Affine::generator() * f.evaluate(&s)).into() };
        Some(View {
            who: who.into(),
            zeta,
            omega_zeta: oz,
            m: [at(p.bar_a, gc.f_ax(), zeta)?, at(p.bar_b, gc.f_bx(), zeta)?, at(p.bar_c, gc.f_cx(), zeta)?, at(p.bar_z_w, &acc, oz)?],
            d: [diff(&p.a_commit.0, gc.f_ax()), diff(&p.b_commit.0, gc.f_bx()), diff(&p.c_commit.0, gc.f_cx()), diff(&p.z_commit.0, &acc)],
        })
    }
    /// Checks that one proof allows.
    fn judge_one(&self, v: &View) {
        verdict("proof-inspected");
        let zs = self.zh(self.secret);
        let names = ["a", "b", "c", "z"];
        for i in 0..4 {
            if v.d[i].is_zero() {
                return violation(format!("unmasked-commitment:{}", names[i]), v.who.clone());
            }
            if v.m[i].is_zero() {
                return violation(format!("unmasked-evaluation:{}", names[i]), v.who.clone());
            }
            let x = if i < 3 { v.zeta } else { v.omega_zeta };
            let s = self.secret;
            // masks with fewer independent values than they should have
            let inv = |f: Fr| f.inverse().unwrap_or_default();
            let single: Vec<(String, Fr)> = vec![
                ("only the constant value".into(), v.m[i]),
                ("only the linear value".into(), v.m[i] * inv(x) * s),
                ("constant equals linear value".into(), v.m[i] * inv(x + Fr::one()) * (s + Fr::one())),
            ];
            let mut all = single;
            if i == 3 {
                all.push(("only the quadratic value".into(), v.m[i] * inv(x * x) * s * s));
                all.push(("three equal values".into(), v.m[i] * inv(x * x + x + Fr::one()) * (s * s + s + Fr::one())));
            }
            for (what, mask) in all {
                if v.d[i] == g(mask * zs) {
                    return violation(format!("degenerate-mask:{}", names[i]), format!("{}: {what}", v.who));
                }
            }
            for j in 0..i {
                if v.d[i] == v.d[j] {
                    return violation("equal-masks", format!("{}: {} and {}", v.who, names[j], names[i]));
                }
            }
        }
    }
    /// Was a linear mask of one proof used again in another?
    fn judge_two(&self, a: &View, b: &View) {
        verdict("pair-of-proofs-inspected");
        let zs = self.zh(self.secret);
        for i in 0..4 {
            for j in 0..4 {
                if a.d[i] == b.d[j] {
                    return violation("mask-reused", format!("{} wire {i} and {} wire {j}", a.who, b.who));
                }
                if i == 3 || j == 3 || a.zeta == b.zeta {
                    continue;
                }
                let b1 = (a.m[i] - b.m[j]) * (a.zeta - b.zeta).inverse().unwrap();
                let b2 = a.m[i] - b1 * a.zeta;
                if a.d[i] == g((b1 * self.secret + b2) * zs) && b.d[j] == a.d[i] {
                    return violation("mask-reused", format!("{} wire {i} and {} wire {j}", a.who, b.who));
                }
            }
        }
    }
    /// The nine blinding values, from three proofs made with the same entropy and other hashes.
    fn solve(&self, v: &[View]) -> Option<[Fr; 9]> {
        let zs = self.zh(self.secret);
        let s = self.secret;
        let mut out = [Fr::zero(); 9];
        for i in 0..3 {
            let b1 = (v[0].m[i] - v[1].m[i]) * (v[0].zeta - v[1].zeta).inverse()?;
            let b2 = v[0].m[i] - b1 * v[0].zeta;
            if v[2].m[i] != b1 * v[2].zeta + b2 || v[0].d[i] != g((b1 * s + b2) * zs) {
                return None;
            }
            out[2 * i] = b1;
            out[2 * i + 1] = b2;
        }
        // quadratic through three points
        let x: Vec<Fr> = v.iter().map(|v| v.omega_zeta).collect();
        let y: Vec<Fr> = v.iter().map(|v| v.m[3]).collect();
        let mut q = Poly::from_coefficients_vec(vec![]);
        for i in 0..3 {
            let (j, k) = ((i + 1) % 3, (i + 2) % 3);
            let f = y[i] * ((x[i] - x[j]) * (x[i] - x[k])).inverse()?;
            q += &Poly::from_coefficients_vec(vec![x[j] * x[k] * f, -(x[j] + x[k]) * f, f]);
        }
        if v[0].d[3] != g(q.evaluate(&s) * zs) {
            return None;
        }
        for i in 0..3 {
            out[8 - i] = q.coeffs.get(i).copied().unwrap_or_default();
        }
        Some(out)
    }
}

/// A value that follows from one or two others, or differs from another by a small number.
fn relation(x: &Fr, others: &[(Fr, String)]) -> Option<String> {
    for (i, (a, na)) in others.iter().enumerate() {
        if !full_range(&(*x - a)) || !full_range(&(*x + a)) {
            return Some(format!("close to {na}"));
        }
        let r = *x * a.inverse().unwrap_or_default();
        if !full_range(&r) || !full_range(&r.inverse().unwrap_or_default()) {
            return Some(format!("a multiple of {na}"));
        }
        if *x == a.square() || *x == a.square() * a || x.square() == *a || a.inverse() == Some(*x) {
            return Some(format!("a power of {na}"));
        }
        for (b, nb) in &others[..i] {
            let hit = [(*a + b, "+"), (*a - b, "-"), (*b - a, "(-)"), (-*a - b, "-(+)"), (*a * b, "*"), (*a * b.inverse().unwrap_or_default(), "/"), (*b * a.inverse().unwrap_or_default(), "(/)")];
            if let Some((_, op)) = hit.iter().find(|(v, _)| v == x) {
                return Some(format!("{na} {op} {nb}"));
            }
        }
    }
    None
}

fn full_range(f: &Fr) -> bool {
    let up = f.into_bigint().num_bits();
    let down = (-*f).into_bigint().num_bits();
    up > 190 && down > 190
}

pub fn run(ent: u64) {
    let desc = circ::random(if chance(1, 4) { 16 } else { 7 });
    let s = Setting::new(desc, fr_of(draw(u64::MAX)));
    core::key(&s.desc.show());
    match weighted(&[16, 20, 8, 3]) {
        0 => processes(s, ent),
        1 => concurrent(s, ent),
        3 => marathon(s, ent),
        _ => starved(s, ent),
    }
}

/// Provers that are restarted as new processes, with the same clock and process id.
fn processes(s: Setting, ent: u64) {
    let n = range(2, 3);
    let correlated = chance(1, 2);
    let mut all: Vec<(Fr, String)> = vec![];
    let hashes = [0u64, 1, 3];
    let now = draw(1000);
    for inc in 0..n {
        let mut e = seam::ent(core::combine(ent, if correlated { inc } else { core::combine(inc, 5) }));
        if correlated {
            // the streams differ in one byte of every request
            e = seam::ent(inc);
            e.mode = 3;
            e.shared = ent;
            fault("entropy:correlated-streams");
        }
        if inc > 0 {
            fault("crash:process-restart");
        }
        let w = World {
            ent: e,
            now,
            skew: 0,
            eintr: if correlated { 0 } else { [0, 4][draw_us(2)] },
            short: if correlated { 0 } else { [0, 3][draw_us(2)] },
        };
        let mut views = vec![];
        for h in hashes {
            let args = [
                ("desc", proc::desc_text(&s.desc)),
                ("secret", proc::hex(&s.secret)),
                ("extra", "0".into()),
                ("hash", h.to_string()),
                ("count", "1".into()),
            ];
            match proc::incarnation("prove", &w, &args) {
                Err(e) => return violation("prover-died", format!("{}: {e}", s.desc.show())),
                Ok(a) => {
                    let p = proc::proof_of(&a.lines[0].1);
                    trace(format!("incarnation {inc} hash {h}: {} bytes of entropy", a.bytes));
                    if a.bytes < 16 {
                        return violation("entropy-not-used", format!("a proof was made from {} bytes of OS randomness", a.bytes));
                    }
                    match s.view(&p, h, &format!("incarnation {inc} hash {h}")) {
                        Some(v) => views.push(v),
                        None => probe("proof-not-analysable"),
                    }
                }
            }
        }
        for v in &views {
            s.judge_one(v);
        }
        if core::violated() || views.len() < 3 {
            return;
        }
        let Some(b) = s.solve(&views) else {
            probe("blinding-not-recovered");
            // at least no reuse between different incarnations: nothing more to say here
            continue;
        };
        probe("blinding-recovered");
        for (i, x) in b.iter().enumerate() {
            verdict("blinding-value");
            let who = format!("b{} of incarnation {inc}", i + 1);
            if x.is_zero() || !full_range(x) {
                return violation("weak-blinding-value", format!("{who} = {x}"));
            }
            if let Some((_, o)) = all.iter().find(|(y, _)| y == x) {
                return violation("blinding-value-repeated", format!("{who} equals {o} in {}", s.desc.show()));
            }
            if let Some(what) = relation(x, &all) {
                return violation("blinding-value-follows", format!("{who} is {what} in {}", s.desc.show()));
            }
            all.push((*x, who));
        }
    }
}

/// Many proofs by one process, and by its successor.
fn marathon(s: Setting, ent: u64) {
    let count = range(5, 20);
    let whole = chance(1, 3);
    let hashes: &[u64] = if whole { &[0, 1, 3] } else { &[[0, 1, 3][draw_us(3)]] };
    probe("marathon");
    let mut views: Vec<View> = vec![];
    let mut values: Vec<(Fr, String)> = vec![];
    for inc in 0..2 {
        if inc > 0 {
            fault("crash:process-restart");
        }
        let w = World { ent: seam::ent(core::combine(ent, inc)), now: 7, skew: 0, eintr: 0, short: 0 };
        let mut of: Vec<Vec<View>> = vec![];
        for h in hashes {
            let args = [
                ("desc", proc::desc_text(&s.desc)),
                ("secret", proc::hex(&s.secret)),
                ("extra", "0".into()),
                ("hash", h.to_string()),
                ("count", count.to_string()),
            ];
            let a = match proc::incarnation("prove", &w, &args) {
                Err(e) => return violation("prover-died", format!("{}: {e}", s.desc.show())),
                Ok(a) => a,
            };
            trace(format!("incarnation {inc} hash {h}: {count} proofs from {} bytes of entropy", a.bytes));
            let mut made = vec![];
            for (i, (_, text)) in a.lines.iter().enumerate() {
                match s.view(&proc::proof_of(text), *h, &format!("proof {i} of incarnation {inc}")) {
                    Some(v) => made.push(v),
                    None => probe("proof-not-analysable"),
                }
            }
            of.push(made);
        }
        for v in &of[0] {
            s.judge_one(v);
            for o in &views {
                s.judge_two(o, v);
            }
            if core::violated() {
                return;
            }
            views.push(v.clone());
        }
        if !whole || of.iter().any(|v| v.len() as u64 != count) {
            continue;
        }
        // the requests for entropy are the same for every hash, so the values are, too
        for i in 0..count as usize {
            let Some(b) = s.solve(&[of[0][i].clone(), of[1][i].clone(), of[2][i].clone()]) else {
                probe("blinding-not-recovered");
                break;
            };
            probe("blinding-recovered");
            for (k, x) in b.iter().enumerate() {
                verdict("blinding-value");
                let who = format!("b{} of proof {i} of incarnation {inc}", k + 1);
                if x.is_zero() || !full_range(x) {
                    return violation("weak-blinding-value", format!("{who} = {x}"));
                }
                if let Some((_, o)) = values.iter().find(|(y, _)| y == x) {
                    return violation("blinding-value-repeated", format!("{who} equals {o} in {}", s.desc.show()));
                }
                values.push((*x, who));
            }
        }
    }
}

struct Conc {
    views: Vec<(View, bool)>,
    made: u64,
    starts: u64,
    ent: u64,
}

fn start(sim: &mut Sim<Conc>, s: Arc<Setting>, node: usize, left: u64) {
    if left == 0 {
        return;
    }
    sim.w.starts += 1;
    let hash = if chance(1, 3) { draw(4) } else { 0 };
    let k = sim.w.starts;
    let e = seam::ent(core::combine(core::combine(sim.w.ent, k), node as u64));
    let (s2, who) = (s.clone(), format!("proof {k} of node {node}"));
    trace(format!("start {who}"));
    sim.spawn(
        node,
        who.clone(),
        e,
        move || {
            let p = s2.prove(hash);
            (p, seam::get_ent().bytes)
        },
        move |sim, r| match r {
            Err(Fail::Crashed) => {
                fault("crash:in-operation");
                let d = range(1, 50);
                sim.after(d, move |sim| start(sim, s, node, left));
            }
            Err(Fail::Panicked(e)) => violation("prover-panics", format!("{e} at {}", crate::exec::last_panic_place())),
            Ok((p, _bytes)) => {
                sim.w.made += 1;
                if let Some(v) = s.view(&p, hash, &who) {
                    s.judge_one(&v);
                    for (o, _) in &sim.w.views {
                        s.judge_two(o, &v);
                    }
                    sim.w.views.push((v, true));
                } else {
                    probe("proof-not-analysable");
                }
                let d = draw(30);
                sim.after(d, move |sim| start(sim, s, node, left - 1));
            }
        },
    );
}

/// Several provers in one process, suspended inside each other's entropy requests and hashes.
fn concurrent(s: Setting, ent: u64) {
    swarm(true);
    let nodes = range(1, 3) as usize;
    let s = Arc::new(s);
    let mut sim = Sim::new(Conc { views: vec![], made: 0, starts: 0, ent });
    for n in 0..nodes {
        let s = s.clone();
        let left = range(1, 2);
        let d = draw(20);
        sim.after(d, move |sim| start(sim, s, n, left));
    }
    for _ in 0..draw(3) {
        let (t, n) = (range(1, 200), draw_us(nodes));
        sim.after(t, move |sim| {
            if sim.busy(n) {
                trace(format!("crash node {n}"));
                sim.crash(n);
            }
        });
    }
    sim.run(5000, |_| false);
    if !core::violated() && sim.w.made == 0 {
        violation("no-progress", "no proof was made");
    }
}

/// Without randomness there is no proof.
fn starved(s: Setting, ent: u64) {
    fault("entropy:unavailable-from-start");
    if chance(1, 2) {
        let mut e = seam::ent(ent);
        e.fail = true;
        let w = World { ent: e, now: 0, skew: 0, eintr: [0, 4][draw_us(2)], short: 0 };
        let args = [
            ("desc", proc::desc_text(&s.desc)),
            ("secret", proc::hex(&s.secret)),
            ("extra", "0".into()),
            ("hash", "0".into()),
            ("count", "1".into()),
        ];
        let r = proc::incarnation("prove", &w, &args);
        verdict("starved");
        trace(format!("starved prover: {}", if r.is_ok() { "made a proof" } else { "no proof" }));
        if r.is_ok() {
            violation("proof-without-entropy", s.desc.show());
        }
        return;
    }
    let s = Arc::new(s);
    let mut cases = vec![];
    for i in 0..range(1, 2) {
        let s2 = s.clone();
        let mut c = arena::Case::new(format!("starved-prover:{i}"), s.desc.show(), arena::Expect::Reject, move || {
            s2.prove(0);
            Ok(())
        })
        .tolerant();
        c.no_entropy = true;
        cases.push(c);
    }
    // a healthy prover next to it is not disturbed
    let s2 = s.clone();
    cases.push(arena::Case::new("healthy-prover", s.desc.show(), arena::Expect::Accept, move || {
        s2.prove(0);
        Ok(())
    }));
    arena::run_with(cases, ent, {
        swarm(true);
        0
    });
}
