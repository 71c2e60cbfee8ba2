//! C05: the circuit derived from an equation by different parties, processes and witnesses.

use super::arena::{self, Case, Expect};
use super::expr::{self, Equation};
use super::plonk::{clone_proof, same_proof};
use super::proc::{self, World};
use super::session::{self, Cfg, Proto};
use crate::core::{self, chance, draw, draw_us, fault, fr_of, guard, range, trace, verdict, violation};
use crate::seam;
use crate::with_hash;
use ark_bls12_381::Fr;
use ark_ff::Zero;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use plonk::common_preprocessed_input::cpi_parser::{CPIGenerator, CommonPreprocessedInput};
use plonk::compiled_circuit::CompiledCircuit;
use plonk::prover::{generate_proof, Proof};
use plonk::verifier::verify;
use std::sync::Arc;

pub struct Stmt {
    pub eq: Equation,
    pub vals: Vec<Fr>,
    /// as the prover and as the verifier write it
    pub texts: [String; 2],
    pub srs: Srs,
    pub secret: Fr,
    pub hash: u64,
    pub blind: u64,
}
pub struct Expr;

impl Expr {
    pub fn circuit(s: &Stmt) -> CompiledCircuit {
        s.eq.parser(&s.vals).parse(&s.texts[0]).compile().expect("compile")
    }
    pub fn check(s: &Stmt, p: &Proof) -> Result<(), String> {
        let cc = s.eq.blind(&s.texts[1], s.blind);
        with_hash!(s.hash, H => verify::<H>(&cc, s.srs.clone(), clone_proof(p)))
    }
}
impl Proto for Expr {
    type Stmt = Stmt;
    type Proof = Proof;
    fn prove(&self, s: &Stmt) -> Proof {
        let cc = Self::circuit(s);
        with_hash!(s.hash, H => generate_proof::<H>(&cc, s.srs.clone()))
    }
    fn verify(&self, s: &Stmt, p: &Proof) -> Result<(), String> {
        Self::check(s, p)
    }
    fn same_proof(&self, a: &Proof, b: &Proof) -> bool {
        same_proof(a, b)
    }
    fn same_stmt(&self, a: &Stmt, b: &Stmt) -> bool {
        a.secret == b.secret && a.hash == b.hash && a.eq == b.eq
    }
    fn alter(&self, _t: &Stmt, _p: &Proof, _o: &[Arc<Proof>]) -> Option<(Proof, String)> {
        None
    }
    fn show(&self, s: &Stmt) -> String {
        format!("{} | {} h{}", s.texts[0], s.texts[1], s.hash)
    }
}

pub fn gates_bound(e: &Equation) -> u64 {
    let f = |f: &expr::Factor| f.pow.unwrap_or(1).max(1) + if f.neg { 2 } else { 0 } + if matches!(f.base, expr::Base::Num(..)) || f.pow == Some(0) { 1 } else { 0 };
    e.left.iter().chain([&e.right]).flatten().map(f).sum::<u64>() + e.left.len() as u64 + 4
}
pub fn stmt(max_terms: u64, max_gates: u64) -> Stmt {
    let (mut eq, mut vals) = expr::random(max_terms);
    while gates_bound(&eq) > max_gates {
        (eq, vals) = expr::random(1);
    }
    let blanks = chance(1, 2);
    let upper = chance(1, 4);
    let texts = [eq.text(blanks, upper), eq.text(blanks, !upper && blanks)];
    let secret = fr_of(draw(u64::MAX));
    Stmt { srs: Srs::new_from_secret(secret, gates_bound(&eq).next_power_of_two() as usize + 4), eq, vals, texts, secret, hash: draw(4), blind: draw(1 << 30) }
}

pub type Layout = Vec<(&'static str, String)>;
fn layout(c: &CommonPreprocessedInput) -> Layout {
    use ark_poly::DenseUVPolynomial;
    let pi: Vec<String> = c.pi_x.coeffs().iter().map(proc::hex).collect();
    vec![
        ("size", c.n.to_string()),
        ("cosets", format!("{} {}", proc::hex(&c.k1), proc::hex(&c.k2))),
        ("q_l", proc::hex(&c.com_q_lx.0)),
        ("q_r", proc::hex(&c.com_q_rx.0)),
        ("q_m", proc::hex(&c.com_q_mx.0)),
        ("q_o", proc::hex(&c.com_q_ox.0)),
        ("q_c", proc::hex(&c.com_q_cx.0)),
        ("sigma_1", proc::hex(&c.com_s_sigma_1.0)),
        ("sigma_2", proc::hex(&c.com_s_sigma_2.0)),
        ("sigma_3", proc::hex(&c.com_s_sigma_3.0)),
        ("pi", pi.join(" ")),
    ]
}
pub fn of_text(text: &str, srs: &Srs) -> Layout {
    let c = CPIGenerator::default().compute_common_preprocessed_input(text, KzgScheme::new(srs.clone())).expect("preprocess");
    layout(&c)
}
pub fn of_circuit(cc: &CompiledCircuit, srs: &Srs) -> Layout {
    let s = KzgScheme::new(srs.clone());
    let (g, c) = (cc.gate_constraints(), cc.copy_constraints());
    let l = CommonPreprocessedInput {
        n: cc.size,
        k1: *c.k1(),
        k2: *c.k2(),
        com_q_lx: s.commit(g.q_lx()),
        com_q_rx: s.commit(g.q_rx()),
        com_q_mx: s.commit(g.q_mx()),
        com_q_ox: s.commit(g.q_ox()),
        com_q_cx: s.commit(g.q_cx()),
        com_s_sigma_1: s.commit(c.s_sigma_1()),
        com_s_sigma_2: s.commit(c.s_sigma_2()),
        com_s_sigma_3: s.commit(c.s_sigma_3()),
        pi_x: g.pi_x().clone(),
    };
    layout(&l)
}
pub fn difference(a: &Layout, b: &Layout) -> Result<(), String> {
    for (x, y) in a.iter().zip(b) {
        if x != y {
            return Err(format!("{} differs", x.0));
        }
    }
    if a.len() == b.len() { Ok(()) } else { Err("length".into()) }
}

fn witnesses(eq: &Equation, vals: &[Fr]) -> Vec<Fr> {
    match draw(5) {
        0 => vals.to_vec(),
        1 => vec![Fr::zero(); eq.names.len()],
        2 => vec![Fr::from(1); eq.names.len()],
        3 => (0..eq.names.len()).map(|_| Fr::from(draw(3) as i64 - 1)).collect(),
        _ => (0..eq.names.len()).map(|_| fr_of(draw(1 << 40))).collect(),
    }
}

fn derivations(ent: u64) {
    let s = stmt(6, 60);
    let reference = match guard(|| of_text(&s.texts[1], &s.srs)) {
        Ok(l) => Arc::new(l),
        Err(e) => return violation("verifier-derivation-panics", format!("{}: {e}", s.texts[1])),
    };
    let st = Arc::new(s);
    let mut cases = vec![];
    for i in 0..range(2, 5) {
        let (st, reference) = (st.clone(), reference.clone());
        let which = draw_us(2);
        if chance(1, 3) {
            cases.push(Case::new("text-derived", format!("{i} {}", st.texts[which]), Expect::Accept, move || difference(&reference, &of_text(&st.texts[which], &st.srs))));
        } else {
            let vals = witnesses(&st.eq, &st.vals);
            cases.push(Case::new("witness-derived", format!("{i} {}", st.texts[which]), Expect::Accept, move || {
                let cc = st.eq.parser(&vals).parse(&st.texts[which]).compile()?;
                difference(&reference, &of_circuit(&cc, &st.srs))
            }));
        }
    }
    arena::run(cases, ent);
    if core::violated() || !chance(1, 4) {
        return;
    }
    // other processes, with other hash seeds
    for i in 0..range(1, 2) {
        fault("crash:process-restart");
        let mut e = seam::ent(core::combine(ent, 77 + i));
        e.mode = [0, 1, 2][draw_us(3)];
        let w = World { ent: e, now: draw(1 << 40), skew: draw(1 << 50), eintr: [0, 2][draw_us(2)], short: [0, 2][draw_us(2)] };
        let vals = witnesses(&st.eq, &st.vals);
        let v: Vec<String> = vals.iter().map(proc::hex).collect();
        let a = proc::incarnation(
            "layout",
            &w,
            &[("text", st.texts[draw_us(2)].clone()), ("names", st.eq.names.join(",")), ("vals", v.join(",")), ("secret", proc::hex(&st.secret)), ("size", st.srs.g1_points().len().to_string())],
        );
        verdict("process-compared");
        match a {
            Err(e) => return violation("derivation-panics", format!("{}: {e}", st.texts[0])),
            Ok(a) => {
                for (side, l) in a.lines {
                    trace(format!("incarnation {i}: {side}"));
                    if l != flat(&reference) {
                        return violation(format!("derivation-differs:{side}"), format!("in another process: {}", st.texts[0]));
                    }
                }
            }
        }
    }
}
fn flat(l: &Layout) -> String {
    l.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(";")
}
pub fn child(kv: &std::collections::BTreeMap<String, String>) -> String {
    let secret: Fr = proc::unhex(&kv["secret"]);
    let n: usize = kv["size"].parse().unwrap();
    let mut srs = Srs::new_from_secret(secret, n);
    for k in [n.saturating_sub(3), n.saturating_sub(2), n.saturating_sub(1)] {
        let s = Srs::new_from_secret(secret, k);
        if s.g1_points().len() == n {
            srs = s;
        }
    }
    let mut p = plonk::parser::Parser::default();
    for (n, v) in kv["names"].split(',').zip(kv["vals"].split(',')) {
        p.add_witness(n, proc::unhex(v));
    }
    let cc = p.parse(&kv["text"]).compile().expect("compile");
    format!("text {}\nwitness {}\n", flat(&of_text(&kv["text"], &srs)), flat(&of_circuit(&cc, &srs)))
}

pub fn run(ent: u64) {
    if chance(1, 2) {
        return derivations(ent);
    }
    let mut stmts = vec![];
    for _ in 0..range(1, 2) {
        stmts.push(stmt(4, 32));
    }
    session::run(Expr, stmts, vec![], Cfg { byzantine: false, faults: true, max_verify: 8 }, ent);
}
