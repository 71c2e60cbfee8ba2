//! C11, C12: FRI deployments.

use super::proc::{self, World};
use super::session::{self, Cfg, Proto};
use crate::core::{self, chance, draw, draw_us, fault, field_of, probe, range, trace, verdict, violation, weighted};
use crate::seam;
use crate::with_hash;
use ark_ff::PrimeField;
use ark_poly::univariate::DensePolynomial;
use ark_poly::DenseUVPolynomial;
#[cfg(zkp_sim)]
use fri::merkle_tree::MerkleTree;
use fri::prover::{generate_proof, Decommitment, Proof};
use fri::verifier::verify;
use std::marker::PhantomData;
use std::sync::Arc;

pub struct Stmt<F: PrimeField> {
    pub coeffs: Vec<F>,
    pub blowup: usize,
    pub queries: usize,
    pub hash: u64,
}
impl<F: PrimeField> Clone for Stmt<F> {
    fn clone(&self) -> Self {
        Stmt { coeffs: self.coeffs.clone(), ..*self }
    }
}
pub struct Msg<F: PrimeField> {
    pub p: Proof<F>,
    /// what it is an honest proof of
    pub src: Option<Stmt<F>>,
    /// the hash it was made with
    pub hash: u64,
}
pub struct Fri<F>(pub PhantomData<F>);

pub fn make<F: PrimeField>(s: &Stmt<F>) -> Proof<F> {
    let p = DensePolynomial::from_coefficients_slice(&s.coeffs);
    with_hash!(s.hash, H => generate_proof::<H, F>(p, s.blowup, s.queries))
}
pub fn check<F: PrimeField>(hash: u64, p: &Proof<F>) -> Result<(), String> {
    with_hash!(hash, H => verify::<H, F>(p.clone()))
}
pub fn text<F: PrimeField>(p: &Proof<F>) -> String {
    format!("{p:?}")
}
fn cut<F: PrimeField>(p: &Proof<F>, q: usize) -> Proof<F> {
    let mut p = p.clone();
    p.number_of_queries = q;
    p.decommitment_list.truncate(q);
    p
}

impl<F: PrimeField> Proto for Fri<F> {
    type Stmt = Stmt<F>;
    type Proof = Msg<F>;
    fn prove(&self, s: &Stmt<F>) -> Msg<F> {
        Msg { p: make(s), src: Some(s.clone()), hash: s.hash }
    }
    fn verify(&self, s: &Stmt<F>, m: &Msg<F>) -> Result<(), String> {
        check(s.hash, &m.p)
    }
    fn same_proof(&self, a: &Msg<F>, b: &Msg<F>) -> bool {
        text(&a.p) == text(&b.p)
    }
    /// The honest proof of the same data for as many queries as the message claims?
    fn genuine(&self, honest: &Msg<F>, m: &Msg<F>) -> bool {
        let q = m.p.number_of_queries;
        if q == 0 || q > 300 || q != m.p.decommitment_list.len() || m.p.layers_root != honest.p.layers_root {
            return false;
        }
        if q <= honest.p.number_of_queries {
            return text(&cut(&honest.p, q)) == text(&m.p);
        }
        let Some(s) = &honest.src else { return false };
        let mut s = s.clone();
        s.queries = q;
        text(&make(&s)) == text(&m.p)
    }
    /// Constant data folds to the same constant whatever the challenges; with another hash only the
    /// places of the queries tell, and few queries into a small domain may fall on the same places.
    fn lucky(&self, s: &Stmt<F>, m: &Msg<F>) -> bool {
        s.hash != m.hash
            && m.p.decommitment_list.iter().all(|d| d.evaluations.iter().chain(&d.sym_evaluations).all(|e| *e == m.p.const_val))
    }
    fn same_stmt(&self, a: &Stmt<F>, b: &Stmt<F>) -> bool {
        a.hash == b.hash
    }
    fn same_input(&self, a: &Stmt<F>, b: &Stmt<F>) -> bool {
        a.hash == b.hash && a.coeffs == b.coeffs && a.blowup == b.blowup && a.queries == b.queries
    }
    fn deterministic(&self) -> bool {
        true
    }
    fn alter(&self, _target: &Stmt<F>, m: &Msg<F>, others: &[Arc<Msg<F>>]) -> Option<(Msg<F>, String)> {
        let mut p = m.p.clone();
        let mut names: Vec<&str> = vec![];
        for _ in 0..if chance(1, 4) { 2 } else { 1 } {
            names.push(alter(&mut p, others)?);
        }
        Some((Msg { p, src: None, hash: m.hash }, names.join("+")))
    }
    fn show(&self, s: &Stmt<F>) -> String {
        format!(
            "fri{} {} coefficients blowup {} queries {} h{}",
            F::MODULUS_BIT_SIZE, s.coeffs.len(), s.blowup, s.queries, s.hash
        )
    }
}

pub fn change<F: PrimeField>(f: F) -> F {
    match draw(5) {
        0 => f + crate::core::delta::<F>(),
        1 => -f,
        2 => F::zero(),
        3 => f.double(),
        _ => field_of(draw(1 << 40)),
    }
}
fn resize<T: Clone>(v: &mut Vec<T>) -> bool {
    if v.is_empty() {
        return false;
    }
    let n = v.len();
    match draw(7) {
        0 => {
            v.pop();
        }
        1 => {
            v.remove(draw_us(n));
        }
        2 => v.push(v[draw_us(n)].clone()),
        3 => v.insert(draw_us(n + 1), v[draw_us(n)].clone()),
        4 => v.clear(),
        5 => {
            let (i, j) = (draw_us(n), draw_us(n));
            v.swap(i, j);
        }
        _ => v.reverse(),
    }
    true
}
fn sizes(v: usize) -> usize {
    match draw(8) {
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        2 => 0,
        3 => usize::MAX,
        4 => v.wrapping_mul(2),
        5 => v / 2,
        6 => 1 << draw(64),
        _ => draw(u64::MAX) as usize,
    }
}

fn alter<F: PrimeField>(p: &mut Proof<F>, others: &[Arc<Msg<F>>]) -> Option<&'static str> {
    let layers = p.layers_root.len();
    let q = p.decommitment_list.len();
    Some(match weighted(&[2, 2, 3, 3, 3, 8, 3, 3, 3, 1, 2]) {
        0 => {
            p.domain_size = sizes(p.domain_size);
            "domain-size"
        }
        1 => {
            p.coset = change(p.coset);
            "coset"
        }
        2 => {
            p.number_of_queries = sizes(p.number_of_queries);
            "number-of-queries"
        }
        3 => {
            if layers == 0 || chance(1, 3) {
                resize(&mut p.layers_root);
                "layers"
            } else {
                let i = draw_us(layers);
                p.layers_root[i] = change(p.layers_root[i]);
                "root"
            }
        }
        4 => {
            p.const_val = change(p.const_val);
            "constant"
        }
        5 => {
            if q == 0 {
                return None;
            }
            let d: &mut Decommitment<F> = &mut p.decommitment_list[draw_us(q)];
            let l = draw_us(d.evaluations.len().max(1));
            match draw(9) {
                0 => {
                    if let Some(x) = d.evaluations.get_mut(l) {
                        *x = change(*x);
                    }
                    "evaluation"
                }
                1 => {
                    if let Some(x) = d.sym_evaluations.get_mut(l) {
                        *x = change(*x);
                    }
                    "sym-evaluation"
                }
                2 => {
                    // in the list and in the path
                    if let (Some(x), Some(y)) = (d.evaluations.get_mut(l), d.auth_paths.get_mut(l)) {
                        *x = change(*x);
                        y.leaf_val = *x;
                    }
                    "opened-value"
                }
                3 => {
                    if let (Some(x), Some(y)) = (d.sym_evaluations.get_mut(l), d.sym_auth_paths.get_mut(l)) {
                        *x = change(*x);
                        y.leaf_val = *x;
                    }
                    "sym-opened-value"
                }
                4 => {
                    let paths = if chance(1, 2) { &mut d.auth_paths } else { &mut d.sym_auth_paths };
                    if let Some(x) = paths.get_mut(l) {
                        if chance(1, 2) {
                            x.index = sizes(x.index);
                        } else {
                            x.leaf_val = change(x.leaf_val);
                        }
                    }
                    "path"
                }
                5 => {
                    match draw(4) {
                        0 => resize(&mut d.evaluations),
                        1 => resize(&mut d.sym_evaluations),
                        2 => resize(&mut d.auth_paths),
                        _ => resize(&mut d.sym_auth_paths),
                    };
                    "lists"
                }
                6 => {
                    std::mem::swap(&mut d.evaluations, &mut d.sym_evaluations);
                    std::mem::swap(&mut d.auth_paths, &mut d.sym_auth_paths);
                    "swapped"
                }
                _ => {
                    #[cfg(zkp_sim)]
                    {
                        let paths = if chance(1, 2) { &mut d.auth_paths } else { &mut d.sym_auth_paths };
                        if let Some(x) = paths.get_mut(l) {
                            let (hashes, root) = x.parts_mut();
                            match draw(4) {
                                0 => *root = change(*root),
                                1 => {
                                    resize(hashes);
                                }
                                _ if !hashes.is_empty() => {
                                    let i = draw_us(hashes.len());
                                    hashes[i] = change(hashes[i]);
                                }
                                _ => {}
                            }
                        }
                    }
                    "path-hashes"
                }
            }
        }
        6 => {
            if !resize(&mut p.decommitment_list) {
                return None;
            }
            if chance(1, 2) {
                p.number_of_queries = p.decommitment_list.len();
            }
            "queries"
        }
        9 => {
            // all layers dropped everywhere, or as many from one end
            let (k, last) = (if chance(1, 2) { layers } else { draw_us(layers + 1) }, chance(1, 2));
            fn drop_some<T>(v: &mut Vec<T>, k: usize, last: bool) {
                let k = k.min(v.len());
                if last {
                    v.truncate(v.len() - k);
                } else {
                    v.drain(..k);
                }
            }
            drop_some(&mut p.layers_root, k, last);
            for d in p.decommitment_list.iter_mut() {
                drop_some(&mut d.evaluations, k, last);
                drop_some(&mut d.sym_evaluations, k, last);
                drop_some(&mut d.auth_paths, k, last);
                drop_some(&mut d.sym_auth_paths, k, last);
            }
            if chance(1, 2) {
                p.const_val = change(p.const_val);
            }
            "fewer-layers"
        }
        10 => {
            // the right value with a path into another tree, root and all
            if q == 0 || layers == 0 {
                return None;
            }
            let d: &mut Decommitment<F> = &mut p.decommitment_list[draw_us(q)];
            let l = draw_us(layers);
            let path = if chance(1, 2) { d.auth_paths.get_mut(l)? } else { d.sym_auth_paths.get_mut(l)? };
            let n = p.domain_size.checked_shr(l as u32)?;
            // another alteration may have left an impossible size
            if n > 4096 || !n.is_power_of_two() || path.index >= n {
                return None;
            }
            #[cfg(zkp_sim)]
            {
                let mut v: Vec<F> = (0..n).map(|i| F::from(i as u64 + 7)).collect();
                v[path.index] = path.leaf_val;
                *path = MerkleTree::new(v).generate_proof(path.index);
            }
            #[cfg(not(zkp_sim))]
            {
                path.leaf_val = change(path.leaf_val);
            }
            "path-of-another-tree"
        }
        8 => {
            // an opening of the same layer shown at another place
            if q == 0 || layers == 0 {
                return None;
            }
            let l = draw_us(layers);
            let (i, j) = (draw_us(q), draw_us(q));
            let d = &p.decommitment_list[i];
            let (e, path) = if chance(1, 2) { (d.evaluations.get(l), d.auth_paths.get(l)) } else { (d.sym_evaluations.get(l), d.sym_auth_paths.get(l)) };
            let (e, path) = (*e?, path?.clone());
            let d = &mut p.decommitment_list[j];
            let (x, y) = if chance(1, 2) {
                (d.evaluations.get_mut(l), d.auth_paths.get_mut(l))
            } else {
                (d.sym_evaluations.get_mut(l), d.sym_auth_paths.get_mut(l))
            };
            *x? = e;
            *y? = path;
            "moved-opening"
        }
        _ => {
            let o = &others.get(draw_us(others.len().max(1)))?.p;
            match draw(7) {
                0 => p.layers_root = o.layers_root.clone(),
                1 => p.const_val = o.const_val,
                2 => p.decommitment_list = o.decommitment_list.clone(),
                3 => {
                    if q == 0 || o.decommitment_list.is_empty() {
                        return None;
                    }
                    let i = draw_us(q);
                    p.decommitment_list[i] = o.decommitment_list[draw_us(o.decommitment_list.len())].clone();
                }
                4 => {
                    if let (Some(a), Some(b)) = (p.layers_root.last_mut(), o.layers_root.last()) {
                        *a = *b;
                    }
                }
                5 => p.domain_size = o.domain_size,
                _ => {
                    p.layers_root = o.layers_root.clone();
                    p.const_val = o.const_val;
                }
            }
            "splice"
        }
    })
}

pub fn random<F: PrimeField>(max: u64) -> Stmt<F> {
    let n = match weighted(&[6, 1, 1, 2]) {
        0 if chance(1, 60) => {
            probe("large");
            range(max, 8 * max) as usize
        }
        0 => range(1, max) as usize,
        1 => 0,
        2 => 1,
        _ => 1 << draw(max.ilog2() as u64 + 1),
    };
    let mut coeffs: Vec<F> = match weighted(&[5, 1, 1, 1]) {
        0 => (0..n).map(|_| field_of(draw(1 << 40))).collect(),
        1 => vec![F::zero(); n],
        2 => (0..n).map(|_| F::from(draw(3))).collect(),
        _ => {
            let mut v = vec![F::zero(); n];
            if n > 0 {
                v[n - 1] = F::one();
            }
            v
        }
    };
    if chance(1, 8) {
        coeffs.extend(vec![F::zero(); draw_us(4)]);
    }
    if coeffs.iter().all(|c| c.is_zero()) {
        probe("zero-polynomial");
    }
    let blowup = [2, 4, 3, 8, 5, 16, 7, 6][weighted(&[6, 3, 2, 2, 1, 1, 1, 1])];
    let queries = match weighted(&[4, 1, 1]) {
        0 if chance(1, 20) => {
            probe("many-queries");
            [range(21, 40), range(41, 70), range(71, 150)][weighted(&[3, 2, 1])]
        }
        0 => range(1, 6),
        1 => 1,
        _ => range(7, 20),
    } as usize;
    Stmt { coeffs, blowup, queries, hash: draw(4) }
}

fn go<F: PrimeField>(byzantine: bool, ent: u64) {
    let n = if byzantine { range(1, 3) } else { range(1, 5) };
    let mut stmts: Vec<Stmt<F>> = vec![];
    for _ in 0..n {
        if !stmts.is_empty() && chance(1, 3) {
            let mut s = stmts[draw_us(stmts.len())].clone();
            match draw(3) {
                0 => {}
                1 => s.queries = range(1, 9) as usize,
                _ => s.hash = draw(4),
            }
            stmts.push(s);
            continue;
        }
        stmts.push(random(if byzantine { 24 } else { 70 }));
    }
    let mut decoys = vec![];
    if byzantine {
        let mut d = stmts[draw_us(stmts.len())].clone();
        d.hash = (d.hash + 1 + draw(3)) % 4;
        decoys.push(d);
    }
    session::run(Fri(PhantomData), stmts, decoys, Cfg { byzantine, faults: true, max_verify: if byzantine { 24 } else { 14 } }, ent);
}

/// The same proof from every process, whatever its randomness and clock.
fn processes(ent: u64) {
    let mut s = random::<fri::fields::goldilocks::Fq>(40);
    s.queries = s.queries.min(8);
    let here = match core::guard(|| make(&s)) {
        Ok(p) => text(&p),
        Err(e) => return violation("prover-panics", e),
    };
    core::key(&Fri(PhantomData).show(&s));
    for i in 0..range(1, 2) {
        fault("crash:process-restart");
        let mut e = seam::ent(core::combine(ent, i));
        e.mode = [0, 1, 2][draw_us(3)];
        let w = World { ent: e, now: draw(1 << 40), skew: draw(1 << 50), eintr: [0, 2][draw_us(2)], short: [0, 2][draw_us(2)] };
        let c: Vec<String> = s.coeffs.iter().map(proc::hex).collect();
        let a = proc::incarnation(
            "fri",
            &w,
            &[("coeffs", c.join(",")), ("blowup", s.blowup.to_string()), ("queries", s.queries.to_string()), ("hash", s.hash.to_string())],
        );
        verdict("process-compared");
        match a {
            Err(e) => return violation("prover-panics", e),
            Ok(a) => {
                let t = a.lines.iter().find(|l| l.0 == "fri").map(|l| l.1.clone()).unwrap_or_default();
                trace(format!("incarnation {i}: {} bytes", t.len()));
                if t != here {
                    return violation("proof-not-repeatable", "another process makes another proof");
                }
            }
        }
    }
}
pub fn child(kv: &std::collections::BTreeMap<String, String>) -> String {
    let n = |k: &str| kv[k].parse::<u64>().unwrap();
    let s = Stmt::<fri::fields::goldilocks::Fq> {
        coeffs: kv["coeffs"].split(',').filter(|c| !c.is_empty()).map(proc::unhex).collect(),
        blowup: n("blowup") as usize,
        queries: n("queries") as usize,
        hash: n("hash"),
    };
    format!("fri {}\n", text(&make(&s)))
}

pub fn run(byzantine: bool, ent: u64) {
    if !byzantine && chance(1, 8) {
        return processes(ent);
    }
    if chance(1, 5) {
        go::<ark_bls12_381::Fr>(byzantine, ent)
    } else {
        go::<fri::fields::goldilocks::Fq>(byzantine, ent)
    }
}
