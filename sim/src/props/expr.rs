//! Random polynomial equations in the accepted syntax, with their meaning.

use crate::core::{chance, draw, draw_us, fr_of, probe, range, weighted};
use ark_bls12_381::Fr;
use ark_ff::{Field, One, PrimeField, Zero};
use plonk::compiled_circuit::CompiledCircuit;
use plonk::parser::Parser;

#[derive(Clone, PartialEq, Debug)]
pub enum Base {
    Var(usize),
    /// digits as written, value
    Num(String, i64),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Factor {
    pub neg: bool,
    /// two more signs, which cancel
    pub twice: bool,
    pub base: Base,
    pub pow: Option<u64>,
}
pub type Term = Vec<Factor>;
#[derive(Clone, PartialEq, Debug)]
pub struct Equation {
    pub left: Vec<Term>,
    pub right: Term,
    pub names: Vec<String>,
}

impl Equation {
    pub fn term(t: &Term, vals: &[Fr]) -> Fr {
        t.iter()
            .map(|f| {
                let b = match &f.base {
                    Base::Var(i) => vals[*i],
                    Base::Num(_, n) => Fr::from(*n),
                };
                let p = b.pow([f.pow.unwrap_or(1)]);
                if f.neg { -p } else { p }
            })
            .product()
    }
    /// left side minus right side
    pub fn residual(&self, vals: &[Fr]) -> Fr {
        self.left.iter().map(|t| Self::term(t, vals)).sum::<Fr>() - Self::term(&self.right, vals)
    }
    fn term_text(&self, t: &Term, blank: &dyn Fn() -> String, upper: bool) -> String {
        let v: Vec<String> = t
            .iter()
            .map(|f| {
                let b = match &f.base {
                    Base::Var(i) => {
                        if upper { self.names[*i].to_uppercase() } else { self.names[*i].clone() }
                    }
                    Base::Num(s, _) => s.clone(),
                };
                let p = match f.pow {
                    Some(p) => format!("{}^{}{p}", blank(), blank()),
                    None => String::new(),
                };
                format!("{}{}{}{b}{p}", if f.twice { "--" } else { "" }, if f.neg { "-" } else { "" }, if f.neg { blank() } else { String::new() })
            })
            .collect();
        v.join(&format!("{}*{}", blank(), blank()))
    }
    /// One of the ways to write it.
    pub fn text(&self, blanks: bool, upper: bool) -> String {
        let blank = || if blanks && chance(1, 3) { " ".repeat(range(1, 2) as usize) } else { String::new() };
        let l: Vec<String> = self.left.iter().map(|t| self.term_text(t, &blank, upper)).collect();
        format!("{}{}={}{}", l.join(&format!("{}+{}", blank(), blank())), blank(), blank(), self.term_text(&self.right, &blank, upper))
    }
    pub fn parser(&self, vals: &[Fr]) -> Parser {
        let mut p = Parser::default();
        for (n, v) in self.names.iter().zip(vals) {
            p.add_witness(n, *v);
        }
        p
    }
    /// The circuit as someone without (useful) values derives it.
    pub fn blind(&self, text: &str, seed: u64) -> CompiledCircuit {
        let vals: Vec<Fr> = (0..self.names.len()).map(|i| if seed == 0 { Fr::zero() } else { fr_of(seed + i as u64) }).collect();
        self.parser(&vals).parse(text).compile().expect("compile")
    }
}

const NAMES: [&str; 12] = ["x", "y", "z", "a", "b", "e", "xy", "ab", "x1", "q_2", "foo", "i"];

fn number(small: bool) -> Base {
    let n = match draw(if small { 3 } else { 5 }) {
        0 => 1 + draw(4) as i64,
        1 => draw(4) as i64,
        2 => 5 + draw(20) as i64,
        3 => i32::MAX as i64 - draw(2) as i64,
        _ => draw(1 << 31) as i64,
    };
    Base::Num(if chance(1, 8) { format!("{:03}", n) } else { n.to_string() }, n)
}
fn factor(nv: usize, used: &[Term], plain: bool) -> Factor {
    if !used.is_empty() && chance(1, 3) {
        let t = &used[draw_us(used.len())];
        return t[draw_us(t.len())].clone();
    }
    let base = if weighted(&[3, 1]) == 0 { Base::Var(draw_us(nv)) } else { number(false) };
    let pow = match weighted(&[6, 2, 1]) {
        0 => None,
        1 => Some(range(1, 4)),
        _ if plain => Some(2),
        _ if chance(1, 4) => Some(range(8, 13)),
        _ => Some(draw(7)),
    };
    Factor { neg: chance(1, 5), twice: chance(1, 40), base, pow }
}
fn small_int(f: &Fr) -> Option<i64> {
    let m = Fr::from(i32::MAX);
    let get = |f: Fr| f.into_bigint().0[0] as i64;
    if f.into_bigint() <= m.into_bigint() {
        Some(get(*f))
    } else if (-*f).into_bigint() <= m.into_bigint() {
        Some(-get(-*f))
    } else {
        None
    }
}

/// An equation and values that satisfy it.
pub fn random(max_terms: u64) -> (Equation, Vec<Fr>) {
    let nv = range(1, 4) as usize;
    let off = draw_us(NAMES.len() - 4);
    let mut names: Vec<String> = NAMES[off..off + nv].iter().map(|s| s.to_string()).collect();
    let small = chance(1, 2);
    let mut vals: Vec<Fr> = (0..nv)
        .map(|_| if small { Fr::from(draw(6) as i64 - if chance(1, 3) { 4 } else { 0 }) } else if chance(1, 4) { Fr::from(draw(3)) } else { fr_of(draw(1 << 40)) })
        .collect();
    let mut left: Vec<Term> = vec![];
    let shape = weighted(&[12, 1, 1]);
    let terms = match shape {
        // many terms
        1 => range(5, 9),
        _ => range(1, max_terms),
    };
    if shape == 2 {
        // a high power
        left.push(vec![Factor { neg: chance(1, 5), twice: false, base: Base::Var(draw_us(nv)), pow: Some(range(9, 18)) }]);
    }
    for _ in 0..terms {
        if shape == 1 {
            let base = if chance(3, 4) { Base::Var(draw_us(nv)) } else { number(true) };
            left.push(vec![Factor { neg: chance(1, 4), twice: false, base, pow: None }]);
            continue;
        }
        if shape == 2 && chance(2, 3) {
            break;
        }
        if !left.is_empty() && chance(1, 6) {
            let t = left[draw_us(left.len())].clone();
            left.push(t);
            continue;
        }
        let n = [1, 2, 3, 4][weighted(&[3, 4, 2, 1])];
        let mut t = vec![];
        for _ in 0..n {
            t.push(factor(nv, &left, false));
        }
        left.push(t);
    }
    let sum: Fr = left.iter().map(|t| Equation::term(t, &vals)).sum();
    let var = |i| Factor { neg: false, twice: false, base: Base::Var(i), pow: None };
    let right = match small_int(&sum) {
        Some(n) if chance(2, 3) => {
            let f = Factor { neg: n < 0 || (n == 0 && chance(1, 4)), twice: false, base: Base::Num(n.abs().to_string(), n.abs()), pow: None };
            vec![f]
        }
        _ => {
            // a variable of its own takes the difference
            names.push(NAMES[off + nv].to_string());
            match draw(3) {
                0 => {
                    vals.push(sum);
                    vec![var(nv)]
                }
                1 => {
                    let k = Factor { neg: chance(1, 3), twice: false, base: Base::Num("3".into(), 3), pow: None };
                    vals.push(sum * (Equation::term(&vec![k.clone()], &[])).inverse().unwrap());
                    if chance(1, 2) { vec![k, var(nv)] } else { vec![var(nv), k] }
                }
                _ => {
                    let mut r = vec![];
                    for _ in 0..range(1, 2) {
                        r.push(factor(nv, &left, false));
                    }
                    let d = Equation::term(&r, &vals) - sum;
                    vals.push(d);
                    let at = draw_us(left.len() + 1);
                    left.insert(at, vec![var(nv)]);
                    r
                }
            }
        }
    };
    let e = Equation { left, right, names };
    debug_assert!(e.residual(&vals).is_zero());
    if e.left.iter().chain([&e.right]).flatten().any(|f| f.pow.is_some()) {
        probe("expr:powers");
    }
    if e.left.iter().chain([&e.right]).flatten().any(|f| f.neg) {
        probe("expr:negations");
    }
    if e.left.iter().chain([&e.right]).flatten().any(|f| matches!(f.base, Base::Num(..))) {
        probe("expr:constants");
    }
    (e, vals)
}

/// Another equation over the same variables, which differs in one place.
pub fn near_miss(e: &Equation) -> Equation {
    let mut f = e.clone();
    if f.left.len() > 1 && chance(1, 8) {
        // a term less, or a term twice
        let k = draw_us(f.left.len());
        if chance(1, 2) {
            f.left.remove(k);
        } else {
            let t = f.left[k].clone();
            f.left.push(t);
        }
        return f;
    }
    let k = draw_us(f.left.len() + 1);
    let t = if k == f.left.len() { &mut f.right } else { &mut f.left[k] };
    let j = draw_us(t.len());
    match draw(7) {
        0 => t[j].neg = !t[j].neg,
        1 => t[j].pow = Some(t[j].pow.unwrap_or(1) + 1),
        2 => {
            t[j].base = match t[j].base.clone() {
                Base::Num(_, n) if n < i32::MAX as i64 => Base::Num((n + 1).to_string(), n + 1),
                Base::Num(_, n) => Base::Num((n - 1).to_string(), n - 1),
                // (another variable may be a mere renaming)
                Base::Var(i) => {
                    t[j].neg = !t[j].neg;
                    Base::Var(i)
                }
            }
        }
        3 => {
            // digits more or less
            let p = t[j].pow.unwrap_or(1);
            t[j].pow = match draw(3) {
                _ if p >= 10 => [Some(p / 10), Some(p % 10)][draw_us(2)],
                0 => Some(10 + p),
                1 => Some(10 * p.max(1)),
                _ => None,
            };
        }
        4 => {
            if let Base::Num(_, n) = &t[j].base {
                let n = match draw(3) {
                    0 => n / 10,
                    1 => n % 10,
                    _ => (n * 10 + 1) % i32::MAX as i64,
                };
                t[j].base = Base::Num(n.to_string(), n);
            } else {
                t[j].pow = Some(0);
            }
        }
        5 if t.len() > 1 => {
            t.remove(j);
        }
        _ => {
            let one = Factor { neg: false, twice: false, base: Base::Num("2".into(), 2), pow: None };
            t.push(one);
        }
    }
    f
}

/// The constraints of a derived circuit, row by row.
pub struct Rows {
    pub n: usize,
    /// l, r, o, m, c, pi
    pub q: [Vec<Fr>; 6],
    pub sigma: [Vec<Fr>; 3],
    pub k: [Fr; 3],
    pub x: [Vec<Fr>; 3],
}
impl Rows {
    /// The cycle of every cell under the permutation as compiled; `None` if it is no permutation
    /// of cells. Cells with the same identity can stand for each other: then the finest of some
    /// divisions into cycles.
    pub fn cycles(&self) -> Option<[Vec<usize>; 3]> {
        use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
        let d = GeneralEvaluationDomain::<Fr>::new(self.n).unwrap();
        let key = |f: Fr| f.into_bigint().0.to_vec();
        let mut of: std::collections::BTreeMap<Vec<u64>, [Vec<(usize, usize)>; 2]> = Default::default();
        for c in 0..3 {
            for (r, w) in d.elements().enumerate() {
                of.entry(key(w * self.k[c])).or_default()[0].push((c, r));
                of.entry(key(self.sigma[c][r])).or_default()[1].push((c, r));
            }
        }
        if of.values().any(|[to, from]| to.len() != from.len()) {
            return None;
        }
        let shared = of.values().any(|[to, _]| to.len() > 1);
        let mut best: Option<(usize, [Vec<usize>; 3])> = None;
        for _ in 0..if shared { 12 } else { 1 } {
            let mut next: [Vec<(usize, usize)>; 3] = [0, 1, 2].map(|_| vec![(0, 0); self.n]);
            for [to, from] in of.values() {
                let mut to = to.clone();
                for i in (1..to.len()).rev() {
                    to.swap(i, crate::core::draw_us(i + 1));
                }
                for ((c, r), t) in from.iter().zip(to) {
                    next[*c][*r] = t;
                }
            }
            let mut out = [0, 1, 2].map(|_| vec![usize::MAX; self.n]);
            let mut count = 0;
            for c in 0..3 {
                for r in 0..self.n {
                    let mut at = (c, r);
                    if out[c][r] == usize::MAX {
                        while out[at.0][at.1] == usize::MAX {
                            out[at.0][at.1] = count;
                            at = next[at.0][at.1];
                        }
                        count += 1;
                    }
                }
            }
            if best.as_ref().is_none_or(|(n, _)| *n < count) {
                best = Some((count, out));
            }
        }
        best.map(|(_, out)| out)
    }
    pub fn of(cc: &CompiledCircuit) -> Rows {
        use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, Polynomial};
        let d = GeneralEvaluationDomain::<Fr>::new(cc.size).unwrap();
        let ev = |p: &plonk::types::Polynomial| -> Vec<Fr> { d.elements().map(|w| p.evaluate(&w)).collect() };
        let (g, c) = (cc.gate_constraints(), cc.copy_constraints());
        Rows {
            n: cc.size,
            q: [ev(g.q_lx()), ev(g.q_rx()), ev(g.q_ox()), ev(g.q_mx()), ev(g.q_cx()), ev(g.pi_x())],
            sigma: [ev(c.s_sigma_1()), ev(c.s_sigma_2()), ev(c.s_sigma_3())],
            k: [Fr::one(), *c.k1(), *c.k2()],
            x: [ev(g.f_ax()), ev(g.f_bx()), ev(g.f_cx())],
        }
    }
    pub fn gate(&self, r: usize, a: Fr, b: Fr, c: Fr) -> Fr {
        let q = |k: usize| self.q[k][r];
        q(0) * a + q(1) * b + q(2) * c + q(3) * a * b + q(4) + q(5)
    }
    pub fn failing(&self, x: &[Vec<Fr>; 3]) -> Vec<usize> {
        (0..self.n).filter(|r| !self.gate(*r, x[0][*r], x[1][*r], x[2][*r]).is_zero()).collect()
    }
    pub fn idle(&self, r: usize) -> bool {
        (0..6).all(|k| self.q[k][r].is_zero())
    }
}
pub fn one() -> Fr {
    Fr::one()
}
