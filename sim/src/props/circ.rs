//! Random PLONK circuits with a satisfying assignment.

use crate::core::{draw, draw_fr, draw_us, fr_of, range, weighted};
use ark_bls12_381::Fr;
use ark_ff::Zero;
use kzg::srs::Srs;
use plonk::circuit::Circuit;
use plonk::compiled_circuit::CompiledCircuit;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Add,
    Mul,
    Const,
}
#[derive(Clone, PartialEq)]
pub struct Desc {
    /// kind, variables on a, b, c, public input, constant
    pub gates: Vec<(Kind, [usize; 3], Fr, Fr)>,
    pub vals: Vec<Fr>,
}

impl Desc {
    pub fn size(&self) -> usize {
        self.gates.len().next_power_of_two()
    }
    /// For each cell (column, row): the next cell with the same variable.
    pub fn links(&self) -> Vec<[(usize, usize); 3]> {
        let mut cells: std::collections::BTreeMap<usize, Vec<(usize, usize)>> = Default::default();
        for (row, g) in self.gates.iter().enumerate() {
            for col in 0..3 {
                cells.entry(g.1[col]).or_default().push((col, row));
            }
        }
        let mut out = vec![[(0, 0); 3]; self.gates.len()];
        for v in cells.values() {
            for (i, (c, r)) in v.iter().enumerate() {
                out[*r][*c] = v[(i + 1) % v.len()];
            }
        }
        out
    }
    /// With the witness (`Some`), or as a verifier builds it.
    pub fn compile_with(&self, vals: Option<&dyn Fn(usize, usize) -> Fr>) -> CompiledCircuit {
        let mut c = Circuit::default();
        let links = self.links();
        for (row, (k, vars, pi, cst)) in self.gates.iter().enumerate() {
            let cell = |col: usize| {
                let (lc, lr) = links[row][col];
                let v = match vals {
                    Some(f) => f(col, row),
                    None => Fr::zero(),
                };
                (lc, lr, v)
            };
            let (mut a, b, o) = (cell(0), cell(1), cell(2));
            let _ = vars;
            match k {
                Kind::Add => c.add_addition_gate(a, b, o, *pi),
                Kind::Mul => c.add_multiplication_gate(a, b, o, *pi),
                Kind::Const => {
                    a.2 = *cst;
                    c.add_constant_gate(a, b, o, *pi)
                }
            }
        }
        c.compile().expect("circuit compiles")
    }
    pub fn compile(&self) -> CompiledCircuit {
        self.compile_with(Some(&|col, row| self.vals[self.gates[row].1[col]]))
    }
    pub fn compile_public(&self) -> CompiledCircuit {
        self.compile_with(None)
    }
    pub fn satisfied(&self, val: &dyn Fn(usize, usize) -> Fr) -> bool {
        (0..self.gates.len()).all(|r| self.gate_residual(r, val(0, r), val(1, r), val(2, r)).is_zero())
    }
    pub fn gate_residual(&self, r: usize, a: Fr, b: Fr, c: Fr) -> Fr {
        let (k, _, pi, cst) = &self.gates[r];
        match k {
            Kind::Add => a + b - c - pi,
            Kind::Mul => a * b - c - pi,
            Kind::Const => a - cst - pi,
        }
    }
    pub fn show(&self) -> String {
        let s: Vec<String> = self
            .gates
            .iter()
            .map(|(k, v, pi, _)| {
                format!("{}{}.{}.{}{}", match k { Kind::Add => '+', Kind::Mul => '*', Kind::Const => 'k' }, v[0], v[1], v[2], if pi.is_zero() { "" } else { "p" })
            })
            .collect();
        format!("[{}]", s.join(" "))
    }
}

/// Constant gates put the constant on the a-wire with public input zero, so that the assignment's
/// a-value and the constant agree (that is how the library ties them together).
pub fn random(max_gates: u64) -> Desc {
    let n = match weighted(&[2, 4, 2, 1]) {
        0 => range(1, 3),
        1 => range(2, 8),
        2 => range(5, 16),
        _ => range(1, max_gates.max(1)),
    }
    .min(max_gates) as usize;
    sized(n)
}
pub fn sized(n: usize) -> Desc {
    let nv = range(1, 4) as usize;
    let mut vals: Vec<Fr> = (0..nv).map(|_| draw_fr()).collect();
    let mut gates: Vec<(Kind, [usize; 3], Fr, Fr)> = vec![];
    for _ in 0..n {
        let kind = [Kind::Add, Kind::Mul, Kind::Const][weighted(&[4, 4, 2])];
        let a = draw_us(vals.len());
        let b = draw_us(vals.len());
        match kind {
            Kind::Const => {
                let c = draw_us(vals.len());
                let k = vals[a];
                gates.push((kind, [a, b, c], Fr::zero(), k));
            }
            _ => {
                let out = if kind == Kind::Add { vals[a] + vals[b] } else { vals[a] * vals[b] };
                match weighted(&[5, 2, 2]) {
                    // a new variable
                    0 => {
                        vals.push(out);
                        let c = vals.len() - 1;
                        gates.push((kind, [a, b, c], Fr::zero(), Fr::zero()));
                    }
                    // a public input makes an existing variable fit
                    1 => {
                        let c = draw_us(vals.len());
                        gates.push((kind, [a, b, c], out - vals[c], Fr::zero()));
                    }
                    // a public input chosen first
                    _ => {
                        let pi = draw_fr();
                        vals.push(out - pi);
                        let c = vals.len() - 1;
                        gates.push((kind, [a, b, c], pi, Fr::zero()));
                    }
                }
            }
        }
    }
    Desc { gates, vals }
}

/// Another circuit of the same size that differs in little, with an assignment that satisfies it.
pub fn sibling(d: &Desc) -> Desc {
    let mut e = d.clone();
    let r = draw_us(e.gates.len());
    match draw(4) {
        0 => {
            // one cell leaves its variable
            let col = draw_us(3);
            let v = e.vals[e.gates[r].1[col]];
            e.vals.push(v);
            e.gates[r].1[col] = e.vals.len() - 1;
        }
        1 => {
            // two rows change places
            let k = draw_us(e.gates.len());
            e.gates.swap(r, k);
        }
        2 if e.gates[r].0 != Kind::Const => e.gates[r].1.swap(0, 1),
        _ => {
            // another public input, and another value to fit
            let v = fr_of(draw(1 << 30));
            let g = e.gates[r].clone();
            let fits = match g.0 {
                Kind::Add => Some(e.vals[g.1[0]] + e.vals[g.1[1]] - v),
                Kind::Mul => Some(e.vals[g.1[0]] * e.vals[g.1[1]] - v),
                Kind::Const => None,
            };
            if let Some(pi) = fits {
                e.vals.push(v);
                e.gates[r].1[2] = e.vals.len() - 1;
                e.gates[r].2 = pi;
            }
        }
    }
    e
}

/// Another statement that differs in one place.
pub fn near_miss(d: &Desc) -> Desc {
    let mut e = d.clone();
    let r = draw_us(e.gates.len());
    match draw(5) {
        0 => e.gates[r].2 += crate::core::delta::<Fr>(),
        1 => {
            let k = e.gates[r].0;
            e.gates[r].0 = match k {
                Kind::Add => Kind::Mul,
                Kind::Mul => Kind::Add,
                Kind::Const => Kind::Add,
            };
        }
        2 => {
            // one cell leaves its variable
            let col = draw_us(3);
            e.vals.push(Fr::zero());
            e.gates[r].1[col] = e.vals.len() - 1;
        }
        3 => {
            if e.gates[r].0 == Kind::Const {
                e.gates[r].3 += Fr::from(1 + draw(3));
            } else {
                e.gates[r].2 = fr_of(draw(1 << 30));
            }
        }
        _ => {
            // one cell joins another variable
            let col = draw_us(3);
            e.gates[r].1[col] = draw_us(e.vals.len());
        }
    }
    e
}

/// Do two descriptions make the same statement? (Independent of the library's compiler.)
pub fn same_public(a: &Desc, b: &Desc) -> bool {
    a.gates.len() == b.gates.len()
        && a.links() == b.links()
        && a.gates.iter().zip(&b.gates).all(|(x, y)| x.0 == y.0 && x.2 == y.2 && (x.0 != Kind::Const || x.3 == y.3))
}

pub fn srs(secret: Fr, n: usize) -> Srs {
    Srs::new_from_secret(secret, n)
}
