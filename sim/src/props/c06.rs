//! C06: provers whose values do not satisfy the equation, against a verifier holding its text.

use super::arena::{self, Case, Expect};
use super::byz::{Attack, Forger, Hyp, Target};
use super::c05::{self, Expr, Stmt};
use super::expr::{self, Rows};
use super::plonk::clone_proof;
use crate::core::{self, chance, draw, draw_us, fault, fr_of, guard, probe, range, weighted};
use crate::with_hash;
use ark_bls12_381::Fr;
use ark_ff::{Field, Zero};
use plonk::prover::generate_proof;
use plonk::verifier::verify;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type Cells = [Vec<Fr>; 3];

/// The circuit read as a computation: which cells carry the same value, and which row is checked.
struct Flow {
    rows: Rows,
    id: [Vec<usize>; 3],
    /// wire -> value in the assignment it was read from
    val: Vec<Fr>,
    result: usize,
    /// wires set by a gate
    made: BTreeSet<usize>,
    /// wires pinned by a gate without output
    pinned: BTreeSet<usize>,
}
impl Flow {
    /// `x` must come from random values of the variables.
    fn read(rows: Rows) -> Option<Flow> {
        let x = &rows.x;
        let bad = rows.failing(x);
        let [result] = bad[..] else { return None };
        let mut ids: BTreeMap<Vec<u64>, usize> = Default::default();
        let mut val = vec![];
        let mut id = [vec![0; rows.n], vec![0; rows.n], vec![0; rows.n]];
        let (mut made, mut pinned) = (BTreeSet::new(), BTreeSet::new());
        for r in 0..rows.n {
            let mut before = val.len();
            for c in 0..3 {
                if c == 2 {
                    before = val.len();
                }
                let v = x[c][r];
                let k: Vec<u64> = if (c, r) == (2, result) { vec![] } else { ark_ff::PrimeField::into_bigint(v).0.to_vec() };
                let next = val.len();
                let i = *ids.entry(k).or_insert(next);
                if i == next {
                    val.push(v);
                }
                id[c][r] = i;
            }
            if rows.idle(r) || r == result {
                continue;
            }
            if rows.q[2][r].is_zero() {
                pinned.insert(id[0][r]);
            } else {
                if id[2][r] < before {
                    // the output is the same as something else by chance: the reading is unclear
                    return None;
                }
                made.insert(id[2][r]);
            }
        }
        Some(Flow { rows, id, val, result, made, pinned })
    }
    /// Recomputes the rows with some cells, one wire or one gate output replaced. The result row's
    /// output is zero; its residual is returned.
    fn eval(&self, cells: &[(usize, usize)], v: Fr, wire: Option<(usize, Fr)>) -> (Cells, Fr) {
        let mut val = self.val.clone();
        if let Some((w, v)) = wire {
            val[w] = v;
        }
        let mut x = self.rows.x.clone();
        let mut res = Fr::zero();
        for r in 0..self.rows.n {
            let get = |c: usize, val: &[Fr]| if cells.contains(&(c, r)) { v } else { val[self.id[c][r]] };
            if self.rows.idle(r) {
                for c in 0..3 {
                    if cells.contains(&(c, r)) {
                        x[c][r] = v;
                    }
                }
                continue;
            }
            let (a, b) = (get(0, &val), get(1, &val));
            x[0][r] = a;
            x[1][r] = b;
            let q = self.rows.q[2][r];
            if q.is_zero() {
                x[2][r] = get(2, &val);
                continue;
            }
            let c = self.rows.gate(r, a, b, Fr::zero()) * (-q).inverse().unwrap();
            if r == self.result {
                x[2][r] = Fr::zero();
                res = c;
                continue;
            }
            let w = self.id[2][r];
            if wire.is_none_or(|(i, _)| i != w) {
                val[w] = c;
            }
            x[2][r] = val[w];
        }
        (x, res)
    }
    /// Groups of cells which hold a wire's value without being linked to all of its occurrences, nor
    /// to the gate that sets it. There are none in a circuit that is right.
    fn split(&self) -> Vec<Vec<(usize, usize)>> {
        let Some(cyc) = self.rows.cycles() else { return vec![] };
        let mut groups: BTreeMap<usize, Vec<(usize, usize)>> = Default::default();
        let mut parts: BTreeMap<usize, BTreeSet<usize>> = Default::default();
        for c in 0..3 {
            for r in 0..self.rows.n {
                groups.entry(cyc[c][r]).or_default().push((c, r));
                if !self.rows.idle(r) && (c, r) != (2, self.result) && (c < 2 || !self.rows.q[2][r].is_zero()) {
                    parts.entry(self.id[c][r]).or_default().insert(cyc[c][r]);
                }
            }
        }
        let set = |(c, r): &(usize, usize)| !self.rows.idle(*r) && (*c == 2 || self.rows.q[2][*r].is_zero());
        parts
            .values()
            .filter(|p| p.len() > 1)
            .flatten()
            .map(|k| groups[k].clone())
            .filter(|g| !g.iter().any(set))
            .collect()
    }
    /// The replacement that makes the residual vanish, if the residual is linear in it.
    fn solve(&self, f: &dyn Fn(Fr) -> (Cells, Fr)) -> Option<Cells> {
        let (r0, r1) = (f(Fr::zero()).1, f(Fr::from(1)).1);
        let v = -r0 * (r1 - r0).inverse()?;
        let (x, r) = f(v);
        r.is_zero().then_some(x)
    }
}

pub fn run(ent: u64) {
    let mut cases = vec![];
    for _ in 0..range(1, 2) {
        let s = c05::stmt(3, 30);
        one(s, &mut cases);
    }
    if cases.is_empty() {
        core::key("nothing");
        return;
    }
    arena::run(cases, ent);
}

fn one(mut s: Stmt, cases: &mut Vec<Case>) {
    let honest = s.vals.clone();
    if chance(1, 5) {
        // the honest prover between the forgers
        let st = c05::stmt(3, 30);
        cases.push(Case::new("honest", st.texts[0].clone(), Expect::Accept, move || {
            let p = { let cc = Expr::circuit(&st); with_hash!(st.hash, H => generate_proof::<H>(&cc, st.srs.clone())) };
            Expr::check(&st, &p)
        }).tolerant());
    }
    // what the verifier holds is what the attacks below are tried on
    let agree = guard(|| c05::difference(&c05::of_text(&s.texts[1], &s.srs), &c05::of_circuit(&s.eq.blind(&s.texts[1], s.blind), &s.srs)));
    match agree {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return core::violation("verifier-circuit-differs", format!("{}: {e}", s.texts[1])),
        Err(e) => return core::violation("derivation-panics", format!("{}: {e}", s.texts[1])),
    }
    match weighted(&[2, 2, 2, 10, 2, 2]) {
        0 => {
            // the library's own prover with values that do not satisfy the equation
            let k = draw_us(s.vals.len());
            s.vals[k] += Fr::from(range(1, 5));
            if s.eq.residual(&s.vals).is_zero() {
                return probe("false-values-satisfy");
            }
            fault("byz:library-prover-on-false-values");
            cases.push(Case::new("library-prover", s.texts[0].clone(), Expect::Reject, move || {
                let p = { let cc = Expr::circuit(&s); with_hash!(s.hash, H => generate_proof::<H>(&cc, s.srs.clone())) };
                Expr::check(&s, &p)
            }).tolerant());
        }
        1 => {
            // an honest proof of another equation
            let other = expr::near_miss(&s.eq);
            if other.residual(&honest).is_zero() || c05::gates_bound(&other) > 30 {
                return probe("other-equation-holds");
            }
            // the verifier's equation is the near miss
            let st = Stmt { texts: [s.texts[0].clone(), other.text(false, false)], eq: other, vals: s.vals.clone(), srs: kzg::srs::Srs::new_from_secret(s.secret, 64), secret: s.secret, hash: s.hash, blind: s.blind };
            fault("byz:proof-of-another-equation");
            cases.push(Case::new("other-equation", format!("{} for {}", st.texts[0], st.texts[1]), Expect::Reject, move || {
                let p = { let cc = Expr::circuit(&st); with_hash!(st.hash, H => generate_proof::<H>(&cc, st.srs.clone())) };
                Expr::check(&st, &p)
            }).tolerant());
        }
        2 => {
            // a constant taken for a variable
            let nums: Vec<String> = s.eq.left.iter().chain([&s.eq.right]).flatten().filter(|f| f.pow != Some(0)).filter_map(|f| match &f.base { expr::Base::Num(t, _) => Some(t.clone()), _ => None }).collect();
            if nums.is_empty() {
                return probe("no-constant");
            }
            let name = nums[draw_us(nums.len())].clone();
            fault("byz:constant-as-witness");
            let shift = Fr::from(range(1, 3));
            cases.push(Case::new("constant-as-witness", format!("{} {name}", s.texts[0]), Expect::Reject, move || {
                let mut p = s.eq.parser(&s.vals);
                let n: i64 = name.parse().unwrap();
                p.add_witness(&name, Fr::from(n) + shift);
                let cc = p.parse(&s.texts[0]).compile()?;
                let q = with_hash!(s.hash, H => generate_proof::<H>(&cc, s.srs.clone()));
                Expr::check(&s, &q)
            }).tolerant());
        }
        3 => forged(s, cases),
        5 => foreign(cases),
        _ => {
            // every wire in place, except that the result is not zero
            let vals: Vec<Fr> = s.vals.iter().map(|_| fr_of(draw(1 << 40))).collect();
            if s.eq.residual(&vals).is_zero() {
                return probe("false-values-satisfy");
            }
            let rows = Rows::of(&s.eq.parser(&vals).parse(&s.texts[0]).compile().unwrap());
            let mut x = rows.x.clone();
            for r in rows.failing(&x) {
                let q = rows.q[2][r];
                if q.is_zero() {
                    return probe("flow-unclear");
                }
                x[2][r] = rows.gate(r, x[0][r], x[1][r], Fr::zero()) * (-q).inverse().unwrap();
            }
            fault("byz:residual-on-result");
            push(s, x, &Hyp::right(), &Attack::Follow, "residual-on-result", Some("result-wire"), cases);
        }
    }
}

/// Text outside the syntax, with values that are wrong by its usual meaning but right by a careless
/// reading of it. It may be refused, or understood.
fn foreign(cases: &mut Vec<Case>) {
    let n = |k: i64| Fr::from(k);
    let p = |f: Fr, k: i64| if k < 0 { f.pow([-k as u64]).inverse().unwrap_or_default() } else { f.pow([k as u64]) };
    let yi = range(2, 5) as i64;
    let (x, y, z) = (n(range(6, 60) as i64), n(yi), n(range(61, 90) as i64));
    let q = |a: Fr, b: Fr| a * b.inverse().unwrap();
    // text, what r is, what it might be mistaken for
    let forms: Vec<(&str, Vec<Fr>, Vec<Fr>)> = vec![
        ("(x+y)*z=r", vec![(x + y) * z], vec![x + y * z, x + y, x * z + y, y * z]),
        ("x*(y+z)=r", vec![x * (y + z)], vec![x * y + z, x * y, y + z, x]),
        ("-(x+y)=r", vec![-(x + y)], vec![x + y, y - x, -x]),
        ("(x+y)^2=r", vec![(x + y) * (x + y)], vec![x + y * y, x * x + y * y, x + y]),
        ("x-y=r", vec![x - y], vec![x, y, x + y, x * y, -y]),
        ("x+y-z=r", vec![x + y - z], vec![x + y, x + y + z, x - z]),
        ("2x=r", vec![x + x], vec![x, n(2), x + n(2)]),
        ("x/y=r", vec![q(x, y)], vec![x, x * y, x + y, q(y, x)]),
        ("x+y=z=r", vec![], vec![x + y, z, x + y - z, x + y + z]),
        ("x=r+z", vec![x - z], vec![x, x + z, z - x, -x - z]),
        ("x=r-z", vec![x + z], vec![x, x - z]),
        ("x^-2=r", vec![p(x, -2)], vec![p(x, 2), x, -p(x, 2), n(1), n(0)]),
        ("x^2^3=r", vec![p(x, 8), p(x, 6)], vec![p(x, 2), p(x, 3), p(x, 5), p(x, 4), p(x, 23)]),
        ("x^y=r", vec![p(x, yi)], vec![x, x * y, y, n(1), x + y]),
        ("x^(2)=r", vec![p(x, 2)], vec![x, n(2) * x, x + n(2)]),
        ("1.5*x=r", vec![q(n(3), n(2)) * x], vec![x, n(15) * x, n(5) * x]),
        ("4294967297*x=r", vec![n(4294967297) * x], vec![x, n(0), n(i32::MAX as i64) * x]),
        ("2147483648*x=r", vec![n(2147483648) * x], vec![-n(2147483648) * x, n(0), n(2147483647) * x, x]),
        ("x!=r", vec![], vec![x]),
        ("x^4294967298=r", vec![p(x, 4294967298)], vec![p(x, 2), x, n(1)]),
        ("x*y%z=r", vec![], vec![x, y]),
    ];
    let (text, right, wrong) = &forms[draw_us(forms.len())];
    let wrong: Vec<Fr> = wrong.iter().copied().filter(|w| !right.contains(w)).collect();
    let r = wrong[draw_us(wrong.len())];
    let s = kzg::srs::Srs::new_from_secret(fr_of(draw(u64::MAX)), 64);
    let vals = [("x", x), ("y", y), ("z", z), ("r", r)];
    let hash = draw(4);
    let text = text.to_string();
    fault("byz:text-outside-syntax");
    cases.push(Case::new("outside-syntax", format!("{text} {x} {y} {z} {r}"), Expect::Reject, move || {
        let with = |f: &dyn Fn(Fr) -> Fr| {
            let mut p = plonk::parser::Parser::default();
            for (k, v) in vals {
                p.add_witness(k, f(v));
            }
            p.parse(&text).compile().expect("compile")
        };
        let cc = with(&|v| v);
        let proof = with_hash!(hash, H => generate_proof::<H>(&cc, s.clone()));
        let blind = with(&|v| v + Fr::from(7));
        with_hash!(hash, H => verify::<H>(&blind, s.clone(), clone_proof(&proof)))
    }).tolerant());
}

fn forged(s: Stmt, cases: &mut Vec<Case>) {
    let vals: Vec<Fr> = s.vals.iter().map(|_| fr_of(draw(1 << 40))).collect();
    if s.eq.residual(&vals).is_zero() {
        return probe("false-values-satisfy");
    }
    let Some(f) = Flow::read(Rows::of(&s.eq.parser(&vals).parse(&s.texts[0]).compile().unwrap())) else {
        return probe("flow-unclear");
    };
    let uses = |w: usize| (0..f.rows.n).filter(|r| !f.rows.idle(*r)).map(|r| (0..3).filter(|c| f.id[*c][r] == w && (*c, r) != (2, f.result)).count()).sum::<usize>();
    let mut h = Hyp::right();
    let mut at = Attack::Follow;
    let (x, what);
    match weighted(&[6, 2, 2]) {
        0 => {
            // one occurrence has another value than the rest
            let cells: Vec<(usize, usize)> = (0..f.rows.n)
                .filter(|r| !f.rows.idle(*r) && !f.rows.q[2][*r].is_zero())
                .flat_map(|r| [(0, r), (1, r)])
                .filter(|(c, r)| uses(f.id[*c][*r]) > 1)
                .collect();
            let (mut c, mut r) = cells[draw_us(cells.len().max(1)) % cells.len().max(1)..].first().copied().unwrap_or((9, 9));
            if c == 9 {
                return probe("no-occurrence");
            }
            let split = f.split();
            if !split.is_empty() && chance(3, 4) {
                // the circuit at hand links them in more than one group: all of a group together
                let k = draw_us(split.len());
                fault("byz:edited-group");
                x = f.solve(&|v| f.eval(&split[k], v, None));
                (c, r) = split[k][0];
            } else {
                x = f.solve(&|v| f.eval(&[(c, r)], v, None));
            }
            let w = f.id[c][r];
            what = if f.made.contains(&w) { "edited-copy:intermediate" } else if f.pinned.contains(&w) { "edited-copy:constant" } else { "edited-copy:variable" };
        }
        1 => {
            // another constant
            let w: Vec<usize> = f.pinned.iter().copied().collect();
            if w.is_empty() {
                return probe("no-constant");
            }
            let w = w[draw_us(w.len())];
            x = f.solve(&|v| f.eval(&[], v, Some((w, v))));
            what = "wrong-constant";
        }
        _ => {
            // a gate with another output
            let w: Vec<usize> = f.made.iter().copied().collect();
            if w.is_empty() {
                return probe("no-gate");
            }
            let w = w[draw_us(w.len())];
            x = f.solve(&|v| f.eval(&[], v, Some((w, v))));
            what = "wrong-output";
        }
    }
    let Some(x) = x else { return probe("not-solvable") };
    if chance(1, 3) {
        (at, h) = super::c03::attack(3 + draw_us(21));
    }
    fault(&format!("byz:{what}"));
    push(s, x, &h, &at, what, None, cases);
}

fn push(s: Stmt, x: Cells, h: &Hyp, at: &Attack, what: &str, key: Option<&str>, cases: &mut Vec<Case>) {
    let cc = s.eq.blind(&s.texts[1], s.blind);
    let check = |p: &_| with_hash!(s.hash, H => verify::<H>(&cc, s.srs.clone(), clone_proof(p)));
    let mut f = Forger::new(Target { cc: &cc, srs: s.srs.clone(), check: &check });
    let p = match guard(|| f.forge(&x, h, at, None)) {
        Ok(Some(p)) => p,
        Ok(None) => return probe("forger:stuck"),
        Err(e) => {
            let place = crate::exec::last_panic_place();
            if place.starts_with("src/") || place.contains("/sim/src") {
                panic!("{e} at {place}");
            }
            return probe("forger:stopped-by-panic");
        }
    };
    drop(check);
    let _ = &cc;
    let name = format!("{what}:{}", match at { Attack::Follow => String::new(), a => format!("{a:?}") });
    let text = s.texts[1].clone();
    let s = Arc::new(s);
    let mut c = Case::new(name, text, Expect::Reject, move || Expr::check(&s, &p)).tolerant();
    if let Some(k) = key {
        c = c.finding(k);
    }
    cases.push(c);
}
