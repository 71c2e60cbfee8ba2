//! C03: Byzantine PLONK provers against the real verifier.

use super::arena::{self, Case, Expect};
use super::byz::{Attack, Forger, Hyp, Src, Target};
use super::circ::{self, Desc, Kind};
use super::plonk::{clone_proof, Plonk, Stmt};
use crate::core::{self, chance, draw, draw_us, fault, fr_of, guard, probe, range, weighted};
use crate::hash::spy;
use crate::with_hash;
use ark_bls12_381::Fr;
use ark_ff::{One, Zero};
use kzg::srs::Srs;
use plonk::prover::generate_proof;
use std::sync::Arc;

type Cells = [Vec<Fr>; 3];

/// A circuit that no assignment satisfies, with an assignment that breaks exactly one gate.
fn unsatisfiable(max: u64) -> (Desc, Cells, String) {
    let mut d = if chance(1, 20) {
        probe("circuit:wide");
        circ::sized(range(14, 28) as usize)
    } else {
        circ::random(max)
    };
    for v in 0..d.vals.len() {
        // every variable is pinned to its value
        let k = d.vals[v];
        d.gates.push((Kind::Const, [v, draw_us(d.vals.len()), draw_us(d.vals.len())], Fr::zero(), k));
    }
    let r = draw_us(d.gates.len());
    let what;
    if d.gates[r].0 == Kind::Const {
        let g = d.gates[r].clone();
        d.gates.push(g);
        d.gates[r].3 += Fr::from(range(1, 3));
        what = "constant";
    } else if chance(1, 3) {
        d.gates[r].0 = if d.gates[r].0 == Kind::Add { Kind::Mul } else { Kind::Add };
        what = "gate";
    } else {
        d.gates[r].2 += match draw(3) { 0 => Fr::one(), 1 => -Fr::one(), _ => core::delta::<Fr>() };
        what = "public-input";
    }
    let cells = [0, 1, 2].map(|c| d.gates.iter().map(|g| d.vals[g.1[c]]).collect::<Vec<_>>());
    if bad_rows(&d, &cells).is_empty() {
        // the other kind of gate holds for these values, too
        d.gates[r].2 += Fr::one();
    }
    // shuffle the rows
    let swaps = draw(4);
    for _ in 0..swaps {
        let (i, j) = (draw_us(d.gates.len()), draw_us(d.gates.len()));
        d.gates.swap(i, j);
    }
    let cells = [0, 1, 2].map(|c| d.gates.iter().map(|g| d.vals[g.1[c]]).collect::<Vec<_>>());
    (d, cells, what.to_string())
}
fn bad_rows(d: &Desc, x: &Cells) -> Vec<usize> {
    (0..d.gates.len()).filter(|r| !d.gate_residual(*r, x[0][*r], x[1][*r], x[2][*r]).is_zero()).collect()
}
/// Repairs the broken gates by giving one cell another value than its variable.
fn break_links(d: &Desc, x: &mut Cells) -> bool {
    let links = d.links();
    for r in bad_rows(d, x) {
        let Some((col, v)) = fix(d, x, r) else { return false };
        if links[r][col] == (col, r) {
            return false;
        }
        x[col][r] = v;
    }
    bad_rows(d, x).is_empty()
}
/// Repairs the broken gates by moving whole cycles of the permutation as compiled. No such repair
/// exists when every variable is one cycle.
fn break_cycles(d: &Desc, x: &mut Cells) -> bool {
    let Ok(cc) = guard(|| d.compile_public()) else { return false };
    let Some(cyc) = super::expr::Rows::of(&cc).cycles() else { return false };
    let mut of: std::collections::BTreeMap<usize, std::collections::BTreeSet<usize>> = Default::default();
    for (r, g) in d.gates.iter().enumerate() {
        for c in 0..3 {
            of.entry(g.1[c]).or_default().insert(cyc[c][r]);
        }
    }
    if of.values().all(|s| s.len() < 2) {
        return false;
    }
    fault("byz:edited-cycle");
    for _ in 0..40 {
        let bad = bad_rows(d, x);
        if bad.is_empty() {
            return true;
        }
        let r = bad[draw_us(bad.len())];
        let Some((col, v)) = fix(d, x, r) else { continue };
        let k = cyc[col][r];
        for c in 0..3 {
            for r in 0..d.gates.len() {
                if cyc[c][r] == k {
                    x[c][r] = v;
                }
            }
        }
    }
    false
}
/// A false statement whose permutation, as compiled, allows two values for one variable because
/// two of its cells have the same identity. No such statement exists when all identities differ.
fn shared_identity(max: u64) -> Option<(Desc, Cells, String)> {
    use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
    let mut d = circ::random(max);
    for v in 0..d.vals.len() {
        let k = d.vals[v];
        d.gates.push((Kind::Const, [v, draw_us(d.vals.len()), draw_us(d.vals.len())], Fr::zero(), k));
    }
    let cc = guard(|| d.compile_public()).ok()?;
    let m = super::expr::Rows::of(&cc);
    let dom = GeneralEvaluationDomain::<Fr>::new(m.n)?;
    let mut at: std::collections::HashMap<Fr, (usize, usize)> = Default::default();
    let mut pairs = vec![];
    for c in 0..3 {
        for r in 0..d.gates.len() {
            if let Some(o) = at.insert(dom.element(r) * m.k[c], (c, r)) {
                pairs.push([o, (c, r)]);
            }
        }
    }
    if pairs.is_empty() {
        return None;
    }
    fault("byz:shared-identity");
    for _ in 0..40 {
        let mut e = Desc { gates: d.gates.clone(), vals: d.vals.clone() };
        let v = draw_us(e.vals.len());
        for (c, r) in pairs[draw_us(pairs.len())] {
            if e.gates[r].0 != Kind::Const || c > 0 {
                e.gates[r].1[c] = v;
            }
        }
        let mut x = [0, 1, 2].map(|c| e.gates.iter().map(|g| e.vals[g.1[c]]).collect::<Vec<_>>());
        if !bad_rows(&e, &x).is_empty() && break_cycles(&e, &mut x) {
            return Some((e, x, "shared-identity".into()));
        }
    }
    None
}
/// A cell of row `r` and the value with which its gate holds.
fn fix(d: &Desc, x: &Cells, r: usize) -> Option<(usize, Fr)> {
    use ark_ff::Field;
    let (k, _, pi, cst) = d.gates[r].clone();
    let (a, b) = (x[0][r], x[1][r]);
    let col = match k {
        Kind::Const => 0,
        _ => draw_us(3),
    };
    let v = match (k, col) {
        (Kind::Const, _) => cst + pi,
        (Kind::Add, 0) => x[2][r] + pi - b,
        (Kind::Add, 1) => x[2][r] + pi - a,
        (Kind::Add, _) => a + b - pi,
        (Kind::Mul, 2) => a * b - pi,
        (Kind::Mul, _) => (x[2][r] + pi) * if col == 0 { b } else { a }.inverse()?,
    };
    Some((col, v))
}
/// Adds a pair of linked cells in column `col` that no gate constrains; returns one of them.
fn add_free_pair(d: &mut Desc, x: &mut Cells, col: usize) -> (usize, usize) {
    d.vals.push(Fr::zero());
    let zero = d.vals.len() - 1;
    let v = fr_of(draw(1 << 40));
    d.vals.push(v);
    let free = d.vals.len() - 1;
    let gate = match col {
        0 => (Kind::Mul, [free, zero, zero], Fr::zero(), Fr::zero()),
        1 => (Kind::Const, [zero, free, zero], Fr::zero(), Fr::zero()),
        _ => (Kind::Const, [zero, zero, free], Fr::zero(), Fr::zero()),
    };
    for _ in 0..2 {
        d.gates.push(gate.clone());
        for c in 0..3 {
            x[c].push(d.vals[gate.1[c]]);
        }
    }
    (col, d.gates.len() - 1)
}

pub fn attack(i: usize) -> (Attack, Hyp) {
    let mut h = Hyp::right();
    let a = match i {
        0..=2 => Attack::Follow,
        3 => Attack::ZeroZ,
        4..=9 => {
            h.sel[i - 4] = false;
            Attack::Follow
        }
        10 => {
            h.perm = false;
            Attack::Follow
        }
        11 => {
            h.l1 = false;
            if chance(1, 2) { Attack::ZeroZ } else { Attack::Follow }
        }
        12..=14 => {
            h.sig[i - 12] = false;
            Attack::Follow
        }
        15..=19 => Attack::WrongBar(i - 15),
        20 => Attack::WrongBar(5),
        21 => {
            let x = draw_us(4);
            let y = x + 1 + draw_us(4 - x);
            Attack::WrongPair(x, y)
        }
        22 => {
            h.pow = [[0, 0], [1, 1], [0, 2], [0, 1], [1, 0]][draw_us(5)];
            Attack::Joint
        }
        23 => {
            h.u_one = chance(1, 2);
            Attack::KnownU
        }
        24..=38 => Attack::Late(i - 24),
        39 => Attack::LateStmt(4 + draw_us(2), 0),
        // a challenge that is known too early
        _ => {
            let c = i - 40;
            // mostly what follows the challenge before
            let g = if chance(1, 2) { c } else { draw_us(c + 1) };
            h.src[c] = if chance(1, 4) { Src::Const([0, 1, 2, -1][draw_us(4)]) } else { Src::Draw(g, weighted(if g == 0 { &[3, 3, 4, 1] } else { &[4, 4, 1] })) };
            match c {
                0 => Attack::Late(3),
                1 => Attack::Late(4 + draw_us(3)),
                2 => Attack::Late(7 + draw_us(5)),
                _ => Attack::Late(13 + draw_us(2)),
            }
        }
    };
    (a, h)
}

/// A statement with three different constants for one variable, chosen so that the permutation
/// argument closes if beta is a known number, or gamma follows from beta.
fn three_constants(max: u64) -> Option<(Desc, Cells, String)> {
    use ark_ff::Field;
    use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
    let mut d = circ::random(max);
    let v = d.vals.len();
    d.vals.push(Fr::zero());
    for _ in 0..3 {
        d.gates.push((Kind::Const, [v, draw_us(v), draw_us(v)], Fr::zero(), Fr::zero()));
    }
    for _ in 0..draw(4) {
        let (i, j) = (draw_us(d.gates.len()), draw_us(d.gates.len()));
        d.gates.swap(i, j);
    }
    let row: Vec<usize> = (0..d.gates.len()).filter(|r| d.gates[*r].1[0] == v).collect();
    let cc = guard(|| d.compile_public()).ok()?;
    let m = super::expr::Rows::of(&cc);
    let dom = GeneralEvaluationDomain::<Fr>::new(m.n)?;
    let x: Vec<Fr> = row.iter().map(|r| dom.element(*r)).collect();
    // the order in which the permutation visits the cells
    let next = |i: usize| (0..3).find(|j| x[*j] == m.sigma[0][row[i]]);
    let (j, k) = (next(0)?, next(next(0)?)?);
    if [0, j, k].iter().collect::<std::collections::BTreeSet<_>>().len() < 3 || next(k)? != 0 {
        return None;
    }
    let (x1, x2, x3) = (x[0], x[j], x[k]);
    let small = |n: i64| if n < 0 { -Fr::from(-n as u64) } else { Fr::from(n as u64) };
    let f1 = fr_of(draw(1 << 40));
    let (f, what) = if chance(1, 2) {
        let b = [1, 2, -1, 3][weighted(&[4, 2, 2, 1])];
        let be = small(b);
        let f2 = f1 - be * (x3 - x1);
        ([f1, f2, f2 - be * (x1 - x2)], format!("beta={b}"))
    } else {
        let g0 = [0, 1, 2, -1][weighted(&[4, 2, 1, 1])];
        let g1 = [0, 1, -1, 2][weighted(&[4, 3, 1, 1])];
        let g = small(g1);
        let (x1, x2, x3) = (x1 + g, x2 + g, x3 + g);
        ([f1, f1 * x3 * x1.inverse()?, f1 * x3 * x2.inverse()?].map(|f| f - small(g0)), format!("gamma={g0}+{g1}beta"))
    };
    for (at, f) in [(0, f[0]), (j, f[1]), (k, f[2])] {
        d.gates[row[at]].3 = f;
    }
    let mut y = [0, 1, 2].map(|c| d.gates.iter().map(|g| d.vals[g.1[c]]).collect::<Vec<_>>());
    for r in row {
        y[0][r] = d.gates[r].3;
    }
    fault("byz:constants-for-a-guessed-challenge");
    Some((d, y, what))
}

pub fn run(ent: u64) {
    let mut cases = vec![];
    let secret = fr_of(draw(u64::MAX));
    for _ in 0..range(1, 2) {
        let shared = if chance(1, 4) { shared_identity(5) } else { None };
        let split = shared.is_some();
        let (mut d, mut x, what) = shared.unwrap_or_else(|| unsatisfiable(5));
        let idx = if split { 0 } else { [draw_us(3), 3 + draw_us(21), 24 + draw_us(15), 39, 40 + draw_us(4), 44][weighted(&[3, 4, 5, 1, 5, 2])] };
        if idx == 44 {
            let Some((d, x, what)) = three_constants(5) else {
                probe("no-three-cycle");
                continue;
            };
            let st = Arc::new(Stmt { desc: d.clone(), secret, srs: srs_for(&d, secret), hash: draw(4) });
            probe("attack:44");
            cases.push(
                Case::new(format!("library-prover:{what}"), d.show(), Expect::Reject, move || {
                    let cc = st.desc.compile_with(Some(&|c, r| x[c][r]));
                    let p = with_hash!(st.hash, H => generate_proof::<H>(&cc, st.srs.clone()));
                    Plonk::check(&st, &p)
                })
                .tolerant(),
            );
            continue;
        }
        let (mut at, h) = attack(idx);
        let mut broken = what.clone();
        let mut free = None;
        let wants_links = match at {
            Attack::Late(0..=2) => true,
            Attack::ZeroZ => true,
            _ => match idx {
                4..=9 => false,
                10..=14 => true,
                _ => chance(1, 2),
            },
        };
        if wants_links && !split {
            let mut y = x.clone();
            let mut z = x.clone();
            if chance(3, 4) && break_cycles(&d, &mut z) {
                x = z;
                broken = format!("cycle({what})");
            } else if break_links(&d, &mut y) {
                x = y;
                broken = format!("link({what})");
            }
        }
        if let Attack::Late(k @ 0..=2) = at {
            free = Some(add_free_pair(&mut d, &mut x, k));
        }
        if let Attack::LateStmt(i, _) = at {
            let rows: Vec<usize> = (0..d.gates.len()).filter(|r| (d.gates[*r].0 == Kind::Const) == (i == 4)).collect();
            if rows.is_empty() {
                continue;
            }
            at = Attack::LateStmt(i, rows[draw_us(rows.len())]);
        }
        let hash = draw(4);
        let srs = Srs::new_from_secret(secret, d.size() + 8);
        let st = Stmt { desc: d.clone(), secret, srs: srs.clone(), hash };
        let name = format!("{at:?}/{idx}");
        let compiled = guard(|| d.compile_public());
        let Ok(cc) = compiled else {
            probe("statement-not-compiled");
            continue;
        };
        let check = |p: &_| with_hash!(st.hash, H => plonk::verifier::verify::<H>(&cc, st.srs.clone(), clone_proof(p)));
        let mut f = Forger::new(Target { cc: &cc, srs: srs.clone(), check: &check });
        if chance(1, 8) {
            // calibration: on a satisfied circuit the forger is an honest prover
            let good = circ::random(6);
            let gs = Stmt { srs: srs_for(&good, secret), desc: good.clone(), secret, hash };
            let gc = good.compile_public();
            let gcheck = |p: &_| with_hash!(gs.hash, H => plonk::verifier::verify::<H>(&gc, gs.srs.clone(), clone_proof(p)));
            let mut gf = Forger::new(Target { cc: &gc, srs: gs.srs.clone(), check: &gcheck });
            let gx = [0, 1, 2].map(|c| good.gates.iter().map(|g| good.vals[g.1[c]]).collect::<Vec<_>>());
            match gf.forge(&gx, &Hyp::right(), &Attack::Follow, None) {
                Some(p) => probe(if gcheck(&p).is_ok() { "forger:calibrated" } else { "forger:NOT-calibrated" }),
                None => probe("forger:stuck"),
            }
        }
        if idx == 0 {
            // the library's own prover on the false assignment
            let vals = Arc::new(x.clone());
            let v2 = vals.clone();
            let dd = d.clone();
            let st = Arc::new(st);
            fault("byz:library-prover-on-false-assignment");
            cases.push(
                Case::new(format!("library-prover:{broken}"), d.show(), Expect::Reject, move || {
                    let cc = dd.compile_with(Some(&|c, r| v2[c][r]));
                    let p = with_hash!(st.hash, H => generate_proof::<H>(&cc, st.srs.clone()));
                    Plonk::check(&st, &p)
                })
                .tolerant(),
            );
            continue;
        }
        let forged = guard(|| f.forge(&x, &h, &at, free));
        let delta = f.delta;
        let p = match forged {
            Ok(Some(p)) => p,
            Ok(None) => {
                probe("forger:stuck");
                continue;
            }
            Err(e) => {
                let at = crate::exec::last_panic_place();
                if at.starts_with("src/") || at.contains("/sim/src") {
                    panic!("{e} at {at}");
                }
                probe("forger:stopped-by-panic");
                continue;
            }
        };
        let mut st = st;
        if let Attack::LateStmt(i, row) = at {
            if i == 4 {
                st.desc.gates[row].3 -= delta;
            } else {
                st.desc.gates[row].2 -= delta;
            }
            if st.desc.satisfied(&|c, r| x[c][r]) || !still_false(&st.desc) {
                probe("forger:statement-became-true");
                continue;
            }
            // the challenge u of the new statement, if the rest does not move
            let (_, log) = spy(|| Plonk::check(&st, &p));
            let mut q = clone_proof(&p);
            if let Some(u) = log.last().and_then(|a| super::plonk::challenge_of(&a.digest)) {
                q.u = u;
            }
            fault("byz:statement-after-proof");
            cases.push(Case::new(format!("forged:{name}:{broken}"), d.show(), Expect::Reject, move || Plonk::check(&st, &q)).tolerant());
            continue;
        }
        fault(&format!("byz:{}", match at { Attack::Late(_) => "message-after-challenge", Attack::Follow => "false-assignment", _ => "fitted-component" }));
        probe(&format!("attack:{idx}"));
        cases.push(Case::new(format!("forged:{name}:{broken}"), d.show(), Expect::Reject, move || Plonk::check(&st, &p)).tolerant());
    }
    // honest traffic between the forgeries
    if chance(1, 3) {
        let good = circ::random(4);
        let st = Stmt { srs: srs_for(&good, secret), desc: good, secret, hash: draw(4) };
        cases.push(
            Case::new("honest", st.desc.show(), Expect::Accept, move || {
                let cc = st.desc.compile();
                let p = with_hash!(st.hash, H => generate_proof::<H>(&cc, st.srs.clone()));
                Plonk::check(&st, &p)
            })
            .tolerant(),
        );
    }
    if cases.is_empty() {
        core::key("nothing");
        return;
    }
    arena::run(cases, ent);
}

fn srs_for(d: &Desc, secret: Fr) -> Srs {
    Srs::new_from_secret(secret, d.size() + 8)
}

/// Every variable outside free pairs is pinned: no pin assignment satisfies the circuit.
fn still_false(d: &Desc) -> bool {
    let mut pin: std::collections::BTreeMap<usize, Fr> = Default::default();
    for g in d.gates.iter().filter(|g| g.0 == Kind::Const) {
        let v = g.3 + g.2;
        if *pin.entry(g.1[0]).or_insert(v) != v {
            return true;
        }
    }
    (0..d.gates.len()).any(|r| {
        let g = &d.gates[r];
        match (pin.get(&g.1[0]), pin.get(&g.1[1]), pin.get(&g.1[2])) {
            (Some(a), Some(b), Some(c)) => !d.gate_residual(r, *a, *b, *c).is_zero(),
            _ => false,
        }
    })
}
