//! C09: contributions of several parties combined by an aggregator, in any order of arrival.

use super::c07::{coeffs, g, horner, poly, secret, short};
use super::session::swarm;
use crate::core::{self, chance, draw, draw_fr, draw_us, fault, probe, range, trace, verdict, violation, weighted};
use crate::sched::{Fail, Sim};
use crate::seam;
use ark_bls12_381::{Fr, G1Affine};
use ark_ec::AffineRepr;
use ark_ff::{One, Zero};
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use std::collections::BTreeMap;
use std::ops::Neg;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add,
    Sub,
    Scaled(Fr),
    ScaledRef(Fr),
    Negated,
    SubNeg,
}
struct Party {
    f: Vec<Fr>,
    op: Op,
}
struct Got {
    c: KzgCommitment,
    o: KzgOpening,
}
struct W {
    srs: Srs,
    x: Fr,
    z: Fr,
    parties: Vec<Party>,
    got: BTreeMap<usize, Got>,
    acc: Option<KzgCommitment>,
    open: Option<KzgOpening>,
    want: Vec<Fr>,
    want_open: Vec<Fr>,
    ent: u64,
    done: bool,
    challenge: Fr,
    loss: u64,
    log: Vec<usize>,
}

fn add(a: &mut Vec<Fr>, b: &[Fr], k: Fr) {
    if a.len() < b.len() {
        a.resize(b.len(), Fr::zero());
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x += k * y;
    }
}

fn contribute(s: &mut Sim<W>, i: usize) {
    if s.w.got.contains_key(&i) || s.w.done {
        return;
    }
    let (f, srs, z) = (s.w.parties[i].f.clone(), s.w.srs.clone(), s.w.z);
    let e = seam::ent(core::combine(s.w.ent, i as u64));
    s.spawn(
        1 + i,
        format!("party{i}"),
        e,
        move || {
            let k = KzgScheme::new(srs);
            let c = k.commit(&poly(&f));
            crate::sched::yield_point("kzg");
            let o = k.open(&poly(&f), z);
            crate::sched::yield_point("kzg");
            (c, o)
        },
        move |s, r| match r {
            Err(Fail::Crashed) => {}
            Err(Fail::Panicked(e)) => violation("contribution-panics", format!("{e} at {}", crate::exec::last_panic_place())),
            Ok((c, o)) => {
                let copies = 1 + draw(2);
                if copies > 1 {
                    fault("net:duplicated");
                }
                for _ in 0..copies {
                    if s.w.loss > 0 && chance(1, s.w.loss) {
                        fault("net:dropped");
                        continue;
                    }
                    let d = range(1, 80);
                    let (c, o) = (c.clone(), o.clone());
                    s.after(d, move |s| arrive(s, i, c, o));
                }
            }
        },
    );
    s.after(200, move |s| contribute(s, i));
}

fn arrive(s: &mut Sim<W>, i: usize, c: KzgCommitment, o: KzgOpening) {
    if s.w.got.contains_key(&i) {
        probe("duplicate-suppressed");
        return;
    }
    trace(format!("party{i} arrives"));
    s.w.log.push(i);
    let (op, f) = (s.w.parties[i].op, s.w.parties[i].f.clone());
    // fold it into what has arrived so far
    let before = s.w.acc.take();
    let zero = || KzgCommitment(G1Affine::zero());
    let r = core::guard(|| {
        let cc = c.clone();
        let (a, k): (KzgCommitment, Fr) = match op {
            Op::Add => (before.clone().map(|b| b + cc.clone()).unwrap_or(cc), Fr::one()),
            Op::Sub => (before.clone().unwrap_or_else(zero) - cc, -Fr::one()),
            Op::Scaled(k) => (before.clone().unwrap_or_else(zero) + cc * k, k),
            Op::ScaledRef(k) => (&cc * k + before.clone().unwrap_or_else(zero), k),
            Op::Negated => (cc.neg() + before.clone().unwrap_or_else(zero), -Fr::one()),
            Op::SubNeg => (before.clone().unwrap_or_else(zero) - (-cc), Fr::one()),
        };
        (a, k)
    });
    let (a, k) = match r {
        Ok(x) => x,
        Err(e) => return violation("combination-panics", format!("{op:?}: {e}")),
    };
    add(&mut s.w.want, &f, k);
    verdict("commitment-combined");
    let want = g(horner(&s.w.want, s.w.x));
    if a.0 != want {
        return violation("wrong-combination", format!("{op:?} after arrivals {:?}", s.w.log));
    }
    s.w.acc = Some(a);
    // openings at the common point add up
    if op != Op::Sub {
        let sum = match core::guard(|| match s.w.open.clone() {
            None => o.clone(),
            Some(p) => p + o.clone(),
        }) {
            Ok(x) => x,
            Err(e) => return violation("combination-panics", format!("opening: {e}")),
        };
        add(&mut s.w.want_open, &f, Fr::one());
        verdict("opening-combined");
        if sum.1 != horner(&s.w.want_open, s.w.z) {
            return violation("wrong-value-of-sum", format!("after arrivals {:?}", s.w.log));
        }
        s.w.open = Some(sum);
    }
    s.w.got.insert(i, Got { c, o });
    if s.w.got.len() == s.w.parties.len() {
        conclude(s);
    }
}

fn conclude(s: &mut Sim<W>) {
    s.w.done = true;
    let w = &s.w;
    let k = KzgScheme::new(w.srs.clone());
    let say = |what: &str| format!("{what}: {} parties, arrivals {:?}", w.parties.len(), w.log);
    if let Some(o) = &w.open {
        let c = KzgCommitment(g(horner(&w.want_open, w.x)));
        verdict("sum-opening-verified");
        match core::guard(|| k.verify(&c, o, w.z)) {
            Ok(true) => {}
            Ok(false) => return violation("sum-of-openings-rejected", say("sum")),
            Err(e) => return violation("combination-panics", e),
        }
        // pairwise, in both orders
        for (i, a) in &w.got {
            for (j, b) in &w.got {
                let ab = a.o.clone() + b.o.clone();
                let c = a.c.clone() + b.c.clone();
                let ba = b.o.clone() + a.o.clone();
                if ab.0 != ba.0 || ab.1 != ba.1 {
                    return violation("order-matters", format!("openings {i} and {j}"));
                }
                if i == j && !k.verify(&c, &ab, w.z) {
                    return violation("sum-of-openings-rejected", format!("{i} with itself"));
                }
            }
        }
    }
    // aggregation with powers of a challenge, by party number whatever the order of arrival
    let cs: Vec<&KzgCommitment> = w.got.values().map(|x| &x.c).collect();
    let mut sum = vec![];
    let mut p = Fr::one();
    for i in w.got.keys() {
        add(&mut sum, &w.parties[*i].f, p);
        p *= w.challenge;
    }
    verdict("aggregated");
    match core::guard(|| KzgScheme::aggregate_commitments(&cs, &w.challenge)) {
        Ok(c) if c.0 == g(horner(&sum, w.x)) => {
            let o = k.open(&poly(&sum), w.z);
            if !k.verify(&c, &o, w.z) {
                violation("aggregate-not-openable", say("aggregate"));
            }
        }
        Ok(_) => violation("wrong-aggregate", format!("{} challenge {}", say("aggregate"), short(&w.challenge))),
        Err(e) => violation("combination-panics", format!("aggregate: {e}")),
    }
}

pub fn run(ent: u64) {
    swarm(true);
    let n = match weighted(&[60, 20, 1]) {
        0 => range(1, 5),
        1 => range(4, 9),
        _ => {
            probe("many-parties");
            range(10, 40)
        }
    } as usize;
    let x = secret();
    let srs = Srs::new_from_secret(x, if chance(1, 60) { range(20, 130) } else { range(1, 6) } as usize);
    let max = srs.g1_points().len();
    let mut parties: Vec<Party> = vec![];
    for _ in 0..n {
        let mut f = coeffs(max);
        if !parties.is_empty() && chance(1, 3) {
            let o = &parties[draw_us(parties.len())].f;
            f = match draw(3) {
                0 => o.clone(),
                1 => o.iter().map(|k| -*k).collect(),
                _ => o.iter().map(|k| *k + k).collect(),
            };
            probe("related-contributions");
        }
        let op = match draw(6) {
            0 => Op::Add,
            1 => Op::Sub,
            2 => Op::Scaled(draw_fr()),
            3 => Op::ScaledRef(draw_fr()),
            4 => Op::Negated,
            _ => Op::SubNeg,
        };
        core::key(&format!("{} coefficients {}", f.len(), format!("{op:?}").split('(').next().unwrap()));
        parties.push(Party { f, op });
    }
    let mut z = draw_fr();
    if z == x {
        z += Fr::one();
    }
    let challenge = draw_fr();
    let mut s = Sim::new(W {
        srs,
        x,
        z,
        parties,
        got: BTreeMap::new(),
        acc: None,
        open: None,
        want: vec![],
        want_open: vec![],
        ent,
        done: false,
        challenge,
        loss: [0, 8, 3][draw_us(3)],
        log: vec![],
    });
    for i in 0..n {
        let d = draw(100);
        s.after(d, move |s| contribute(s, i));
    }
    for _ in 0..draw(3) {
        let (t, i) = (range(1, 250), draw_us(n + 1));
        s.after(t, move |s| {
            if i == 0 {
                if s.w.done {
                    return;
                }
                // the aggregator starts again from nothing
                fault("crash:aggregator");
                trace("aggregator crashes");
                s.w.got.clear();
                s.w.acc = None;
                s.w.open = None;
                s.w.want.clear();
                s.w.want_open.clear();
                s.w.log.clear();
                for i in 0..s.w.parties.len() {
                    let d = draw(60);
                    s.after(d, move |s| contribute(s, i));
                }
            } else if s.busy(i) {
                fault("crash:in-operation");
                trace(format!("party{} crashes", i - 1));
                s.crash(i);
            }
        });
    }
    s.after(800, |s| {
        trace("faults stop");
        s.w.loss = 0;
    });
    s.run(5000, |s| s.w.done);
    if !s.w.done && !core::violated() {
        violation("no-progress", format!("{} of {} contributions", s.w.got.len(), s.w.parties.len()));
    }
}
