//! C10: reference strings.

use super::arena::{self, Case, Expect};
use super::proc::{self, World};
use super::session::swarm;
use crate::core::{self, chance, draw, draw_fr, draw_us, fault, fr_of, probe, range, trace, verdict, violation, weighted};
use crate::sched::{Fail, Sim};
use crate::seam;
use ark_bls12_381::{Bls12_381, Fr, G1Affine, G1Projective, G2Affine};
use ark_ec::pairing::Pairing;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, UniformRand, Zero};
use kzg::srs::Srs;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};

#[derive(Clone, PartialEq)]
struct Str {
    g1: Vec<G1Affine>,
    g2: G2Affine,
    g2s: G2Affine,
}
fn of(s: &Srs) -> Str {
    Str { g1: s.g1_points(), g2: s.g2(), g2s: s.g2s() }
}

/// Is the string made of powers of one secret?
fn well_formed(s: &Str, n: usize, salt: u64) -> Result<(), String> {
    if s.g1.len() < n + 3 {
        return Err(format!("too-short: {} elements for size {n}", s.g1.len()));
    }
    if s.g1[0] != G1Affine::generator() || s.g2 != G2Affine::generator() {
        return Err("does not start at the generators".into());
    }
    if s.g1[1].is_zero() || s.g2s.is_zero() {
        return Err("zero secret".into());
    }
    let (mut lo, mut hi) = (G1Projective::zero(), G1Projective::zero());
    for i in 0..s.g1.len() - 1 {
        let r = fr_of(core::combine(salt, i as u64));
        lo += s.g1[i] * r;
        hi += s.g1[i + 1] * r;
    }
    if Bls12_381::pairing(hi.into_affine(), s.g2) != Bls12_381::pairing(lo.into_affine(), s.g2s) {
        let i = (0..s.g1.len() - 1).find(|i| Bls12_381::pairing(s.g1[i + 1], s.g2) != Bls12_381::pairing(s.g1[*i], s.g2s));
        return Err(format!("element {:?} is not the next power", i.map(|i| i + 1)));
    }
    Ok(())
}

/// Secrets of less than full range that one could derive from the entropy.
fn weak(s: &Str, seed: &[u8]) -> Option<String> {
    let is = |k: Fr| s.g1[1] == (G1Affine::generator() * k).into_affine();
    for k in 0..40u64 {
        if is(Fr::from(k)) || is(-Fr::from(k)) {
            return Some(format!("the secret is ±{k}"));
        }
    }
    if seed.len() >= 32 {
        let k: [u8; 32] = seed[..32].try_into().unwrap();
        let r = || StdRng::from_seed(k);
        let c: Vec<(&str, Fr)> = vec![
            ("one byte", Fr::from(r().gen::<u8>())),
            ("16 bits", Fr::from(r().gen::<u16>())),
            ("32 bits", Fr::from(r().gen::<u32>())),
            ("64 bits", Fr::from(r().gen::<u64>())),
            ("128 bits", Fr::from(r().gen::<u128>())),
            ("64 raw bits", Fr::from(u64::from_le_bytes(seed[..8].try_into().unwrap()))),
            ("32 raw bits", Fr::from(u32::from_le_bytes(seed[..4].try_into().unwrap()))),
            ("64 raw bits", Fr::from(u64::from_be_bytes(seed[..8].try_into().unwrap()))),
        ];
        let seeded = |x: u64| Fr::rand(&mut StdRng::seed_from_u64(x));
        let c: Vec<(&str, Fr)> = c
            .into_iter()
            .chain([
                ("a generator seeded with one byte", seeded(r().gen::<u8>() as u64)),
                ("a generator seeded with 16 bits", seeded(r().gen::<u16>() as u64)),
                ("a generator seeded with 32 bits", seeded(r().gen::<u32>() as u64)),
                ("a generator seeded with 32 raw bits", seeded(u32::from_le_bytes(seed[..4].try_into().unwrap()) as u64)),
            ])
            .collect();
        for (w, k) in c {
            if is(k) {
                return Some(format!("the secret comes from only {w}"));
            }
        }
    }
    None
}

fn size() -> usize {
    match weighted(&[2, 3, 2, 1]) {
        0 => range(1, 4) as usize,
        1 if chance(1, 8) => 0,
        1 => 1 << draw(6),
        3 => {
            // long strings, about any length
            let k = range(6, if crate::exec::thorough() { 11 } else { 9 });
            (1 << k) + draw(1 << k) as usize
        }
        _ => range(1, 40) as usize,
    }
}

pub fn run(ent: u64) {
    match weighted(&[4, 4, 3, 2]) {
        0 => ceremonies(ent),
        1 => concurrent(ent),
        2 => known(ent),
        _ => starved(ent),
    }
}

/// An authority that is restarted, with the same clock and process id.
fn ceremonies(ent: u64) {
    let n = size().min(12);
    let correlated = chance(1, 2);
    let now = draw(50);
    let mut seen: Vec<(G1Affine, String)> = vec![];
    core::key(&format!("size {n} correlated {correlated}"));
    for inc in 0..range(2, 4) {
        let mut e = seam::ent(core::combine(ent, core::combine(inc, 3)));
        if correlated {
            e = seam::ent(inc);
            e.mode = 3;
            e.shared = ent;
            fault("entropy:correlated-streams");
        }
        if inc > 0 {
            fault("crash:process-restart");
        }
        let noisy = !correlated && chance(1, 2);
        let w = World { ent: e, now, skew: 0, eintr: if noisy { 3 } else { 0 }, short: if noisy { 2 } else { 0 } };
        let count = if chance(1, 3) { 2 } else { 1 };
        let a = match proc::incarnation("srs", &w, &[("size", n.to_string()), ("count", count.to_string())]) {
            Ok(a) => a,
            Err(e) => return violation("no-string", format!("size {n}: {e}")),
        };
        trace(format!("incarnation {inc}: {} strings from {} bytes", a.lines.len(), a.bytes));
        if a.bytes < 16 {
            return violation("entropy-not-used", format!("made from {} bytes of OS randomness", a.bytes));
        }
        for (i, (_, l)) in a.lines.iter().enumerate() {
            let f: Vec<&str> = l.split('|').collect();
            let s = Str { g1: f[0].split(',').map(proc::unhex).collect(), g2: proc::unhex(f[1]), g2s: proc::unhex(f[2]) };
            let who = format!("string {i} of incarnation {inc}");
            judge(&s, n, ent, &who);
            if core::violated() {
                return;
            }
            let seed = if noisy { vec![] } else { seam::preview(e, 32) };
            if let Some(w) = weak(&s, &seed) {
                return violation("weak-secret", format!("{who}: {w}"));
            }
            if let Some((_, o)) = seen.iter().find(|x| x.0 == s.g1[1]) {
                return violation("secret-repeated", format!("{who} and {o}"));
            }
            verdict("fresh-secret");
            seen.push((s.g1[1], who));
        }
    }
}

fn judge(s: &Str, n: usize, salt: u64, who: &str) {
    verdict("string-inspected");
    if let Err(e) = well_formed(s, n, salt) {
        violation("malformed", format!("{who}, size {n}: {e}"));
    }
}

struct W {
    seen: Vec<(G1Affine, String)>,
    ent: u64,
    k: u64,
}
fn make(sim: &mut Sim<W>, node: usize, left: u64) {
    if left == 0 {
        return;
    }
    sim.w.k += 1;
    let n = size().min(8);
    let who = format!("string {} of node {node}", sim.w.k);
    let e = seam::ent(core::combine(core::combine(sim.w.ent, sim.w.k), 77));
    trace(format!("make {who} size {n}"));
    sim.spawn(node, who.clone(), e, move || of(&Srs::new(n)), move |sim, r| match r {
        Err(Fail::Crashed) => {
            fault("crash:in-operation");
            sim.after(5, move |s| make(s, node, left));
        }
        Err(Fail::Panicked(e)) => violation("no-string", format!("{e} at {}", crate::exec::last_panic_place())),
        Ok(s) => {
            judge(&s, n, sim.w.ent, &who);
            if let Some(w) = weak(&s, &[]) {
                return violation("weak-secret", format!("{who}: {w}"));
            }
            if let Some((_, o)) = sim.w.seen.iter().find(|x| x.0 == s.g1[1]) {
                return violation("secret-repeated", format!("{who} and {o}"));
            }
            sim.w.seen.push((s.g1[1], who));
            let d = draw(10);
            sim.after(d, move |s| make(s, node, left - 1));
        }
    });
}
fn concurrent(ent: u64) {
    swarm(true);
    crate::sched::YIELD_RATE.store([1, 2, 3][draw_us(3)], std::sync::atomic::Ordering::SeqCst);
    let nodes = range(1, 3) as usize;
    let mut sim = Sim::new(W { seen: vec![], ent, k: 0 });
    for n in 0..nodes {
        let (d, left) = (draw(10), range(1, 3));
        sim.after(d, move |s| make(s, n, left));
    }
    for _ in 0..draw(3) {
        let (t, n) = (range(1, 40), draw_us(nodes));
        sim.after(t, move |s| {
            if s.busy(n) {
                trace(format!("crash node {n}"));
                s.crash(n);
            }
        });
    }
    sim.run(3000, |_| false);
}

/// Strings from a known secret against powers computed here.
fn known(ent: u64) {
    let mut cases = vec![];
    for _ in 0..range(1, 3) {
        let n = size();
        if n > 64 {
            probe("long-string");
        }
        let secret = match draw(4) {
            0 => Fr::from(range(1, 9)),
            1 => -Fr::one(),
            2 => draw_fr() + Fr::from(1000),
            _ => fr_of(draw(u64::MAX)),
        };
        if secret.is_zero() {
            continue;
        }
        cases.push(Case::new(format!("from-secret:{n}"), format!("secret {secret}"), Expect::Accept, move || {
            let s = of(&Srs::new_from_secret(secret, n));
            well_formed(&s, n, ent)?;
            let mut p = Fr::one();
            for (i, x) in s.g1.iter().enumerate() {
                if *x != (G1Affine::generator() * p).into_affine() {
                    return Err(format!("element {i} is not the power {i} of the secret"));
                }
                p *= secret;
            }
            if s.g2s != (G2Affine::generator() * secret).into_affine() {
                return Err("other secret on the second group".into());
            }
            if of(&Srs::new_from_secret(secret, n)) != s {
                return Err("not repeatable".into());
            }
            Ok(())
        }));
    }
    fault("schedule:concurrent");
    arena::run(cases, ent);
}

fn starved(ent: u64) {
    fault("entropy:unavailable-from-start");
    let n = size().min(8);
    if chance(1, 2) {
        let mut e = seam::ent(ent);
        e.fail = true;
        let w = World { ent: e, now: 0, skew: 0, eintr: [0, 3][draw_us(2)], short: 0 };
        let r = proc::incarnation("srs", &w, &[("size", n.to_string()), ("count", "1".into())]);
        verdict("starved");
        trace(format!("starved: {}", r.is_ok()));
        if r.is_ok() {
            violation("string-without-entropy", format!("size {n}"));
        }
        return;
    }
    let mut bad = Case::new("starved", format!("size {n}"), Expect::Reject, move || {
        Srs::new(n);
        Ok(())
    })
    .tolerant();
    bad.no_entropy = true;
    let good = Case::new("healthy", format!("size {n}"), Expect::Accept, move || {
        Srs::new(n);
        Ok(())
    });
    arena::run_with(vec![bad, good], ent, {
        swarm(true);
        0
    });
}
