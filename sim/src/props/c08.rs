//! C08: batch verification.

use super::arena::{self, Case, Expect};
use super::c07::{coeffs, g, horner, poly, secret, short};
use super::session::swarm;
use crate::core::{self, chance, combine, draw, draw_fr, draw_us, fault, fr_of, probe, range, weighted};
use ark_bls12_381::{Fr, G1Affine};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, Zero};
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use rand::{RngCore, SeedableRng};

/// The randomness given to the batch verifier, behind the simulator.
#[derive(Clone)]
pub struct SimRng {
    key: u64,
    n: u64,
    /// 0: pseudo-random; 1: all zero; 2: all ones; 3: one value for ever
    mode: u64,
    /// fails after so many draws
    fails_after: Option<u64>,
    /// no yields: a copy used by the adversary
    quiet: bool,
}
impl SimRng {
    fn new(key: u64) -> Self {
        SimRng { key, n: 0, mode: 0, fails_after: None, quiet: false }
    }
    fn get(&mut self) -> Result<u64, rand::Error> {
        if !self.quiet {
            crate::sched::yield_point("rng");
        }
        if self.fails_after.map(|k| self.n >= k) == Some(true) {
            if !self.quiet {
                fault("rng:fails");
            }
            return Err(rand::Error::new("no randomness"));
        }
        self.n += 1;
        // degenerate for a while only: rejection sampling must come to an end
        Ok(match if self.n > 48 { 0 } else { self.mode } {
            1 => 0,
            2 => u64::MAX,
            3 => combine(self.key, 1),
            _ => combine(self.key, self.n),
        })
    }
}
impl RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        self.get().expect("randomness") as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.get().expect("randomness")
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.try_fill_bytes(d).expect("randomness")
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        for c in d.chunks_mut(8) {
            let b = self.get()?.to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
        Ok(())
    }
}

#[derive(Clone)]
struct Item {
    c: G1Affine,
    w: G1Affine,
    y: Fr,
    z: Fr,
    /// discrete logarithms, known because the secret is
    w_log: Fr,
}
#[derive(Clone)]
struct Batch {
    items: Vec<Item>,
    srs: Srs,
    secret: Fr,
}
impl Batch {
    /// By how much item `i` misses its equation.
    fn miss(&self, i: usize) -> bool {
        let it = &self.items[i];
        it.w * (self.secret - it.z) != it.c.into_group() - g(it.y)
    }
    fn good(&self) -> bool {
        (0..self.items.len()).all(|i| !self.miss(i))
    }
    fn verify(&self, cut: (usize, usize, usize), rng: &mut impl RngCore) -> bool {
        let mut c: Vec<_> = self.items.iter().map(|i| KzgCommitment(i.c)).collect();
        let mut z: Vec<_> = self.items.iter().map(|i| i.z).collect();
        let mut o: Vec<_> = self.items.iter().map(|i| KzgOpening(i.w, i.y)).collect();
        let n = self.items.len();
        c.truncate(n - cut.0);
        z.truncate(n - cut.1);
        o.truncate(n - cut.2);
        KzgScheme::new(self.srs.clone()).batch_verify(&c, &z, &o, rng)
    }
    /// Puts an error of size `e` (in the exponent of `cm - y + z w - x w`) into item `i`.
    fn spoil(&mut self, i: usize, e: Fr) {
        let x = self.secret;
        let it = &mut self.items[i];
        match draw(4) {
            0 => it.c = (it.c + g(e)).into(),
            1 => it.y -= e,
            2 => {
                let d = e * (it.z - x).inverse().unwrap();
                it.w = (it.w + g(d)).into();
                it.w_log += d;
            }
            _ => match it.w_log.inverse() {
                Some(k) => it.z += e * k,
                None => it.y -= e,
            },
        }
    }
}

fn make(n: usize) -> Batch {
    let secret = secret();
    let srs = Srs::new_from_secret(secret, range(1, 6) as usize);
    let k = KzgScheme::new(srs.clone());
    let max = srs.g1_points().len();
    let mut items: Vec<Item> = vec![];
    for _ in 0..n {
        if !items.is_empty() && chance(1, 6) {
            let it = items[draw_us(items.len())].clone();
            items.push(it);
            continue;
        }
        let c = coeffs(max);
        let mut z = if !items.is_empty() && chance(1, 3) { items[draw_us(items.len())].z } else { draw_fr() };
        if z == secret {
            z += Fr::one();
        }
        let o = k.open(&poly(&c), z);
        let y = horner(&c, z);
        let w_log = (horner(&c, secret) - y) * (secret - z).inverse().unwrap();
        items.push(Item { c: k.commit(&poly(&c)).0, w: o.0, y: o.1, z, w_log });
    }
    Batch { items, srs, secret }
}

/// What the adversary believes the weights to be.
fn belief(n: usize, rng: &SimRng) -> (Vec<Fr>, String) {
    let mut r = rng.clone();
    r.quiet = true;
    let mut words = |k: usize, bits: u32| -> Vec<Fr> {
        (0..k).map(|_| Fr::from(r.next_u64() & (u64::MAX >> (64 - bits)))).collect()
    };
    let powers = |b: Fr, from: u64| (0..n).map(|i| b.pow([i as u64 + from])).collect::<Vec<_>>();
    match draw(9) {
        0 | 1 => (vec![Fr::one(); n], "equal".into()),
        2 => ((0..n).map(|i| Fr::from(i as u64 + 1)).collect(), "index".into()),
        3 => {
            let b = [Fr::from(range(2, 5)), -Fr::one()][draw_us(2)];
            (powers(b, draw(2)), "powers-of-constant".into())
        }
        4 => {
            let bits = [8, 16, 32][draw_us(3)];
            // every other word: a 128-bit draw is two words
            let step = 1 + draw_us(2);
            let v = words(n * step, bits);
            (v.into_iter().step_by(step).collect(), format!("low-{bits}-bits"))
        }
        5 => {
            let bits = [8, 16, 32][draw_us(3)];
            let b = words(1, bits)[0];
            (powers(b, draw(2)), format!("powers-of-{bits}-bits"))
        }
        6 => {
            // a generator seeded with a constant
            let mut r = rand::rngs::StdRng::seed_from_u64(draw(3));
            (
                (0..n).map(|_| Fr::from((r.next_u64() as u128) | ((r.next_u64() as u128) << 64))).collect(),
                "constant-seed".into(),
            )
        }
        7 => {
            // the weights of another batch
            let mut r = SimRng::new(rng.key ^ range(1, 15));
            r.quiet = true;
            (
                (0..n).map(|_| Fr::from((r.next_u64() as u128) | ((r.next_u64() as u128) << 64))).collect(),
                "earlier-batch".into(),
            )
        }
        _ => (vec![Fr::one(); n], "pairs".into()),
    }
}

fn case(n: usize, base: &Batch, key: u64, idx: u64) -> Case {
    let mut b = base.clone();
    // the keys of a run differ in their last bits only
    let mut rng = SimRng::new(key ^ idx);
    let mut name;
    let mut tolerant = false;
    let mut rnd = 0;
    let mut cut = (0, 0, 0);
    match weighted(&[3, 3, 7, 2, 2, 1]) {
        _ if n == 0 => name = "honest:empty".to_string(),
        0 => {
            name = "honest".to_string();
            rng.mode = draw(4);
            if rng.mode > 0 {
                fault("rng:degenerate");
                name += ":degenerate-rng";
            }
            if n > 1 && chance(1, 2) {
                // another order of arrival
                fault("net:reordered");
                for i in (1..n).rev() {
                    let j = draw_us(i + 1);
                    b.items.swap(i, j);
                }
            }
        }
        1 => {
            let i = [draw_us(n), 0, n - 1][draw_us(3)];
            let mut e = draw_fr();
            if e.is_zero() {
                e = Fr::one();
            }
            b.spoil(i, e);
            fault("byz:one-bad-opening");
            name = format!("one-bad:{i}/{n}");
        }
        2 if n >= 2 => {
            let again = idx;
            let (h, what) = belief(n, &rng);
            let mut idx: Vec<usize> = if what == "pairs" {
                let i = draw_us(n - 1);
                vec![i, if chance(1, 2) { i + 1 } else { (i + 1 + draw_us(n - 1)) % n }]
            } else {
                let k = range(2, n as u64) as usize;
                let mut v: Vec<usize> = (0..n).collect();
                for i in (1..n).rev() {
                    let j = draw_us(i + 1);
                    v.swap(i, j);
                }
                v.truncate(k);
                v
            };
            idx.dedup();
            if idx.len() < 2 || h[*idx.last().unwrap()].is_zero() {
                return case(n, base, key, again);
            }
            let last = idx.pop().unwrap();
            let mut sum = Fr::zero();
            for i in &idx {
                let mut e = fr_of(draw(1 << 40));
                if chance(1, 3) {
                    e = Fr::from(range(1, 5));
                }
                sum += h[*i] * e;
                b.spoil(*i, e);
            }
            if !sum.is_zero() {
                b.spoil(last, -sum * h[last].inverse().unwrap());
            }
            fault("byz:coordinated");
            name = format!("coordinated:{what}");
        }
        3 if n >= 2 => {
            // parts of two openings exchanged
            let (i, j) = (draw_us(n), draw_us(n));
            let (x, y) = (b.items[i].clone(), b.items[j].clone());
            match draw(4) {
                0 => {
                    b.items[i].c = y.c;
                    b.items[j].c = x.c;
                }
                1 => {
                    b.items[i].w = y.w;
                    b.items[j].w = x.w;
                }
                2 => {
                    b.items[i].y = y.y;
                    b.items[j].y = x.y;
                }
                _ => {
                    b.items[i].z = y.z;
                    b.items[j].z = x.z;
                }
            }
            fault("byz:exchanged");
            name = "exchanged".to_string();
        }
        4 if n >= 2 => {
            name = "no-randomness".to_string();
            tolerant = true;
            rnd = 1 + draw(2);
            if rnd == 1 {
                rng.fails_after = Some(draw(2));
            }
        }
        5 => {
            // lists of different lengths: something in them stays unchecked
            let k = 1 + draw_us(n);
            cut = [(k, 0, 0), (0, k, 0), (0, 0, k), (k, k, 0), (0, k, k), (k, 0, k)][draw_us(6)];
            if chance(1, 2) {
                b.spoil(n - 1, Fr::one());
            }
            fault("byz:uneven-lists");
            name = "uneven".to_string();
            tolerant = true;
        }
        _ => name = "honest".to_string(),
    }
    let good = b.good();
    if name.starts_with("coordinated") && good {
        probe("coordinated-but-right");
    }
    let expect = if good && !tolerant { Expect::Accept } else { Expect::Reject };
    let detail = format!("n={n} points {}", b.items.iter().map(|i| short(&i.z)).collect::<Vec<_>>().join(","));
    let singles = draw(3) == 0 && !tolerant;
    let mut c = Case::new(name, detail, expect, move || {
        let ok = if rnd == 2 {
            // the operating system's randomness fails
            b.verify(cut, &mut rand::rngs::StdRng::from_entropy())
        } else {
            b.verify(cut, &mut rng.clone())
        };
        if singles {
            let k = KzgScheme::new(b.srs.clone());
            let each = b.items.iter().all(|i| k.verify(&KzgCommitment(i.c), &KzgOpening(i.w, i.y), i.z));
            if each != ok {
                // tells against the batch whatever the oracle says
                core::violation("differs-from-single", format!("batch {ok}, one by one {each}"));
            }
        }
        if ok {
            Ok(())
        } else {
            Err("no".into())
        }
    });
    c.no_entropy = rnd == 2;
    if tolerant {
        c = c.tolerant();
    }
    c
}

pub fn run(ent: u64) {
    let mut cases = vec![];
    for i in 0..range(1, 3) {
        let n = match weighted(&[6, 1, 1, 2]) {
            0 => range(2, 6) as usize,
            1 => 0,
            2 => 1,
            _ => range(5, 16) as usize,
        };
        let b = make(n);
        for j in 0..range(1, 3) {
            cases.push(case(n, &b, combine(ent, 8), 4 * i + j));
        }
    }
    let mode = swarm(true);
    arena::run_with(cases, ent, mode);
}
