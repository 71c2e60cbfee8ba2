//! C13: Byzantine FRI provers against the real verifier.
//!
//! The prover here is independent of the repository's. It learns challenges the way any adversary
//! can, by running the verifier on incomplete proofs and watching the hash; which hash leads to
//! which challenge it learns from one honest proof.

#[cfg(not(zkp_sim))]
pub fn run(ent: u64) {
    super::fri::run(true, ent)
}
#[cfg(zkp_sim)]
pub use with_hooks::{learn, run};

#[cfg(zkp_sim)]
mod with_hooks {
    use super::super::arena::{self, Case, Expect};
    use super::super::fri::{check, make, Stmt};
    use crate::core::{self, chance, combine, draw, draw_us, fault, field_of, probe, range, verdict, violation, weighted};
    use crate::hash::{spy, Absorb, Preset};
    use ark_ff::PrimeField;
    use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
    use fri::fiat_shamir::transcript::Transcript;
    use fri::merkle_tree::{verify_merkle_proof, MerkleProof, MerkleTree};
    use fri::prover::{Decommitment, Proof};
    use rand::rngs::StdRng;
    use rand::SeedableRng;
    use std::collections::HashMap;

    /// Where a challenge comes from: (number of the hash, number of the draw).
    type Place = (usize, usize);
    struct Map {
        r: Vec<Place>,
        q: usize,
        way: Way,
    }

    fn rng(a: &Absorb) -> Option<StdRng> {
        let s: [u8; 8] = a.digest.get(..8)?.try_into().ok()?;
        Some(StdRng::seed_from_u64(u64::from_le_bytes(s)))
    }
    fn challenge<F: PrimeField>(log: &[Absorb], p: Place) -> Option<F> {
        let mut r = rng(log.get(p.0)?)?;
        (0..=p.1).map(|_| F::rand(&mut r)).last()
    }
    fn places<F: PrimeField>(log: &[Absorb], k: usize, n: usize, f: impl Fn(usize) -> usize) -> Option<Vec<usize>> {
        let d = &log.get(k)?.digest;
        let mut t = Preset::with(d, || Transcript::<Preset, F>::new(F::zero()));
        Some(core::guard(|| t.generate_challenge_list_usize(n)).ok()?.into_iter().map(f).collect())
    }
    /// How a drawn number may become a place: shifted, reduced, some bits cleared or set.
    #[derive(Clone, Copy)]
    struct Way {
        shift: u32,
        modulus: usize,
        and: usize,
        or: usize,
        times: usize,
    }
    impl Way {
        fn of(&self, c: usize) -> usize {
            (((c >> self.shift) % self.modulus) & self.and | self.or) * self.times
        }
        fn all(n: usize) -> Vec<Way> {
            let mut v = vec![];
            for shift in [0, 32, 8, 16, 48, 1] {
                for modulus in (0..=n.ilog2()).rev().map(|k| 1usize << k).chain([n - 1]).filter(|m| *m > 0) {
                    v.push(Way { shift, modulus, and: !0, or: 0, times: 1 });
                    for b in 0..n.ilog2() {
                        v.push(Way { shift, modulus, and: !(1 << b), or: 0, times: 1 });
                        v.push(Way { shift, modulus, and: !0, or: 1 << b, times: 1 });
                        if modulus << b <= n {
                            v.push(Way { shift, modulus, and: !0, or: 0, times: 1 << b });
                        }
                    }
                }
            }
            v
        }
    }
    fn points<F: PrimeField>(n: usize, level: usize) -> Vec<F> {
        let mut c = F::GENERATOR;
        for _ in 0..level {
            c.square_in_place();
        }
        GeneralEvaluationDomain::<F>::new(n).unwrap().elements().map(|x| x * c).collect()
    }
    /// One folding step on values.
    fn fold<F: PrimeField>(v: &[F], x: &[F], r: F) -> Vec<F> {
        let h = v.len() / 2;
        let two = F::from(2u64).inverse().unwrap();
        (0..h)
            .map(|i| {
                let even = (v[i] + v[i + h]) * two;
                let odd = (v[i] - v[i + h]) * two * x[i].inverse().unwrap();
                even + r * odd
            })
            .collect()
    }

    struct Forger<F: PrimeField> {
        hash: u64,
        n: usize,
        layers: usize,
        q: usize,
        map: Map,
        salt: u64,
        vals: Vec<Vec<F>>,
        c: F,
    }
    impl<F: PrimeField> Forger<F> {
        fn rnd(&mut self) -> F {
            self.salt += 1;
            field_of(combine(self.salt, 0x1357))
        }
        fn garbage(&mut self, n: usize) -> Vec<F> {
            (0..n).map(|_| self.rnd()).collect()
        }
        fn size(&self, j: usize) -> usize {
            self.n >> j
        }
        fn x(&self, j: usize) -> Vec<F> {
            points(self.size(j), j)
        }
        /// A proof that opens the data truthfully at the given places.
        fn open(&self, at: &[usize]) -> Proof<F> {
            let trees: Vec<MerkleTree<F>> = self.vals.iter().map(|v| MerkleTree::new(v.clone())).collect();
            let decommitment_list = at
                .iter()
                .map(|c| {
                    let mut d = Decommitment { evaluations: vec![], auth_paths: vec![], sym_evaluations: vec![], sym_auth_paths: vec![] };
                    for (j, v) in self.vals.iter().enumerate() {
                        let n = v.len();
                        let i = c % n;
                        let s = (i + n / 2) % n;
                        d.evaluations.push(v[i]);
                        d.sym_evaluations.push(v[s]);
                        d.auth_paths.push(trees[j].generate_proof(i));
                        d.sym_auth_paths.push(trees[j].generate_proof(s));
                    }
                    d
                })
                .collect::<Vec<_>>();
            Proof {
                domain_size: self.n,
                coset: F::GENERATOR,
                number_of_queries: at.len(),
                layers_root: trees.iter().map(|t| t.root()).collect(),
                const_val: self.c,
                decommitment_list,
            }
        }
        fn log(&self) -> Vec<Absorb> {
            let p = self.open(&vec![0; self.q]);
            spy(|| check(self.hash, &p)).1
        }
        fn r(&self, j: usize) -> Option<F> {
            challenge(&self.log(), self.map.r[j])
        }
        fn queries(&self) -> Option<Vec<usize>> {
            places::<F>(&self.log(), self.map.q, self.q, |c| self.map.way.of(c))
        }
        fn all_constant(&mut self) {
            self.c = match draw(8) {
                0 | 1 => F::zero(),
                2 => F::one(),
                _ => self.rnd(),
            };
            self.vals = (0..self.layers).map(|j| vec![self.c; self.size(j)]).collect();
        }
        /// Folds honestly from layer `from` on, with the challenges as they come.
        fn fold_from(&mut self, from: usize) -> Option<()> {
            for j in from..self.layers {
                let r = self.r(j)?;
                let next = fold(&self.vals[j], &self.x(j), r);
                if j + 1 < self.layers {
                    self.vals[j + 1] = next;
                } else {
                    self.c = next[0];
                }
            }
            Some(())
        }
        fn finish(&self) -> Option<Proof<F>> {
            Some(self.open(&self.queries()?))
        }
    }

    /// The hashes the folding challenges and the query places come from, and the proof listened to.
    pub fn learn<F: PrimeField>(s: &Stmt<F>) -> Option<(Vec<usize>, usize, Proof<F>)> {
        let (m, p) = map(s)?;
        Some((m.r.iter().map(|p| p.0).collect(), m.q, p))
    }

    /// Learns from an honest proof which hash leads to which challenge.
    fn map<F: PrimeField>(s: &Stmt<F>) -> Option<(Map, Proof<F>)> {
        let p = core::guard(|| make(s)).ok()?;
        let (res, log) = spy(|| check(s.hash, &p));
        res.ok()?.ok()?;
        let layers = p.layers_root.len();
        let mut r = vec![];
        for j in 0..layers {
            let x = points::<F>(p.domain_size >> j, j);
            let fits = |k: Place| {
                let Some(r) = challenge::<F>(&log, k) else { return false };
                p.decommitment_list.iter().zip(p.decommitment_list.iter()).all(|(d, _)| {
                    let i = d.auth_paths[j].index;
                    let two = F::from(2u64).inverse().unwrap();
                    let (e, s) = (d.evaluations[j], d.sym_evaluations[j]);
                    let v = (e + s) * two + r * (e - s) * two * x[i].inverse().unwrap();
                    v == d.evaluations.get(j + 1).copied().unwrap_or(p.const_val)
                })
            };
            let mut all = (0..log.len()).flat_map(|a| (0..layers).map(move |b| (a, b)));
            r.push(all.find(|k| fits(*k))?);
        }
        let want: Vec<usize> = p.decommitment_list.iter().map(|d| d.auth_paths[0].index).collect();
        let drawn: Vec<Option<Vec<usize>>> = (0..log.len()).map(|k| places::<F>(&log, k, want.len(), |c| c)).collect();
        let fits = |w: &Way| drawn.iter().position(|d| d.as_ref().map(|d| d.iter().zip(&want).all(|(c, i)| w.of(*c) == *i)) == Some(true));
        let (q, way) = Way::all(p.domain_size).into_iter().find_map(|w| Some((fits(&w)?, w)))?;
        Some((Map { r, q, way }, p))
    }

    /// A path that opens `v` at place `i` of some tree.
    fn grown<F: PrimeField>(n: usize, i: usize, v: F) -> MerkleProof<F> {
        let mut all: Vec<F> = (0..n).map(|k| F::from(k as u64)).collect();
        all[i] = v;
        MerkleTree::new(all).generate_proof(i)
    }

    /// A prover that looks for two values, or two pairs of values, with the same hash: one to
    /// commit to and one to open.
    fn two_openings<F: PrimeField>() {
        fault("byz:hash-collisions");
        let n = 1 << 15;
        let salt = draw(1 << 40);
        let base: F = field_of(combine(salt, 1));
        let step = F::from([1u64, 2, 256, 1 << 16, 1 << 32, 10_000, 1_000_000_000, 1 << 48][draw_us(8)]);
        // neighbours in one way or another, and unrelated ones
        let all: Vec<F> = (0..n)
            .map(|i| if i < n / 4 { base + step * F::from(i as u64) } else { field_of(combine(salt, i as u64)) })
            .collect();
        let tree = MerkleTree::new(all.clone());
        for level in 0..2 {
            let mut seen: HashMap<F, usize> = HashMap::new();
            for i in (0..n).step_by(1 << level) {
                // the node over place i is the neighbour of the one beside it
                let beside = i ^ (1 << level);
                let node = tree.generate_proof(beside).parts_mut().0[level];
                if let Some(k) = seen.insert(node, i) {
                    if all[k..k + (1 << level)] == all[i..i + (1 << level)] {
                        continue;
                    }
                    // the path from place k with the values of place i
                    let mut p = tree.generate_proof(k);
                    p.leaf_val = all[i];
                    if level == 1 {
                        p.parts_mut().0[0] = tree.generate_proof(i).parts_mut().0[0];
                    }
                    if verify_merkle_proof(&p) {
                        return violation("two-openings", format!("{} and {} at place {k} of a tree of {n} (level {level})", all[k], all[i]));
                    }
                }
            }
        }
        verdict("no-collision");
    }

    fn attack<F: PrimeField>(f: &mut Forger<F>) -> Option<(Proof<F>, String)> {
        let j = draw_us(f.layers);
        let bound = 1usize << f.layers;
        Some(match draw(21) {
            19 | 20 => {
                // high powers that cancel if two folding challenges are related, or one is guessed
                let (a, b) = (draw_us(f.layers), draw_us(f.layers));
                let k = [F::one(), F::from(2u64), -F::one(), F::zero()][draw_us(4)];
                let what = if a == b { "guessed" } else { "related" };
                let top = (f.n - 1) / bound;
                if top < 2 {
                    return None;
                }
                let d = range(1, top as u64 - 1);
                f.all_constant();
                let c = f.c;
                f.vals[0] = f
                    .x(0)
                    .iter()
                    .map(|x| {
                        let other = if a == b { F::one() } else { x.pow([1u64 << b]) };
                        c + x.pow([d * bound as u64]) * (x.pow([1u64 << a]) - k * other)
                    })
                    .collect();
                f.fold_from(0)?;
                (f.finish()?, format!("cancelling:{what}:{a}:{b}"))
            }
            0 => {
                f.all_constant();
                f.vals[0] = f.garbage(f.n);
                f.fold_from(0)?;
                (f.finish()?, "garbage".into())
            }
            1 => {
                // degree just above, or far above, what the layers allow
                let d = if chance(1, 2) { bound } else { range(bound as u64, f.n as u64 - 1) as usize };
                let mut c = f.garbage(d + 1);
                if chance(1, 2) {
                    c.iter_mut().take(d).for_each(|x| *x = F::zero());
                }
                f.all_constant();
                f.vals[0] = f.x(0).iter().map(|x| c.iter().rev().fold(F::zero(), |a, k| a * x + k)).collect();
                f.fold_from(0)?;
                (f.finish()?, format!("degree:{d}/{bound}"))
            }
            2 | 3 | 4 => {
                // layer j chosen after its folding challenge (as believed) is known
                f.all_constant();
                let what;
                let r = match draw(4) {
                    0 | 1 => {
                        what = "own";
                        f.r(j)?
                    }
                    2 => {
                        what = "other";
                        let log = f.log();
                        let d = if chance(1, 2) { 0 } else { draw_us(f.layers) };
                        challenge(&log, (draw_us(log.len().max(1)), d))?
                    }
                    _ => {
                        what = "constant";
                        F::from(draw(3))
                    }
                };
                // e + x o with e + r o = c
                let h = f.size(j) / 2;
                let x = f.x(j);
                let c = f.c;
                for i in 0..h {
                    let (e, o) = match r.inverse() {
                        Some(k) => {
                            let e = f.rnd();
                            (e, (c - e) * k)
                        }
                        None => (c, f.rnd()),
                    };
                    f.vals[j][i] = e + x[i] * o;
                    f.vals[j][i + h] = e - x[i] * o;
                }
                (f.finish()?, format!("late-layer:{j}:{what}"))
            }
            5 | 6 | 7 => {
                // garbage wherever the queries are not believed to fall
                f.all_constant();
                let log = f.log();
                let k = if chance(2, 3) { f.map.q } else { draw_us(log.len().max(1)) };
                let at = places::<F>(&log, k, f.q, |c| f.map.way.of(c))?;
                let n = f.size(j);
                let mut free = vec![true; n];
                for a in &at {
                    free[a % n] = false;
                    free[(a % n + n / 2) % n] = false;
                }
                if free.iter().filter(|x| **x).count() * 5 < n * 2 {
                    return None;
                }
                for i in 0..n {
                    if free[i] {
                        f.vals[j][i] = f.rnd();
                    }
                }
                (f.finish()?, format!("known-queries:{j}"))
            }
            8 => {
                // layer j+1 is not the fold of layer j
                if f.layers < 2 {
                    return None;
                }
                let j = draw_us(f.layers - 1);
                let c = f.garbage(bound);
                f.all_constant();
                f.vals[0] = f.x(0).iter().map(|x| c.iter().rev().fold(F::zero(), |a, k| a * x + k)).collect();
                f.fold_from(0)?;
                let c = f.garbage((bound >> (j + 1)).max(1));
                f.vals[j + 1] = f.x(j + 1).iter().map(|x| c.iter().rev().fold(F::zero(), |a, k| a * x + k)).collect();
                f.fold_from(j + 1)?;
                (f.finish()?, format!("wrong-fold:{j}"))
            }
            9 | 10 | 11 => {
                // one layer committed to is garbage; the openings show other values
                f.all_constant();
                let good = f.vals[j].clone();
                f.vals[j] = f.garbage(good.len());
                let lie = MerkleTree::new(good);
                let at = f.queries()?;
                let mut p = f.open(&at);
                let root = p.layers_root[j];
                let how = draw(5);
                let side = draw(4);
                for d in p.decommitment_list.iter_mut() {
                    for s in 0..2 {
                        // a liar about one side only commits honestly to nothing else
                        let (e, path) = if s == 0 { (&mut d.evaluations[j], &mut d.auth_paths[j]) } else { (&mut d.sym_evaluations[j], &mut d.sym_auth_paths[j]) };
                        let i = path.index;
                        *e = f.c;
                        match how {
                            0 => {}
                            1 => path.leaf_val = f.c,
                            2 => *path = lie.generate_proof(i),
                            3 => {
                                *path = lie.generate_proof(i);
                                *path.parts_mut().1 = root;
                            }
                            _ => {
                                path.leaf_val = f.c;
                                let (h, r) = path.parts_mut();
                                if side == 0 {
                                    h.clear();
                                    *r = root;
                                } else if side == 1 {
                                    h.pop();
                                } else {
                                    h.clear();
                                }
                            }
                        }
                    }
                }
                (p, format!("lying-openings:{j}:{how}"))
            }
            12 => {
                // all queries answered at one good place
                f.all_constant();
                let n = f.size(j);
                let g = draw_us(n / 2);
                let c = f.c;
                f.vals[j] = f.garbage(n);
                f.vals[j][g] = c;
                f.vals[j][g + n / 2] = c;
                let at = f.queries()?;
                let fake = chance(1, 2);
                let mut p = f.open(&at);
                let t = MerkleTree::new(f.vals[j].clone());
                for d in p.decommitment_list.iter_mut() {
                    let (a, b) = (t.generate_proof(g), t.generate_proof(g + n / 2));
                    let (i, s) = (d.auth_paths[j].index, d.sym_auth_paths[j].index);
                    d.evaluations[j] = c;
                    d.sym_evaluations[j] = c;
                    d.auth_paths[j] = a;
                    d.sym_auth_paths[j] = b;
                    if fake {
                        d.auth_paths[j].index = i;
                        d.sym_auth_paths[j].index = s;
                    }
                }
                (p, format!("one-good-place:{j}:{fake}"))
            }
            13 => {
                // one side of each pair fitted to the folding equation
                f.all_constant();
                f.vals[j] = f.garbage(f.size(j));
                let r = f.r(j)?;
                let x = f.x(j);
                let at = f.queries()?;
                let mut p = f.open(&at);
                let (sym, leaf, tree) = (chance(1, 2), chance(1, 2), chance(1, 2));
                for d in p.decommitment_list.iter_mut() {
                    let w = x[d.auth_paths[j].index];
                    let two = F::from(2u64);
                    if sym {
                        let k = (r - w).inverse()?;
                        let v = ((r + w) * d.evaluations[j] - two * w * f.c) * k;
                        d.sym_evaluations[j] = v;
                        if tree {
                            d.sym_auth_paths[j] = grown(f.size(j), d.sym_auth_paths[j].index, v);
                        } else if leaf {
                            d.sym_auth_paths[j].leaf_val = v;
                        }
                    } else {
                        let k = (r + w).inverse()?;
                        let v = ((r - w) * d.sym_evaluations[j] + two * w * f.c) * k;
                        d.evaluations[j] = v;
                        if tree {
                            d.auth_paths[j] = grown(f.size(j), d.auth_paths[j].index, v);
                        } else if leaf {
                            d.auth_paths[j].leaf_val = v;
                        }
                    }
                }
                (p, format!("fitted-{}:{j}:{leaf}", if sym { "sym" } else { "value" }))
            }
            14 => {
                // no query, or queries that are not answered
                f.all_constant();
                f.vals[0] = f.garbage(f.n);
                f.fold_from(0)?;
                let mut p = f.finish()?;
                match draw(3) {
                    0 => {
                        p.number_of_queries = 0;
                        p.decommitment_list.clear();
                    }
                    1 => p.decommitment_list.clear(),
                    _ => p.decommitment_list.iter_mut().for_each(|d| {
                        d.evaluations.clear();
                        d.sym_evaluations.clear();
                        d.auth_paths.clear();
                        d.sym_auth_paths.clear();
                    }),
                }
                (p, "unanswered".into())
            }
            17 | 18 => {
                // half of the places are wrong: those with some bit of the place set (or not set)
                let n = f.size(j);
                if f.q < 40 || n < 4 {
                    return None;
                }
                let top = (n / 2).ilog2() as usize;
                let b = if chance(1, 2) { top - 1 } else { draw_us(top) };
                let set = draw_us(2);
                f.all_constant();
                for i in 0..n / 2 {
                    if (i >> b) & 1 == set {
                        f.vals[j][i] = f.rnd();
                        f.vals[j][i + n / 2] = f.rnd();
                    }
                }
                (f.finish()?, format!("half-wrong:{j}:{b}:{set}"))
            }
            15 => {
                // folded until one value is left
                let all = f.n.ilog2() as usize;
                let learnt = f.layers;
                f.layers = all;
                let last = f.map.r[learnt - 1];
                while f.map.r.len() < all {
                    let k = f.map.r.len() - learnt + 1;
                    f.map.r.push((last.0 + k, last.1));
                }
                f.map.q += all - learnt;
                f.all_constant();
                f.vals[0] = f.garbage(f.n);
                f.fold_from(0)?;
                (f.finish()?, "folded-away".into())
            }
            _ => {
                // layers left out
                if f.layers < 2 {
                    return None;
                }
                let c = f.garbage(bound);
                f.all_constant();
                f.vals[0] = f.x(0).iter().map(|x| c.iter().rev().fold(F::zero(), |a, k| a * x + k)).collect();
                f.fold_from(0)?;
                let mut p = f.finish()?;
                let k = draw_us(f.layers);
                p.layers_root.remove(k);
                p.decommitment_list.iter_mut().for_each(|d| {
                    d.evaluations.remove(k);
                    d.sym_evaluations.remove(k);
                    d.auth_paths.remove(k);
                    d.sym_auth_paths.remove(k);
                });
                (p, format!("layer-left-out:{k}"))
            }
        })
    }

    fn go<F: PrimeField>(ent: u64) {
        let mut cases = vec![];
        for _ in 0..range(1, 3) {
            let layers = range(1, 5) as usize;
            let blowup = [2, 4, 8][weighted(&[3, 2, 2])];
            let len = (1 << layers) - if layers > 1 { draw_us(1 << (layers - 1)) } else { 0 };
            let few = chance(1, 2);
            let (blowup, q) = if few { (blowup * 8, [24, 40][draw_us(2)]) } else { (blowup, 64) };
            let hash = draw(4);
            let salt = draw(1 << 40);
            let coeffs: Vec<F> = (0..len).map(|i| field_of(combine(salt, i as u64))).collect();
            let s = Stmt { coeffs, blowup, queries: q, hash };
            let Some((map, p)) = map(&s) else {
                probe("not-calibrated");
                continue;
            };
            probe("calibrated");
            let (n, layers) = (p.domain_size, p.layers_root.len());
            let mut f = Forger { hash, n, layers, q, map, salt, vals: vec![], c: F::zero() };
            if chance(1, 3) {
                // the independent prover's own honest proof
                let deg = if chance(1, 2) { 1 << layers } else { 1 };
                let c = f.garbage(deg);
                f.all_constant();
                f.vals[0] = f.x(0).iter().map(|x| c.iter().rev().fold(F::zero(), |a, k| a * x + k)).collect();
                if f.fold_from(0).is_some() {
                    if let Some(p) = f.finish() {
                        cases.push(Case::new("low-degree", format!("n={n} layers={layers} q={q} h{hash}"), Expect::Accept, move || check(hash, &p)));
                    }
                }
            }
            match core::guard(|| attack(&mut f)) {
                Ok(Some((p, name))) => {
                    fault(&format!("byz:{}", name.split(':').next().unwrap()));
                    cases.push(Case::new(name, format!("n={n} layers={layers} q={q} h{hash}"), Expect::Reject, move || check(hash, &p)));
                }
                Ok(None) => probe("attack-not-possible"),
                Err(e) => return core::violation("verifier-panics", format!("while the adversary probed it: {e} at {}", crate::exec::last_panic_place())),
            }
            cases.push(Case::new("honest", format!("n={n}"), Expect::Accept, move || check(hash, &p)));
        }
        arena::run(cases, ent);
    }

    pub fn run(ent: u64) {
        if chance(1, 60) {
            if chance(1, 3) {
                two_openings::<ark_bls12_381::Fr>()
            } else {
                two_openings::<fri::fields::goldilocks::Fq>()
            }
        }
        if chance(1, 6) {
            go::<ark_bls12_381::Fr>(ent)
        } else {
            go::<fri::fields::goldilocks::Fq>(ent)
        }
    }
}
