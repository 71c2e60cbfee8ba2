//! C20: Fiat-Shamir transcripts.
//!
//! Three kinds of worlds: parties that absorb message histories and draw challenges (histories that
//! agree, and histories that differ in one place); verifiers listened to while one message of an
//! honest proof is changed; provers that choose a message after the challenge it should precede.

use super::arena::{self, Case, Expect};
use super::byz::{Attack, Forger, Hyp, Target};
use super::circ;
use super::nova::{other_point, other_scalar, system, Pair};
use super::plonk::{clone_proof, commit_mut, scalar_mut, Plonk, Stmt};
use super::proc::{self, hex, unhex};
use super::session::swarm;
use crate::core::{self, chance, combine, draw, draw_fr, draw_us, fault, field_of, fr_of, guard, probe, range, trace, verdict, violation, weighted};
use crate::hash::{spy, Absorb, Preset};
use crate::sched::{guard_in_task, Fail, Sim};
use crate::seam;
use crate::with_hash;
use ark_bls12_381::{Fr, G1Affine};
use ark_ec::AffineRepr;
use ark_ff::{One, PrimeField, Zero};
use fri::fields::goldilocks::Fq as Gold;
use kzg::commitment::KzgCommitment;
use kzg::srs::Srs;
use plonk::prover::generate_proof;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Msg {
    Point(G1Affine),
    Scalar(Fr),
    Gold(Gold),
}
impl Msg {
    fn text(&self) -> String {
        match self {
            Msg::Point(p) => format!("p{}", hex(p)),
            Msg::Scalar(f) => format!("s{}", hex(f)),
            Msg::Gold(f) => format!("g{}", hex(f)),
        }
    }
    fn of(s: &str) -> Msg {
        match &s[..1] {
            "p" => Msg::Point(unhex(&s[1..])),
            "s" => Msg::Scalar(unhex(&s[1..])),
            _ => Msg::Gold(unhex(&s[1..])),
        }
    }
}
#[derive(Clone, PartialEq, Debug)]
enum Op {
    Absorb(Msg),
    /// how, how many
    Draw(u64, usize),
}
impl Op {
    fn text(&self) -> String {
        match self {
            Op::Absorb(m) => m.text(),
            Op::Draw(k, n) => format!("d{k}:{n}"),
        }
    }
    fn of(s: &str) -> Op {
        match s.strip_prefix('d').and_then(|t| t.split_once(':')) {
            Some((k, n)) => Op::Draw(k.parse().unwrap(), n.parse().unwrap()),
            None => Op::Absorb(Msg::of(s)),
        }
    }
}

/// A challenge generator of one of the proof systems.
trait Gen: Send {
    fn absorb(&mut self, m: &Msg);
    fn draw(&mut self, how: u64, n: usize) -> Vec<String>;
    fn twin(&self) -> Box<dyn Gen>;
}
fn texts<F: std::fmt::Debug>(v: &[F]) -> Vec<String> {
    v.iter().map(|f| format!("{f:?}")).collect()
}

#[cfg(zkp_sim)]
struct P<T: digest::Digest + Default>(plonk::challenge::ChallengeGenerator<T>);
#[cfg(zkp_sim)]
impl<T: digest::Digest + Default + Clone + Send + 'static> Gen for P<T> {
    fn absorb(&mut self, m: &Msg) {
        let Msg::Point(p) = m else { panic!("HARNESS message") };
        self.0.feed(&KzgCommitment(*p))
    }
    fn draw(&mut self, _: u64, n: usize) -> Vec<String> {
        match n {
            1 => texts(&self.0.generate_challenges::<1>()),
            2 => texts(&self.0.generate_challenges::<2>()),
            _ => texts(&self.0.generate_challenges::<5>()),
        }
    }
    fn twin(&self) -> Box<dyn Gen> {
        Box::new(P(self.0.clone()))
    }
}
struct N<T: digest::Digest + Default>(nova::transcript::Transcript<T>);
impl<T: digest::Digest + Default + Clone + Send + 'static> Gen for N<T> {
    fn absorb(&mut self, m: &Msg) {
        match m {
            Msg::Point(p) => self.0.feed(&KzgCommitment(*p)),
            Msg::Scalar(f) => self.0.feed_scalar_num(*f),
            _ => panic!("HARNESS message"),
        }
    }
    fn draw(&mut self, _: u64, n: usize) -> Vec<String> {
        match n {
            1 => texts(&self.0.generate_challenges::<1>()),
            2 => texts(&self.0.generate_challenges::<2>()),
            _ => texts(&self.0.generate_challenges::<5>()),
        }
    }
    fn twin(&self) -> Box<dyn Gen> {
        Box::new(N(self.0.clone()))
    }
}
struct F<T: digest11::Digest + Default, K: PrimeField>(fri::fiat_shamir::transcript::Transcript<T, K>, fn(&Msg) -> K);
impl<T: digest11::Digest + Default + Clone + Send + 'static, K: PrimeField> Gen for F<T, K> {
    fn absorb(&mut self, m: &Msg) {
        self.0.digest((self.1)(m))
    }
    fn draw(&mut self, how: u64, n: usize) -> Vec<String> {
        match how {
            0 => texts(&[self.0.generate_a_challenge()]),
            1 => texts(&self.0.generate_challenges(n)),
            _ => texts(&self.0.generate_challenge_list_usize(n)),
        }
    }
    fn twin(&self) -> Box<dyn Gen> {
        Box::new(F(self.0.clone(), self.1))
    }
}
fn gold(m: &Msg) -> Gold {
    match m {
        Msg::Gold(g) => *g,
        _ => panic!("HARNESS message"),
    }
}
fn scalar(m: &Msg) -> Fr {
    match m {
        Msg::Scalar(s) => *s,
        _ => panic!("HARNESS message"),
    }
}

/// The generator after the first messages of the history, and how many they are. With `bulk`, more
/// than one where the library has a constructor for it.
fn begin(sys: u64, hash: u64, first: &[Msg], bulk: bool) -> (Box<dyn Gen>, usize) {
    with_hash!(hash, H => {
        match sys {
            #[cfg(zkp_sim)]
            0 => {
                let mut g = plonk::challenge::ChallengeGenerator::<H>::default();
                let pts: Vec<KzgCommitment> = first.iter().map_while(|m| match m { Msg::Point(p) => Some(KzgCommitment(*p)), _ => None }).collect();
                if bulk {
                    g = plonk::challenge::ChallengeGenerator::<H>::from_commitments(&pts);
                }
                (Box::new(P(g)) as Box<dyn Gen>, if bulk { pts.len() } else { 0 })
            }
            1 => (Box::new(F(fri::fiat_shamir::transcript::Transcript::<H, Gold>::new(gold(&first[0])), gold)), 1),
            2 => (Box::new(F(fri::fiat_shamir::transcript::Transcript::<H, Fr>::new(scalar(&first[0])), scalar)), 1),
            _ => {
                use nova::transcript::Transcript;
                if !bulk {
                    return (Box::new(N(Transcript::<H>::default())), 0);
                }
                match first[0] {
                    Msg::Point(_) => {
                        let pts: Vec<KzgCommitment> = first.iter().map_while(|m| match m { Msg::Point(p) => Some(KzgCommitment(*p)), _ => None }).collect();
                        (Box::new(N(Transcript::<H>::from_commitment(&pts))), pts.len())
                    }
                    _ => {
                        let s: Vec<Fr> = first.iter().map_while(|m| match m { Msg::Scalar(p) => Some(*p), _ => None }).collect();
                        (Box::new(N(Transcript::<H>::from_scalar_number(&s))), s.len())
                    }
                }
            }
        }
    })
}

/// A message of the kind the system takes; families whose members differ little.
fn message(sys: u64) -> Msg {
    let s = match weighted(&[3, 2, 2, 4]) {
        0 => Fr::from(draw(12)),
        1 => Fr::from([1u64, 11, 111, 12, 21, 112, 1112, 10, 100, 256, 65536, 1 << 32][draw_us(12)]),
        2 => -Fr::from(range(1, 3)),
        _ => draw_fr(),
    };
    match sys {
        1 => Msg::Gold(match weighted(&[3, 2, 1, 3]) {
            0 => Gold::from(draw(12)),
            1 => Gold::from([1u64, 11, 111, 12, 21, 112, 1112, 10, 100, 256, 65536, 1 << 32][draw_us(12)]),
            2 => -Gold::from(range(1, 3)),
            _ => field_of(draw(1 << 40)),
        }),
        2 => Msg::Scalar(s),
        0 => Msg::Point((G1Affine::generator() * s).into()),
        _ => match chance(1, 2) {
            true => Msg::Point((G1Affine::generator() * s).into()),
            false => Msg::Scalar(s),
        },
    }
}
fn other(m: &Msg) -> Msg {
    match m {
        Msg::Point(p) => Msg::Point(other_point(&KzgCommitment(*p)).0),
        Msg::Scalar(f) => Msg::Scalar(other_scalar(*f)),
        Msg::Gold(f) => Msg::Gold(match draw(5) {
            0 => *f + Gold::one(),
            1 => *f - Gold::one(),
            2 => -*f,
            3 => Gold::zero(),
            _ => field_of(draw(1 << 40)),
        }),
    }
}
fn draw_op(sys: u64) -> Op {
    match sys {
        1 | 2 => {
            let how = draw(3);
            Op::Draw(how, if how == 0 { 1 } else { range(1, 9) as usize })
        }
        _ => Op::Draw(0, [1, 2, 5][draw_us(3)]),
    }
}
fn script(sys: u64) -> Vec<Op> {
    let mut s = vec![Op::Absorb(message(sys))];
    for _ in 0..range(0, 10) {
        s.push(if chance(1, 4) { draw_op(sys) } else { Op::Absorb(message(sys)) });
    }
    s.push(draw_op(sys));
    if chance(1, 4) {
        s.push(draw_op(sys));
        s.push(Op::Absorb(message(sys)));
        s.push(draw_op(sys));
    }
    s
}
/// The history of a party that received something else.
fn deviate(sys: u64, s: &[Op]) -> (Vec<Op>, &'static str) {
    let mut t = s.to_vec();
    let at: Vec<usize> = (0..t.len()).filter(|i| matches!(t[*i], Op::Absorb(_))).collect();
    let i = at[draw_us(at.len())];
    let name = match draw(7) {
        0 => {
            let Op::Absorb(m) = &t[i] else { unreachable!() };
            t[i] = Op::Absorb(other(m));
            "altered"
        }
        1 => {
            if i > 0 {
                t.remove(i);
            }
            "lost"
        }
        2 => {
            let m = t[i].clone();
            t.insert(i + 1, m);
            "duplicated"
        }
        3 => {
            let j = at[draw_us(at.len())];
            t.swap(i, j);
            "reordered"
        }
        4 => {
            t.insert(i + 1, Op::Absorb(message(sys)));
            "inserted"
        }
        5 => {
            // nothing differs but where challenges are drawn
            t.insert(i + 1, draw_op(sys));
            "drawn-more-often"
        }
        _ => {
            let j = (i + 1).min(at.len() - 1);
            t.swap(i, at[j]);
            "reordered"
        }
    };
    (t, name)
}

#[derive(Clone)]
struct Rec {
    history: String,
    how: u64,
    n: usize,
    out: Vec<String>,
}
struct Mark {
    at: usize,
    g: Box<dyn Gen>,
    recs: Vec<Rec>,
    fed: bool,
    history: String,
}
fn messages(ops: &[Op]) -> Vec<Msg> {
    ops.iter().map_while(|o| match o { Op::Absorb(m) => Some(*m), _ => None }).collect()
}
/// Runs a party's history from the start or from a mark. `Err`: the property is violated.
fn perform(sys: u64, hash: u64, ops: &[Op], bulk: bool, from: Option<Mark>, mut mark: impl FnMut(usize) -> bool, mut keep: impl FnMut(Mark)) -> Result<Vec<Rec>, (String, String)> {
    let mut m = match from {
        Some(m) => m,
        None => {
            let first = messages(ops);
            let (g, at) = guard_in_task(|| begin(sys, hash, &first, bulk)).map_err(|e| ("construction-panics".to_string(), e))?;
            let history = ops[..at].iter().map(|o| o.text() + ",").collect();
            Mark { at, g, recs: vec![], fed: at > 0, history }
        }
    };
    while m.at < ops.len() {
        match &ops[m.at] {
            Op::Absorb(x) => {
                guard_in_task(|| m.g.absorb(x)).map_err(|e| ("absorbing-panics".to_string(), e))?;
                m.history += &(x.text() + ",");
                m.fed = true;
            }
            Op::Draw(how, n) => {
                let r = guard_in_task(|| m.g.draw(*how, *n));
                match (m.fed, r) {
                    (true, Ok(out)) => {
                        if out.len() != *n {
                            return Err(("wrong-number".into(), format!("{} instead of {n}", out.len())));
                        }
                        for (i, a) in out.iter().enumerate() {
                            if out[..i].contains(a) {
                                return Err(("repeated-value".into(), format!("draw of {n} gives {a} twice")));
                            }
                        }
                        m.recs.push(Rec { history: m.history.clone(), how: *how, n: *n, out });
                    }
                    (false, Err(_)) => {}
                    (true, Err(e)) => return Err(("drawing-panics".into(), e)),
                    (false, Ok(out)) => return Err(("drawn-without-new-data".into(), out.join(" "))),
                }
                m.fed = false;
            }
        }
        m.at += 1;
        if mark(m.at) {
            keep(Mark { at: m.at, g: m.g.twin(), recs: m.recs.clone(), fed: m.fed, history: m.history.clone() });
        }
    }
    Ok(m.recs)
}

struct Party {
    sys: u64,
    hash: u64,
    ops: Vec<Op>,
    bulk: bool,
    name: String,
    mark: Arc<Mutex<Option<Mark>>>,
    done: Option<Vec<Rec>>,
}
struct World {
    parties: Vec<Party>,
    inc: u64,
    up: Vec<bool>,
    ent: u64,
    mode: u8,
    calm: bool,
    from_mark: bool,
}
fn go(s: &mut Sim<World>, i: usize) {
    if s.w.parties[i].done.is_some() || !s.w.up[i] {
        return;
    }
    s.w.inc += 1;
    let p = &s.w.parties[i];
    let (sys, hash, ops, bulk, store) = (p.sys, p.hash, p.ops.clone(), p.bulk, p.mark.clone());
    let mut e = seam::ent(combine(combine(s.w.ent, s.w.inc), i as u64));
    e.mode = s.w.mode;
    let from = if s.w.from_mark { store.lock().unwrap().take() } else { None };
    if from.is_some() {
        fault("restart:from-checkpoint");
    }
    // where checkpoints are taken
    let marks: Vec<bool> = (0..=ops.len()).map(|_| chance(1, 3)).collect();
    trace(format!("party{i} starts"));
    s.spawn(
        i,
        format!("party{i}"),
        e,
        move || {
            perform(sys, hash, &ops, bulk, from, |at| marks[at], |m| {
                let was = seam::enter_harness();
                *store.lock().unwrap() = Some(m);
                seam::leave_harness(was);
            })
        },
        move |s, r| match r {
            Err(Fail::Crashed) => {}
            Err(Fail::Panicked(e)) => violation("panic", e),
            Ok(Err((class, what))) => violation(class, format!("{}: {what}", s.w.parties[i].name)),
            Ok(Ok(recs)) => {
                trace(format!("party{i} has {} challenges", recs.len()));
                s.w.parties[i].done = Some(recs);
            }
        },
    );
}
fn crash(s: &mut Sim<World>, i: usize, d: u64) {
    if s.w.calm || !s.w.up[i] || s.w.parties[i].done.is_some() {
        return;
    }
    fault(if s.busy(i) { "crash:in-operation" } else { "crash:idle" });
    trace(format!("crash party{i}"));
    s.w.up[i] = false;
    s.crash(i);
    s.after(d, move |s| {
        s.w.up[i] = true;
        go(s, i);
    });
}
const SYS: [&str; 4] = ["plonk", "fri64", "fri255", "nova"];

fn histories(ent: u64) {
    let mode = swarm(true);
    if mode > 0 {
        fault("entropy:degenerate");
    }
    let mut parties: Vec<Party> = vec![];
    let systems: Vec<u64> = if cfg!(zkp_sim) { vec![0, 1, 2, 3] } else { vec![1, 2, 3] };
    for _ in 0..range(1, 2) {
        let sys = systems[draw_us(systems.len())];
        let hash = draw(4);
        let base = script(sys);
        for k in 0..range(2, 4) {
            let (ops, dev) = match k > 0 && chance(1, 2) {
                true => deviate(sys, &base),
                false => (base.clone(), "same"),
            };
            if dev != "same" {
                fault(&format!("net:{dev}"));
            }
            let name = format!("{} h{hash} {dev} {}", SYS[sys as usize], ops.len());
            core::key(&format!("{name} {}", ops.iter().map(|o| o.text()).collect::<Vec<_>>().join(" ")));
            parties.push(Party { sys, hash, ops, bulk: chance(1, 2), name, mark: Default::default(), done: None });
        }
    }
    let n = parties.len();
    // one party in another process
    if chance(1, 8) {
        let i = draw_us(n);
        let p = &parties[i];
        let mut e = seam::ent(combine(ent, 77));
        e.mode = draw(3) as u8;
        let w = proc::World { ent: e, now: draw(1 << 40), skew: draw(1 << 60), eintr: 0, short: 0 };
        let ops = p.ops.iter().map(|o| o.text()).collect::<Vec<_>>().join(",");
        let a = [("sys", p.sys.to_string()), ("hash", p.hash.to_string()), ("bulk", (p.bulk as u64).to_string()), ("ops", ops)];
        fault("restart:other-process");
        match proc::incarnation("absorb", &w, &a) {
            Err(e) => return violation("process-died", format!("{}: {e}", parties[i].name)),
            Ok(a) => {
                let mut recs = vec![];
                for (k, v) in a.lines {
                    if k == "bad" {
                        return violation("in-process", v);
                    }
                    let f: Vec<&str> = v.split('|').collect();
                    recs.push(Rec {
                        history: f[0].into(),
                        how: f[1].parse().unwrap(),
                        n: f[2].parse().unwrap(),
                        out: f[3].split(';').map(|x| x.to_string()).collect(),
                    });
                }
                parties[i].done = Some(recs);
            }
        }
    }
    let mut s = Sim::new(World { parties, inc: 0, up: vec![true; n], ent, mode, calm: false, from_mark: chance(1, 2) });
    for i in 0..n {
        let d = range(1, 60);
        s.after(d, move |s| go(s, i));
    }
    for _ in 0..[0, 1, 2, 4][draw_us(4)] {
        let (t, i, d) = (range(1, 120), draw_us(n), range(1, 60));
        s.after(t, move |s| crash(s, i, d));
    }
    s.after(400, |s| {
        s.w.calm = true;
        trace("faults stop");
    });
    let done = s.run(20_000, |s| s.w.parties.iter().all(|p| p.done.is_some()));
    if core::violated() {
        return;
    }
    if !done || s.w.parties.iter().any(|p| p.done.is_none()) {
        return violation("no-progress", "a party never finished");
    }
    judge(&s.w.parties);
}
fn judge(parties: &[Party]) {
    let all: Vec<(usize, &Rec)> = parties.iter().enumerate().flat_map(|(i, p)| p.done.as_ref().unwrap().iter().map(move |r| (i, r))).collect();
    for (x, (i, a)) in all.iter().enumerate() {
        for (j, b) in &all[..x] {
            let (p, q) = (&parties[*i], &parties[*j]);
            if (p.sys, p.hash) != (q.sys, q.hash) {
                continue;
            }
            if a.history == b.history {
                if (a.how, a.n) != (b.how, b.n) {
                    continue;
                }
                verdict("same-history");
                if a.out != b.out {
                    return violation("same-history-other-challenge", format!("{} / {}: {} / {}", p.name, q.name, a.out[0], b.out[0]));
                }
            } else {
                // values of different kinds cannot be equal
                if (a.how == 2) != (b.how == 2) {
                    continue;
                }
                verdict("other-history");
                if let Some(v) = a.out.iter().find(|v| b.out.contains(v)) {
                    return violation(
                        "other-history-same-challenge",
                        format!("{} / {}: {v} after {} and {}", p.name, q.name, a.history, b.history),
                    );
                }
            }
        }
    }
}
pub fn child(kv: &std::collections::BTreeMap<String, String>) -> String {
    let n = |k: &str| kv[k].parse::<u64>().unwrap();
    let ops: Vec<Op> = kv["ops"].split(',').map(Op::of).collect();
    match perform(n("sys"), n("hash"), &ops, n("bulk") == 1, None, |_| false, |_| ()) {
        Ok(r) => r.iter().map(|r| format!("rec {}|{}|{}|{}\n", r.history, r.how, r.n, r.out.join(";"))).collect(),
        Err((c, e)) => format!("bad {c}: {}\n", crate::exec::esc(&e)),
    }
}

fn digests(l: &[Absorb]) -> Vec<Vec<u8>> {
    l.iter().map(|a| a.digest.clone()).collect()
}
const GROUP: [usize; 15] = [0, 0, 0, 1, 2, 2, 2, 3, 3, 3, 3, 3, 3, 4, 4];
const NAMES: [&str; 15] = ["a", "b", "c", "z", "t_lo", "t_mid", "t_hi", "bar_a", "bar_b", "bar_c", "bar_s1", "bar_s2", "bar_zw", "w_z", "w_zw"];

/// What the generators make of a digest: enough of it, so that different histories do not meet in
/// the same challenge by chance.
fn digest_used(cases: &mut Vec<Case>) {
    let systems: Vec<u64> = if cfg!(zkp_sim) { vec![0, 1, 2, 3] } else { vec![1, 2, 3] };
    for _ in 0..range(1, 2) {
        let sys = systems[draw_us(systems.len())];
        let msgs: Vec<Msg> = (0..range(1, 3)).map(|_| message(sys)).collect();
        let Op::Draw(how, n) = draw_op(sys) else { return };
        let salt = draw(1 << 40);
        fault("hash:chosen-digest");
        let detail = format!("{} how={how} n={n}", SYS[sys as usize]);
        cases.push(Case::new("digest-used", detail, Expect::Accept, move || {
            let out = |d: &[u8; 32]| {
                Preset::with(d, || {
                    let (mut g, at): (Box<dyn Gen>, usize) = match sys {
                        #[cfg(zkp_sim)]
                        0 => (Box::new(P(plonk::challenge::ChallengeGenerator::<Preset>::default())), 0),
                        1 => (Box::new(F(fri::fiat_shamir::transcript::Transcript::<Preset, Gold>::new(gold(&msgs[0])), gold)), 1),
                        2 => (Box::new(F(fri::fiat_shamir::transcript::Transcript::<Preset, Fr>::new(scalar(&msgs[0])), scalar)), 1),
                        _ => (Box::new(N(nova::transcript::Transcript::<Preset>::default())), 0),
                    };
                    for m in &msgs[at..] {
                        g.absorb(m);
                    }
                    g.draw(how, n)
                })
            };
            let of = |k: u64| {
                let mut d = [0u8; 32];
                for i in 0..4 {
                    d[8 * i..8 * i + 8].copy_from_slice(&combine(combine(salt, k), i as u64).to_le_bytes());
                }
                d
            };
            let base = of(0);
            let honest = out(&base);
            let used: Vec<usize> = (0..256)
                .filter(|b| {
                    let mut d = base;
                    d[b / 8] ^= 1 << (b % 8);
                    let o = out(&d);
                    (0..honest.len()).all(|i| o[i] != honest[i])
                })
                .collect();
            if used.len() < 56 {
                return Err(format!("only {} bits of the digest reach every challenge", used.len()));
            }
            if (1..20).all(|k| out(&of(k)).iter().all(|o| o.len() < 17)) {
                return Err("all challenges are small".into());
            }
            Ok(())
        }));
    }
}

/// The verifier of PLONK hears every message, group after group.
fn plonk_binds(cases: &mut Vec<Case>) {
    let d = circ::random(4);
    let hash = draw(4);
    let secret = fr_of(draw(u64::MAX));
    let st = Arc::new(Stmt { srs: Srs::new_from_secret(secret, d.size() + 8), desc: d, secret, hash });
    let p = match guard(|| {
        let cc = st.desc.compile();
        with_hash!(hash, H => generate_proof::<H>(&cc, st.srs.clone()))
    }) {
        Ok(p) => p,
        Err(e) => return violation("proving-panics", e),
    };
    // some messages, once each
    let salt = draw(1 << 30);
    let change = move |p: &plonk::prover::Proof, k: usize| {
        let mut q = clone_proof(p);
        let d = fr_of(combine(salt, k as u64));
        match k {
            0..=6 | 13 | 14 => {
                let c = commit_mut(&mut q, if k > 6 { k - 6 } else { k });
                *c = KzgCommitment((c.0 + G1Affine::generator() * d).into());
            }
            _ => *scalar_mut(&mut q, k - 7) += d,
        }
        q
    };
    let (s2, p2) = (st.clone(), clone_proof(&p));
    fault("byz:one-message-changed");
    cases.push(Case::new("plonk-messages-bound", st.desc.show(), Expect::Accept, move || {
        let log = |p: &_| digests(&spy(|| Plonk::check(&s2, p)).1);
        let honest = log(&p2);
        let mut first = vec![];
        for k in 0..15 {
            let l = log(&change(&p2, k));
            if l.len() != honest.len() {
                first.push(None);
                continue;
            }
            match (0..l.len()).find(|i| l[*i] != honest[*i]) {
                None => return Err(format!("{} changes no challenge", NAMES[k])),
                Some(i) => {
                    if l[i..].iter().zip(&honest[i..]).any(|(a, b)| a == b) {
                        return Err(format!("{} is forgotten by a later challenge", NAMES[k]));
                    }
                    first.push(Some(i))
                }
            }
        }
        for a in 0..15 {
            for b in 0..15 {
                if let (Some(x), Some(y)) = (first[a], first[b]) {
                    if GROUP[a] < GROUP[b] && x >= y {
                        return Err(format!("{} is heard after {}", NAMES[a], NAMES[b]));
                    }
                }
            }
        }
        Ok(())
    }));
    statement_binds(cases, st, p);
}
/// Every challenge of PLONK depends on the statement.
fn statement_binds(cases: &mut Vec<Case>, st: Arc<Stmt>, p: plonk::prover::Proof) {
    let (secret, hash) = (st.secret, st.hash);
    let mut d2 = st.desc.clone();
    let r = draw_us(d2.gates.len());
    let what = match weighted(&[3, 3, 3, 2, 6]) {
        3 => {
            d2 = circ::near_miss(&st.desc);
            "near-miss"
        }
        4 => {
            // the same gates, linked otherwise in one column
            let col = draw_us(3);
            let mut d1 = st.desc.clone();
            let v = d1.vals.len();
            d1.vals.extend([Fr::zero(); 3]);
            let at = d1.gates.len();
            for _ in 0..4 {
                d1.gates.push((circ::Kind::Const, [v; 3], Fr::zero(), Fr::zero()));
            }
            d2 = d1.clone();
            for (i, (a, b)) in [(1, 1), (1, 2), (2, 2), (2, 1)].into_iter().enumerate() {
                d1.gates[at + i].1[col] = v + a;
                d2.gates[at + i].1[col] = v + b;
            }
            let srs = Srs::new_from_secret(secret, d2.size() + 8);
            let (a, b) = (Stmt { desc: d1, secret, srs: srs.clone(), hash }, Stmt { desc: d2, secret, srs, hash });
            return statements_differ(cases, Arc::new(a), b, format!("links-of-column-{col}"), p);
        }
        0 => {
            d2.gates[r].2 += Fr::one();
            "public-input"
        }
        1 if d2.gates[r].0 == circ::Kind::Const => {
            d2.gates[r].3 += Fr::one();
            "constant"
        }
        _ => {
            d2.gates[r].0 = if d2.gates[r].0 == circ::Kind::Add { circ::Kind::Mul } else { circ::Kind::Add };
            "gate"
        }
    };
    let other = Stmt { desc: d2, secret, srs: st.srs.clone(), hash };
    statements_differ(cases, st, other, what.to_string(), p)
}
fn statements_differ(cases: &mut Vec<Case>, st: Arc<Stmt>, other: Stmt, what: String, p: plonk::prover::Proof) {
    // do they differ for the library, too?
    let rows = |s: &Stmt| {
        guard(|| {
            let r = super::expr::Rows::of(&s.desc.compile_public());
            format!("{:?} {:?} {:?} {}", r.q, r.sigma, r.k, r.n)
        })
    };
    match (rows(&st), rows(&other)) {
        (Ok(a), Ok(b)) if a != b => {}
        _ => return probe("statement-not-compiled"),
    }
    probe(&format!("statement:{what}"));
    cases.push(Case::new("plonk-statement-bound", format!("{what} {}", st.desc.show()), Expect::Accept, move || {
        let log = |s: &_| digests(&spy(|| Plonk::check(s, &p)).1);
        let (a, b) = (log(&st), log(&other));
        // challenges come from the last messages on
        match a.iter().rev().zip(b.iter().rev()).take(15).any(|(x, y)| x == y) {
            true => Err("a challenge does not depend on the statement".into()),
            false => Ok(()),
        }
    }));
}
/// A PLONK message chosen after the challenge that should depend on it, in an otherwise right proof
/// of something false.
fn plonk_late(cases: &mut Vec<Case>) {
    use super::circ::Kind;
    let mut d = circ::random(3);
    let v = draw_us(d.vals.len());
    let k = d.vals[v];
    for c in [k, k + Fr::from(range(1, 3))] {
        d.gates.push((Kind::Const, [v, v, v], Fr::zero(), c));
    }
    let x = [0, 1, 2].map(|c| d.gates.iter().map(|g| d.vals[g.1[c]]).collect::<Vec<_>>());
    let hash = draw(4);
    let secret = fr_of(draw(u64::MAX));
    let k = 3 + draw_us(12);
    let srs = Srs::new_from_secret(secret, d.size() + 8);
    let st = Stmt { desc: d.clone(), secret, srs: srs.clone(), hash };
    let Ok(cc) = guard(|| d.compile_public()) else { return };
    let check = |p: &_| with_hash!(hash, H => plonk::verifier::verify::<H>(&cc, srs.clone(), clone_proof(p)));
    let mut f = Forger::new(Target { cc: &cc, srs: srs.clone(), check: &check });
    let Ok(Some(p)) = guard(|| f.forge(&x, &Hyp::right(), &Attack::Late(k), None)) else {
        probe("forger:stuck");
        return;
    };
    fault("byz:message-after-challenge");
    cases.push(Case::new(format!("plonk-late:{}", NAMES[k]), d.show(), Expect::Reject, move || Plonk::check(&st, &p)).tolerant());
}

#[cfg(zkp_sim)]
fn fri_binds<K: PrimeField>(cases: &mut Vec<Case>) {
    use super::c13::learn;
    use super::fri::{check, Stmt};
    let layers = range(1, 5) as usize;
    let len = (1 << layers) - if layers > 1 { draw_us(1 << (layers - 1)) } else { 0 };
    let salt = draw(1 << 40);
    let hash = draw(4);
    let s = Stmt { coeffs: (0..len).map(|i| field_of::<K>(combine(salt, i as u64))).collect(), blowup: [16, 32][draw_us(2)], queries: 24, hash };
    let Some((r, q, p)) = learn(&s) else {
        probe("not-calibrated");
        return;
    };
    fault("byz:one-message-changed");
    let detail = format!("n={} layers={} h{hash}", p.domain_size, p.layers_root.len());
    cases.push(Case::new("fri-messages-bound", detail, Expect::Accept, move || {
        let log = |p: &fri::prover::Proof<K>| digests(&spy(|| check(hash, p)).1);
        let honest = log(&p);
        for k in 0..=p.layers_root.len() {
            let mut c = p.clone();
            let d = field_of::<K>(combine(salt, 1000 + k as u64));
            match c.layers_root.get_mut(k) {
                Some(x) => *x += d,
                None => c.const_val += d,
            }
            let l = log(&c);
            if l.len() <= q {
                continue;
            }
            let same = |i: usize| l[i] == honest[i];
            if same(q) {
                return Err(format!("the places of the queries do not depend on message {k}"));
            }
            for (j, place) in r.iter().enumerate() {
                if k <= j && same(*place) {
                    return Err(format!("the folding challenge {j} does not depend on root {k}"));
                }
                if k > j && !same(*place) {
                    return Err(format!("the folding challenge {j} depends on the later message {k}"));
                }
            }
        }
        Ok(())
    }));
}

fn nova_binds(cases: &mut Vec<Case>) {
    use nova::nifs::NIFS;
    let nx = range(1, 3) as usize;
    let sys = Arc::new(system(4, nx, true));
    let hash = draw(4);
    let pair = |_: usize| match draw(3) {
        0 => sys.plain(),
        1 => sys.relaxed(),
        _ => sys.trivial(),
    };
    let (a, b): (Pair, Pair) = (pair(0), pair(1));
    let com_t = KzgCommitment((G1Affine::generator() * draw_fr()).into());
    let history: Vec<Fr> = (0..draw(3)).map(|_| draw_fr()).collect();
    let salt = draw(1 << 40);
    let desc = sys.desc.clone();
    fault("byz:one-message-changed");
    cases.push(Case::new("nova-messages-bound", format!("{desc} h{hash}"), Expect::Accept, move || {
        let f = |k: u64| fr_of(combine(salt, k));
        let pt = |c: &mut KzgCommitment, k: u64| *c = KzgCommitment((c.0 + G1Affine::generator() * f(k)).into());
        let ask = |h: &[Fr], x: &nova::r1cs::FInstance, y: &nova::r1cs::FInstance, t: &KzgCommitment| super::nova::challenge_for(hash, h, x, y, t);
        let Some(r) = ask(&history, &a.i, &b.i, &com_t) else {
            probe_in_task("not-calibrated");
            return Ok(());
        };
        for k in 0..(9 + 2 * nx as u64) {
            let (mut x, mut y, mut t) = (a.i.clone(), b.i.clone(), com_t.clone());
            let n = nx as u64;
            let what = match k {
                0 => { pt(&mut x.com_e, k); "first com_e" }
                1 => { pt(&mut x.com_w, k); "first com_w" }
                2 => { x.u += f(k); "first u" }
                3 => { pt(&mut y.com_e, k); "second com_e" }
                4 => { pt(&mut y.com_w, k); "second com_w" }
                5 => { y.u += f(k); "second u" }
                6 => { pt(&mut t, k); "com_t" }
                7 => { (x, y) = (y, x); if x == y { continue; } "order of the instances" }
                8 => {
                    // signs are part of a point
                    if x.com_w.0.is_zero() { continue; }
                    x.com_w = KzgCommitment(-x.com_w.0);
                    "sign of first com_w"
                }
                _ if k < 9 + n => { x.x[(k - 9) as usize] += f(k); "first x" }
                _ => { y.x[(k - 9 - n) as usize] += f(k); "second x" }
            };
            // the verifier must not take the old challenge
            let old = with_hash!(hash, T => guard_in_task(|| NIFS::<T>::verify_challenge(r, &x, &y, &t, &mut super::nova::transcript::<T>(&history))));
            if matches!(old, Ok(Ok(()))) {
                return Err(format!("the folding challenge does not depend on {what}"));
            }
        }
        let mut h2 = history.clone();
        match h2.first_mut() {
            Some(x) => *x += f(99),
            None => h2.push(f(99)),
        }
        if ask(&h2, &a.i, &b.i, &com_t) == Some(r) {
            return Err("the folding challenge does not depend on what was absorbed before".into());
        }
        Ok(())
    }));
    // the opening point
    let sys2 = match chance(1, 2) {
        true => Arc::new(system(4, 1, true)),
        false => return,
    };
    let p = sys2.relaxed();
    let r = draw_fr();
    cases.push(Case::new("nova-opening-point-bound", format!("{} h{hash}", sys2.desc), Expect::Accept, move || {
        let point = |i: &nova::r1cs::FInstance| with_hash!(hash, T => NIFS::<T>::prove(r, &p.w, i, &sys2.scheme(), &mut super::nova::transcript::<T>(&[])).opening_point);
        let z = point(&p.i);
        for k in 0..2u64 {
            let mut x = p.i.clone();
            let c = if k == 0 { &mut x.com_e } else { &mut x.com_w };
            *c = KzgCommitment((c.0 + G1Affine::generator() * fr_of(combine(salt, 500 + k))).into());
            if point(&x) == z {
                return Err(format!("the opening point does not depend on {}", ["com_e", "com_w"][k as usize]));
            }
        }
        Ok(())
    }));
}
fn probe_in_task(s: &str) {
    probe(s)
}

/// One process that serves very many sessions, or one very long session.
fn marathon() {
    let systems: Vec<u64> = if cfg!(zkp_sim) { vec![0, 1, 2, 3] } else { vec![1, 2, 3] };
    let sys = systems[draw_us(systems.len())];
    let hash = draw(4);
    let n = [300, 1000, 2500][weighted(&[2, 4, 2])];
    let salt = draw(1 << 40);
    let dense = chance(1, 2);
    let how = if sys == 0 || sys == 3 { 0 } else { draw(3) };
    // neighbouring or unrelated messages
    let mut at: ark_bls12_381::G1Projective = G1Affine::generator() * fr_of(salt);
    let mut msgs = vec![];
    for i in 0..n as u64 {
        let k = if dense { i } else { combine(salt, i) };
        msgs.push(match sys {
            1 => Msg::Gold(if dense { Gold::from(k) } else { field_of(k) }),
            2 => Msg::Scalar(if dense { Fr::from(k) } else { fr_of(k) }),
            3 if i % 2 == 0 => Msg::Scalar(if dense { Fr::from(k) } else { fr_of(k) }),
            _ => {
                at += G1Affine::generator();
                Msg::Point(at.into())
            }
        });
    }
    let long = chance(1, 3);
    fault(if long { "load:long-session" } else { "load:many-sessions" });
    core::key(&format!("marathon {} h{hash} {n} {dense} {long} {how} {salt}", SYS[sys as usize]));
    let r = guard(|| -> Result<(), (&'static str, String)> {
        let mut seen: std::collections::HashMap<String, usize> = Default::default();
        if long {
            // two that stay together to the end
            let (mut g, k) = begin(sys, hash, &msgs[..1], false);
            let (mut h, _) = begin(sys, hash, &msgs[..1], false);
            for (i, m) in msgs.iter().enumerate().skip(k) {
                g.absorb(m);
                h.absorb(m);
                let (a, b) = (g.draw(how, 1), h.draw(how, 1));
                if a != b {
                    return Err(("same-history-other-challenge", format!("after {i} messages: {} / {}", a[0], b[0])));
                }
                if let Some(j) = seen.insert(a[0].clone(), i) {
                    return Err(("other-history-same-challenge", format!("{} after {j} and after {i} messages", a[0])));
                }
            }
            // one that differs long ago, and never drew
            let d = draw_us(n);
            let mut t = msgs.clone();
            t[d] = other(&t[d]);
            if t[d] == msgs[d] {
                return Ok(());
            }
            for (swap, t) in [(false, t), (true, msgs.clone())] {
                let (mut h, k) = begin(sys, hash, &t[..1], false);
                for m in &t[k..] {
                    h.absorb(m);
                }
                let b = h.draw(how, 1);
                if swap == (seen.get(&b[0]) != Some(&(n - 1))) {
                    let class = if swap { "same-history-other-challenge" } else { "other-history-same-challenge" };
                    return Err((class, format!("{n} messages, message {d} differs: {}", !swap)));
                }
            }
            return Ok(());
        }
        let one = |m: &Msg| {
            let (mut g, k) = begin(sys, hash, &[*m], false);
            if k == 0 {
                g.absorb(m);
            }
            g.draw(how, 1).remove(0)
        };
        let first: Vec<String> = msgs.iter().map(one).collect();
        for (i, a) in first.iter().enumerate() {
            if let Some(j) = seen.insert(a.clone(), i) {
                return Err(("other-history-same-challenge", format!("{a} in sessions {j} and {i} of {n}")));
            }
        }
        // again, elsewhere, in another order
        let (msgs, salt) = (msgs.clone(), salt | 1);
        std::thread::scope(|s| {
            s.spawn(|| {
                for i in 0..n.min(400) {
                    let i = ((i as u64).wrapping_mul(salt) % n as u64) as usize;
                    let a = one(&msgs[i]);
                    if a != first[i] {
                        return Err(("same-history-other-challenge", format!("{} in session {i} of {n}, {a} on another thread", first[i])));
                    }
                }
                Ok(())
            })
            .join()
            .unwrap_or_else(|_| Err(("panic", "on another thread".into())))
        })
    });
    verdict("marathon");
    match r {
        Ok(Ok(())) => {}
        Ok(Err((class, what))) => violation(class, format!("{} h{hash}: {what}", SYS[sys as usize])),
        Err(e) => violation("panic", format!("{} h{hash}, {n} sessions: {e}", SYS[sys as usize])),
    }
}

pub fn run(ent: u64) {
    if chance(1, 16) {
        return marathon();
    }
    if chance(1, 2) {
        return histories(ent);
    }
    let mut cases = vec![];
    match weighted(&[2, 2, 3, 3, 2]) {
        0 => plonk_binds(&mut cases),
        4 => digest_used(&mut cases),
        1 => plonk_late(&mut cases),
        #[cfg(zkp_sim)]
        2 => match chance(1, 5) {
            true => fri_binds::<Fr>(&mut cases),
            false => fri_binds::<Gold>(&mut cases),
        },
        _ => nova_binds(&mut cases),
    }
    if core::violated() {
        return;
    }
    if cases.is_empty() {
        core::key("nothing");
        return;
    }
    arena::run(cases, ent);
}
