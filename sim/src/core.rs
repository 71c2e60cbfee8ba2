//! The state of one simulated run: the choice tape, the trace, fault and reach counters, the verdict.
//!
//! Every random decision of a run goes through `draw`. In generation mode the values come from one
//! PRNG and are recorded; in replay mode they come from a tape (a missing value is 0, which is
//! always the simplest choice: no fault, smallest size).

use ark_bls12_381::Fr;
use ark_ff::{One, PrimeField, UniformRand, Zero};
use rand::rngs::StdRng;
use rand::SeedableRng;
use std::collections::BTreeMap;
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
}
pub fn mix(x: u64) -> u64 {
    let mut z = x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes()
        .fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
pub fn combine(a: u64, b: u64) -> u64 {
    mix(a.rotate_left(23) ^ mix(b ^ 0x51ed270b7a649a37))
}

pub struct Core {
    replay: bool,
    rng: Rng,
    input: Vec<u64>,
    pub tape: Vec<u64>,
    pub trace: Vec<String>,
    pub trace_hash: u64,
    pub events: u64,
    pub now: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub verdicts: u64,
    pub violation: Option<(String, String)>,
    pub known: BTreeMap<String, u64>,
    pub key: String,
    pub overflow: bool,
}

const MAX_TAPE: usize = 60_000;
static CORE: Mutex<Option<Core>> = Mutex::new(None);

pub fn with<R>(f: impl FnOnce(&mut Core) -> R) -> R {
    let was = crate::seam::enter_harness();
    let r = {
        let mut g = CORE.lock().unwrap_or_else(|e| e.into_inner());
        f(g.as_mut().expect("no run"))
    };
    crate::seam::leave_harness(was);
    r
}

pub fn start(replay: bool, seed: u64, input: Vec<u64>) {
    *CORE.lock().unwrap() = Some(Core {
        replay,
        rng: Rng(seed),
        input,
        tape: vec![],
        trace: vec![],
        trace_hash: 0,
        events: 0,
        now: 0,
        faults: BTreeMap::new(),
        probes: BTreeMap::new(),
        verdicts: 0,
        violation: None,
        known: BTreeMap::new(),
        key: String::new(),
        overflow: false,
    });
}
pub fn finish() -> Core {
    CORE.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap()
}

/// A uniform choice in `0..n`; 0 is the simplest.
pub fn draw(n: u64) -> u64 {
    with(|c| {
        if n <= 1 {
            return 0;
        }
        let v = if c.tape.len() >= MAX_TAPE {
            c.overflow = true;
            0
        } else if c.replay {
            c.input.get(c.tape.len()).copied().unwrap_or(0) % n
        } else {
            ((c.rng.next() as u128 * n as u128) >> 64) as u64
        };
        if c.tape.len() < MAX_TAPE {
            c.tape.push(v);
        }
        v
    })
}
pub fn draw_us(n: usize) -> usize {
    draw(n as u64) as usize
}
/// True with probability `num/den`; false is the simplest.
pub fn chance(num: u64, den: u64) -> bool {
    draw(den) >= den - num.min(den)
}
/// lo..=hi
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + draw(hi - lo + 1)
}
/// An index chosen by weight; index 0 is the simplest.
pub fn weighted(w: &[u64]) -> usize {
    let mut v = draw(w.iter().sum());
    for (i, x) in w.iter().enumerate() {
        if v < *x {
            return i;
        }
        v -= x;
    }
    0
}
/// A field element: small, special or full-range.
pub fn draw_fr() -> Fr {
    match weighted(&[3, 1, 1, 1, 5]) {
        0 => Fr::from(draw(20)),
        1 => Fr::zero(),
        2 => Fr::one(),
        3 => -Fr::from(1 + draw(3)),
        _ => fr_of(draw(u64::MAX)),
    }
}
pub fn fr_of(x: u64) -> Fr {
    Fr::rand(&mut StdRng::seed_from_u64(x ^ 0x6b7a675f6672))
}
pub fn field_of<F: PrimeField>(x: u64) -> F {
    F::rand(&mut StdRng::seed_from_u64(x ^ 0x6b7a675f6672))
}
/// A nonzero difference: one, a power of two of any size (what a truncated value does not see), or
/// anything.
pub fn delta<F: PrimeField>() -> F {
    let d = match weighted(&[4, 4, 3]) {
        0 => F::one(),
        1 => {
            let k = match draw(4) {
                0 => 8 * range(1, (F::MODULUS_BIT_SIZE as u64 - 1) / 8),
                _ => draw(F::MODULUS_BIT_SIZE as u64 - 1),
            };
            F::from(2u64).pow([k])
        }
        _ => field_of(draw(1 << 40)),
    };
    let d = if chance(1, 3) { -d } else { d };
    if d.is_zero() { F::one() } else { d }
}

/// Appends to the event log; part of the run's identity.
pub fn trace(s: impl Into<String>) {
    let s = s.into();
    with(|c| {
        c.trace_hash = combine(c.trace_hash, hash_str(&s));
        c.events += 1;
        if c.trace.len() < 4000 {
            let t = format!("t={} {}", c.now, s);
            c.trace.push(t);
        }
    })
}
pub fn fault(kind: &str) {
    with(|c| *c.faults.entry(kind.to_string()).or_insert(0) += 1)
}
pub fn fault_n(kind: &str, n: u64) {
    if n > 0 {
        with(|c| *c.faults.entry(kind.to_string()).or_insert(0) += n)
    }
}
pub fn probe(kind: &str) {
    with(|c| *c.probes.entry(kind.to_string()).or_insert(0) += 1)
}
/// One decision of the oracle was made.
pub fn verdict(kind: &str) {
    with(|c| {
        c.verdicts += 1;
        *c.probes.entry(format!("verdict:{kind}")).or_insert(0) += 1;
    })
}
/// Records the first violation of the run.
pub fn violation(class: impl Into<String>, detail: impl Into<String>) {
    let (class, detail) = (class.into(), detail.into());
    trace(format!("VIOLATION {class}: {detail}"));
    with(|c| {
        if c.violation.is_none() {
            c.violation = Some((class, detail));
        }
    })
}
pub fn violated() -> bool {
    with(|c| c.violation.is_some())
}
/// A violation that the known-findings file lists under `id`.
pub fn known_finding(id: &str) {
    trace(format!("known finding {id}"));
    with(|c| *c.known.entry(id.to_string()).or_insert(0) += 1)
}
pub fn set_now(t: u64) {
    with(|c| c.now = t);
    crate::seam::SIM_NOW.store(t, std::sync::atomic::Ordering::SeqCst);
}
pub fn key(s: &str) {
    with(|c| {
        if !c.key.is_empty() {
            c.key.push(' ');
        }
        c.key.push_str(s)
    })
}

/// Runs code of the repository on the driver; a panic becomes an `Err`.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => Err(panic_text(&e)),
    }
}
pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}
