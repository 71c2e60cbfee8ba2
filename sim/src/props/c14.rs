//! C14: folding nodes to which instances arrive in any order.

use super::nova::{alter_instance, shift, system, Pair, Sys};
use super::session::swarm;
use crate::core::{self, chance, draw, draw_fr, draw_us, fault, probe, range, trace, verdict, violation, weighted};
use crate::sched::{Fail, Sim};
use crate::{seam, with_hash};
use ark_bls12_381::Fr;
use ark_ff::Field;
use digest::Digest;
use kzg::commitment::KzgCommitment;
use nova::nifs::NIFS;
use nova::r1cs::{is_r1cs_satisfied, FInstance};
use nova::transcript::Transcript;
use std::sync::Arc;

type Fold = (Pair, KzgCommitment, Fr);

fn transcript<T: Digest + Default>(history: &[Fr]) -> Transcript<T> {
    let mut t = Transcript::<T>::default();
    for h in history {
        t.feed_scalar_num(*h);
    }
    t
}
fn fold(sys: &Sys, hash: u64, history: &[Fr], a: &Pair, b: &Pair) -> Fold {
    with_hash!(hash, T => {
        let mut t = transcript::<T>(history);
        let (w, i, com_t, r) = NIFS::<T>::prover(&sys.r1cs, &a.w, &b.w, &a.i, &b.i, &sys.scheme(), &mut t);
        (Pair { w, i }, com_t, r)
    })
}
fn challenge(hash: u64, history: &[Fr], a: &FInstance, b: &FInstance, com_t: &KzgCommitment, r: Fr) -> Result<bool, String> {
    core::guard(|| with_hash!(hash, T => {
        let mut t = transcript::<T>(history);
        NIFS::<T>::verify_challenge(r, a, b, com_t, &mut t).is_ok()
    }))
}

struct Item {
    p: Arc<Pair>,
    good: bool,
    name: String,
}
impl Clone for Item {
    fn clone(&self) -> Self {
        Item { p: self.p.clone(), good: self.good, name: self.name.clone() }
    }
}
struct Node {
    up: bool,
    inc: u64,
    acc: Option<Item>,
    inbox: Vec<Item>,
    busy: bool,
    shipped: bool,
}
struct W {
    sys: Arc<Sys>,
    hash: u64,
    nodes: Vec<Node>,
    ent: u64,
    folds: u64,
    expected: usize,
    arrived: usize,
    merging: bool,
    done: bool,
}

fn arrive(s: &mut Sim<W>, n: usize, it: Item) {
    // the inbox is on disk
    trace(format!("{} -> node{n}", it.name));
    s.w.nodes[n].inbox.push(it);
    s.w.arrived += 1;
    work(s, n);
}

fn work(s: &mut Sim<W>, n: usize) {
    let node = &mut s.w.nodes[n];
    if !node.up || node.busy {
        return;
    }
    if node.acc.is_none() {
        if node.inbox.is_empty() {
            return check_end(s);
        }
        let k = draw_us(node.inbox.len());
        node.acc = Some(node.inbox.remove(k));
    }
    if s.w.nodes[n].inbox.is_empty() {
        return ship(s, n);
    }
    let k = draw_us(s.w.nodes[n].inbox.len());
    let it = s.w.nodes[n].inbox[k].clone();
    let acc = s.w.nodes[n].acc.clone().unwrap();
    let (a, b) = if chance(1, 3) { (acc, it) } else { (it, acc) };
    s.w.folds += 1;
    let id = s.w.folds;
    let history: Vec<Fr> = (0..draw(3)).map(|_| draw_fr()).collect();
    trace(format!("fold#{id} node{n}: {} | {}", a.name, b.name));
    s.w.nodes[n].busy = true;
    let inc = s.w.nodes[n].inc;
    let (sys, hash) = (s.w.sys.clone(), s.w.hash);
    let e = seam::ent(core::combine(s.w.ent, id));
    let (pa, pb, h2) = (a.p.clone(), b.p.clone(), history.clone());
    s.spawn(n, format!("fold#{id}"), e, move || fold(&sys, hash, &h2, &pa, &pb), move |s, r| {
        if s.w.nodes[n].inc != inc {
            return;
        }
        s.w.nodes[n].busy = false;
        let f = match r {
            Err(Fail::Crashed) => return,
            Err(Fail::Panicked(e)) => {
                return violation("folding-panics", format!("{} | {}: {e} at {}", a.name, b.name, crate::exec::last_panic_place()))
            }
            Ok(f) => f,
        };
        judge(s, id, &a, &b, &history, &f);
        if core::violated() {
            return;
        }
        let good = a.good && b.good;
        s.w.nodes[n].inbox.remove(k);
        s.w.nodes[n].acc = Some(Item { p: Arc::new(f.0), good, name: format!("fold#{id}{}", if good { "" } else { "!" }) });
        let d = draw(10);
        s.after(d, move |s| work(s, n));
    });
}

fn judge(s: &mut Sim<W>, id: u64, a: &Item, b: &Item, history: &[Fr], f: &Fold) {
    let (sys, hash) = (s.w.sys.clone(), s.w.hash);
    let say = |what: &str| format!("{what}: fold#{id} of {} and {}, system {}", a.name, b.name, sys.desc);
    let good = sys.good(&f.0);
    match (a.good && b.good, good) {
        (true, true) => verdict("good-stays-good"),
        (false, false) => verdict("bad-stays-bad"),
        (true, false) => return violation("good-became-bad", say("not satisfied")),
        (false, true) => return violation("bad-became-good", say("satisfied")),
    }
    let (p, com_t, r) = f;
    // the library's own opinion
    for (name, p) in [("input", &*a.p), ("input", &*b.p), ("result", p)] {
        if p.w.e.len() == sys.rows {
            verdict("satisfaction");
            let mine = sys.good(p);
            match core::guard(|| is_r1cs_satisfied(&sys.r1cs, &p.i, &p.w, &sys.scheme())) {
                Ok(x) if x.is_ok() == mine => {}
                Ok(x) => return violation("satisfaction-misjudged", say(&format!("{name}: {x:?}"))),
                Err(e) => return violation("satisfaction-panics", say(&e)),
            }
        }
    }
    let v = with_hash!(hash, T => core::guard(|| NIFS::<T>::verifier(*r, &a.p.i, &b.p.i, com_t)));
    if v.as_ref() != Ok(&p.i) {
        return violation("verifier-folds-differently", say(&format!("{}", v.is_ok())));
    }
    let ask = |h: &[Fr], x: &FInstance, y: &FInstance, t: &KzgCommitment, r: Fr| challenge(hash, h, x, y, t, r);
    match ask(history, &a.p.i, &b.p.i, com_t, *r) {
        Ok(true) => verdict("challenge-agrees"),
        x => return violation("challenge-differs", say(&format!("{x:?}"))),
    }
    // the same calls without any suspension give the same
    if chance(1, 4) {
        match core::guard(|| fold(&sys, hash, history, &a.p, &b.p)) {
            Ok(g) if g.0.i == p.i && g.1 == *com_t && g.2 == *r && g.0.w.w == p.w.w && g.0.w.e == p.w.e => verdict("repeatable"),
            _ => return violation("fold-not-repeatable", say("")),
        }
    }
    // everything is bound
    for _ in 0..range(1, 4) {
        let (mut x, mut y, mut t, mut rr, mut h) = (a.p.i.clone(), b.p.i.clone(), com_t.clone(), *r, history.to_vec());
        let name = match weighted(&[4, 4, 2, 1, 1, 1, 2]) {
            0 => {
                let (q, n) = alter_instance(&x, Some(&y));
                x = q;
                format!("first.{n}")
            }
            1 => {
                let (q, n) = alter_instance(&y, Some(&x));
                y = q;
                format!("second.{n}")
            }
            2 => {
                t = super::nova::other_point(&t);
                "com_t".into()
            }
            3 => {
                std::mem::swap(&mut x, &mut y);
                "exchanged".into()
            }
            4 => {
                rr = super::nova::other_scalar(rr);
                "r".into()
            }
            5 => {
                h.push(draw_fr());
                "history".into()
            }
            _ => {
                // what cancels in the folded instance
                let Some(ri) = r.inverse() else { continue };
                let d = crate::core::fr_of(draw(1 << 40));
                match draw(5) {
                    0 => {
                        x.com_w = shift(&x.com_w, d);
                        y.com_w = shift(&y.com_w, -d * ri);
                    }
                    1 => {
                        x.u += d;
                        y.u -= d * ri;
                    }
                    2 if !x.x.is_empty() && y.x.len() == x.x.len() => {
                        let k = draw_us(x.x.len());
                        x.x[k] += d;
                        y.x[k] -= d * ri;
                    }
                    3 => {
                        x.com_e = shift(&x.com_e, d);
                        y.com_e = shift(&y.com_e, -d * ri * ri);
                    }
                    _ => {
                        x.com_e = shift(&x.com_e, d);
                        t = shift(&t, -d * ri);
                    }
                }
                "cancelling".into()
            }
        };
        if x == a.p.i && y == b.p.i && t == *com_t && rr == *r && h == history {
            continue;
        }
        fault(&format!("byz:{name}"));
        verdict("challenge-bound");
        match ask(&h, &x, &y, &t, rr) {
            Ok(false) => {}
            Ok(true) => return violation(format!("challenge-not-bound:{name}"), say(&name)),
            Err(e) => return violation("challenge-panics", say(&format!("{name}: {e}"))),
        }
        // commitments fitted to the challenge that was: the pair is bad, and stays bad
        if name == "cancelling" && a.good && b.good && t == *com_t {
            let (pa, pb) = (Pair { w: a.p.w.clone(), i: x }, Pair { w: b.p.w.clone(), i: y });
            if !sys.good(&pa) || !sys.good(&pb) {
                verdict("fitted-inputs");
                match core::guard(|| fold(&sys, hash, history, &pa, &pb)) {
                    Ok(f) if !sys.good(&f.0) => {}
                    Ok(_) => return violation("bad-became-good", say("inputs fitted to a known challenge")),
                    Err(e) => return violation("folding-panics", say(&e)),
                }
            }
        }
    }
}

fn ship(s: &mut Sim<W>, n: usize) {
    if !s.w.merging || n == 0 || s.w.nodes[n].shipped {
        return check_end(s);
    }
    // what was folded elsewhere is folded on
    s.w.nodes[n].shipped = true;
    let mut it = s.w.nodes[n].acc.take().unwrap();
    it.name = format!("node{n}.{}", it.name);
    probe("accumulator-folded");
    let d = range(1, 50);
    s.w.expected += 1;
    s.after(d, move |s| arrive(s, 0, it));
}

fn check_end(s: &mut Sim<W>) {
    if s.w.arrived == s.w.expected && s.w.merging && s.w.nodes.iter().all(|n| n.inbox.is_empty() && !n.busy && (n.acc.is_none() || !n.shipped)) {
        let left = s.w.nodes.iter().enumerate().filter(|(i, n)| *i > 0 && n.acc.is_some()).count();
        s.w.done = left == 0;
    }
}

pub fn run(ent: u64) {
    swarm(true);
    let nx = [1, 1, 2, 3, 0][weighted(&[4, 2, 2, 1, 1])];
    let free = chance(1, 6);
    let sys = system(if chance(1, 60) { range(30, 90) } else { [4, 8, 16][weighted(&[4, 3, 1])] }, nx, free);
    let nodes = range(1, 3) as usize;
    let leaves = if crate::exec::thorough() { range(2, 14) } else { range(2, 6) };
    let bad_rate = [0, 6, 2][weighted(&[3, 2, 1])];
    let mut items = vec![];
    let spare = sys.relaxed();
    for k in 0..leaves {
        let (p, name) = match weighted(&[6, 2, 2]) {
            0 => (sys.plain(), "plain"),
            1 => (sys.relaxed(), "relaxed"),
            _ => (sys.trivial(), "trivial"),
        };
        if !sys.good(&p) {
            return violation("fresh-pair-bad", format!("{name} pair for system {}", sys.desc));
        }
        verdict("fresh-pair-good");
        let (mut p, mut name) = (p, format!("{name}{k}"));
        if bad_rate > 0 && chance(1, bad_rate) {
            let (q, n) = sys.corrupt(&p, &spare);
            fault(&format!("byz:bad-input:{n}"));
            p = q;
            name += &format!("!{n}");
        }
        let good = sys.good(&p);
        core::key(&name);
        items.push(Item { p: Arc::new(p), good, name });
    }
    let total = items.len();
    let mut s = Sim::new(W {
        sys: Arc::new(sys),
        hash: draw(4),
        nodes: (0..nodes).map(|_| Node { up: true, inc: 0, acc: None, inbox: vec![], busy: false, shipped: false }).collect(),
        ent,
        folds: 0,
        expected: total,
        arrived: 0,
        merging: false,
        done: false,
    });
    let reach = [5, 60, 400][draw_us(3)];
    for it in items {
        let n = draw_us(nodes);
        if chance(1, 8) {
            fault("net:duplicated");
            s.w.expected += 1;
            let d = range(1, reach);
            let it = it.clone();
            s.after(d, move |s| arrive(s, n, it));
        }
        let d = range(1, reach);
        if d > 40 {
            fault("net:delayed");
        }
        s.after(d, move |s| arrive(s, n, it));
    }
    for _ in 0..[0, 1, 2, 4][draw_us(4)] {
        let (t, n, d) = (range(1, reach + 100), draw_us(nodes), range(1, 80));
        s.after(t, move |s| {
            if !s.w.nodes[n].up {
                return;
            }
            fault(if s.busy(n) { "crash:in-operation" } else { "crash:idle" });
            trace(format!("crash node{n}"));
            let x = &mut s.w.nodes[n];
            x.up = false;
            x.inc += 1;
            x.busy = false;
            s.crash(n);
            s.after(d, move |s| {
                s.w.nodes[n].up = true;
                work(s, n)
            });
        });
    }
    s.after(600, |s| {
        trace("merge");
        s.w.merging = true;
        for n in 0..s.w.nodes.len() {
            s.w.nodes[n].up = true;
            work(s, n);
        }
    });
    s.run(20_000, |s| s.w.done);
    if core::violated() {
        return;
    }
    if !s.w.done {
        return violation("no-progress", format!("{} arrived of {}", s.w.arrived, s.w.expected));
    }
    let Some(acc) = s.w.nodes[0].acc.clone() else { return };
    verdict("final");
    if s.w.sys.good(&acc.p) != acc.good {
        violation("final-pair", "the last pair".to_string());
    }
}
