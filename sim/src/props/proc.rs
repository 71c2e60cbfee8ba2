//! Incarnations of a party as separate processes: nothing in memory survives a restart.

use super::circ::{Desc, Kind};
use crate::seam;
use crate::with_hash;
use ark_bls12_381::Fr;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use kzg::srs::Srs;
use plonk::prover::{generate_proof, Proof};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::SeqCst;

pub fn hex<T: CanonicalSerialize>(x: &T) -> String {
    let mut v = vec![];
    x.serialize_compressed(&mut v).unwrap();
    v.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn unhex<T: CanonicalDeserialize>(s: &str) -> T {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    T::deserialize_compressed(&b[..]).expect("decode")
}

#[derive(Clone)]
pub struct World {
    pub ent: seam::Ent,
    pub now: u64,
    pub skew: u64,
    pub eintr: u64,
    pub short: u64,
}
pub struct Answer {
    pub lines: Vec<(String, String)>,
    /// entropy bytes handed out in requests of 8 bytes and more
    pub bytes: u64,
}

/// Runs one incarnation. `Err` if it died without an answer.
pub fn incarnation(kind: &str, w: &World, args: &[(&str, String)]) -> Result<Answer, String> {
    let mut t = String::new();
    t += &format!("key {}\nmode {}\nshared {}\nfail {}\n", w.ent.key, w.ent.mode, w.ent.shared, w.ent.fail as u8);
    t += &format!("now {}\nskew {}\neintr {}\nshort {}\n", w.now, w.skew, w.eintr, w.short);
    for (k, v) in args {
        t += &format!("{k} {v}\n");
    }
    let was = seam::enter_harness();
    let r = (|| {
        let mut c = Command::new("/proc/self/exe")
            .arg("child")
            .arg(kind)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("HARNESS spawn {e}"))?;
        let _ = c.stdin.take().unwrap().write_all(t.as_bytes());
        let mut o = String::new();
        let _ = c.stdout.take().unwrap().read_to_string(&mut o);
        let _ = c.wait();
        Ok::<String, String>(o)
    })();
    seam::leave_harness(was);
    let o = r.expect("incarnation");
    let mut a = Answer { lines: vec![], bytes: 0 };
    let mut end = false;
    for l in o.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "bytes" => a.bytes = v.parse().unwrap(),
            "end" => end = true,
            "died" => return Err(v.to_string()),
            _ => a.lines.push((k.into(), v.into())),
        }
    }
    if end {
        Ok(a)
    } else {
        Err("no answer".into())
    }
}

pub fn desc_text(d: &Desc) -> String {
    let g: Vec<String> = d
        .gates
        .iter()
        .map(|(k, v, p, c)| format!("{}:{}:{}:{}:{}:{}", match k { Kind::Add => 0, Kind::Mul => 1, Kind::Const => 2 }, v[0], v[1], v[2], hex(p), hex(c)))
        .collect();
    let v: Vec<String> = d.vals.iter().map(hex).collect();
    format!("{}|{}", g.join(","), v.join(","))
}
fn desc_of(s: &str) -> Desc {
    let (g, v) = s.split_once('|').unwrap();
    Desc {
        gates: g
            .split(',')
            .map(|x| {
                let f: Vec<&str> = x.split(':').collect();
                let n = |i: usize| f[i].parse::<usize>().unwrap();
                ([Kind::Add, Kind::Mul, Kind::Const][n(0)], [n(1), n(2), n(3)], unhex(f[4]), unhex(f[5]))
            })
            .collect(),
        vals: v.split(',').map(unhex).collect(),
    }
}
pub fn proof_text(p: &Proof) -> String {
    let c = [&p.a_commit, &p.b_commit, &p.c_commit, &p.z_commit, &p.t_lo_commit, &p.t_mid_commit, &p.t_hi_commit, &p.w_ev_x_commit, &p.w_ev_wx_commit];
    let s = [&p.bar_a, &p.bar_b, &p.bar_c, &p.bar_s_sigma_1, &p.bar_s_sigma_2, &p.bar_z_w, &p.u];
    let mut v: Vec<String> = c.iter().map(|x| hex(&x.0)).collect();
    v.extend(s.iter().map(|x| hex(*x)));
    v.push(p.degree.to_string());
    v.join(",")
}
pub fn proof_of(s: &str) -> Proof {
    let f: Vec<&str> = s.split(',').collect();
    let c = |i: usize| kzg::commitment::KzgCommitment(unhex(f[i]));
    Proof {
        a_commit: c(0),
        b_commit: c(1),
        c_commit: c(2),
        z_commit: c(3),
        t_lo_commit: c(4),
        t_mid_commit: c(5),
        t_hi_commit: c(6),
        w_ev_x_commit: c(7),
        w_ev_wx_commit: c(8),
        bar_a: unhex(f[9]),
        bar_b: unhex(f[10]),
        bar_c: unhex(f[11]),
        bar_s_sigma_1: unhex(f[12]),
        bar_s_sigma_2: unhex(f[13]),
        bar_z_w: unhex(f[14]),
        u: unhex(f[15]),
        degree: f[16].parse().unwrap(),
    }
}

pub fn child(args: &[String]) -> i32 {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let kv: BTreeMap<String, String> = text.lines().filter_map(|l| l.split_once(' ')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let num = |k: &str| kv[k].parse::<u64>().unwrap();
    let mut out = crate::exec::redirect();
    crate::exec::panic_hook();
    let mut e = seam::ent(num("key"));
    e.mode = num("mode") as u8;
    e.shared = num("shared");
    e.fail = num("fail") == 1;
    seam::set_ent(e);
    seam::SIM_NOW.store(num("now"), SeqCst);
    seam::CLOCK_SKEW.store(num("skew"), SeqCst);
    seam::EINTR_RATE.store(num("eintr"), SeqCst);
    seam::SHORT_RATE.store(num("short"), SeqCst);
    seam::ACTIVE.store(true, SeqCst);
    let kind = args.first().cloned().unwrap_or_default();
    let r = crate::core::guard(|| {
        let mut o = String::new();
        match kind.as_str() {
            "prove" => {
                let d = desc_of(&kv["desc"]);
                let secret: Fr = unhex(&kv["secret"]);
                let cc = d.compile();
                let srs = Srs::new_from_secret(secret, d.size() + num("extra") as usize);
                let h = num("hash");
                for _ in 0..num("count") {
                    let p = with_hash!(h, H => generate_proof::<H>(&cc, srs.clone()));
                    o += &format!("proof {}\n", proof_text(&p));
                }
            }
            "srs" => {
                for _ in 0..num("count") {
                    let s = Srs::new(num("size") as usize);
                    let p: Vec<String> = s.g1_points().iter().map(hex).collect();
                    o += &format!("srs {}|{}|{}\n", p.join(","), hex(&s.g2()), hex(&s.g2s()));
                }
            }
            "layout" => o += &super::c05::child(&kv),
            "absorb" => o += &super::c20::child(&kv),
            "fri" => o += &super::fri::child(&kv),
            _ => panic!("unknown incarnation"),
        }
        o
    });
    let o = match r {
        Ok(o) => format!("{o}bytes {}\nend\n", seam::get_ent().bytes),
        Err(e) => format!("died {}\n", crate::exec::esc(&e)),
    };
    let _ = out.write_all(o.as_bytes());
    0
}
