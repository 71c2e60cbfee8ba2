//! The parent: spawns one process per simulated run, minimises failures, writes evidence.

use crate::core::{combine, hash_str};
use crate::exec::esc;
use crate::props;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Default, Debug)]
pub struct Outcome {
    pub violation: Option<(String, String)>,
    pub known: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub hash: u64,
    pub events: u64,
    pub now: u64,
    pub verdicts: u64,
    pub overflow: bool,
    pub key: String,
    pub tape: Vec<u64>,
    pub trace: Vec<String>,
    pub died: bool,
}

pub struct Ctl {
    pub prop: String,
    pub listed: Vec<String>,
    pub thorough: bool,
}

fn env_secs(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}

pub enum Input<'a> {
    Seed(u64),
    Tape(&'a [u64]),
}

pub fn run_one(ctl: &Ctl, input: Input, trace: bool) -> Outcome {
    let mut text = format!("prop {}\n", ctl.prop);
    match input {
        Input::Seed(s) => text += &format!("seed {s}\n"),
        Input::Tape(t) => {
            let t: Vec<String> = t.iter().map(|x| x.to_string()).collect();
            text += &format!("replay {}\n", t.join(" "));
        }
    }
    if trace {
        text += "trace 1\n";
    }
    if ctl.thorough {
        text += "thorough 1\n";
    }
    for l in &ctl.listed {
        text += &format!("listed {l}\n");
    }
    let cpu = env_secs("ZKPSIM_CPU", 60);
    let mut cmd = Command::new("/proc/self/exe");
    cmd.arg("exec").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(move || {
            let r = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 1 };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            let r = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &r);
            let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &r);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::personality(0x0040000);
            Ok(())
        });
    }
    let mut child = cmd.spawn().expect("spawn run");
    let pid = child.id() as i32;
    let done = Arc::new(AtomicBool::new(false));
    let d2 = done.clone();
    let wall = env_secs("ZKPSIM_WALL", 200);
    let dog = std::thread::spawn(move || {
        let t = Instant::now();
        while !d2.load(SeqCst) {
            if t.elapsed() > Duration::from_secs(wall) {
                unsafe { libc::kill(pid, libc::SIGKILL) };
                break;
            }
            std::thread::park_timeout(Duration::from_millis(500));
        }
    });
    let _ = child.stdin.take().unwrap().write_all(text.as_bytes());
    let mut out = String::new();
    let _ = child.stdout.take().unwrap().read_to_string(&mut out);
    let st = child.wait().expect("wait");
    done.store(true, SeqCst);
    dog.thread().unpark();
    let _ = dog.join();
    let mut o = Outcome::default();
    let mut complete = false;
    for line in out.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        let get = |i: usize| f.get(i).copied().unwrap_or("").to_string();
        match f[0] {
            "violation" => o.violation = Some((get(1), get(2))),
            "known" => {
                o.known.insert(get(1), num(2));
            }
            "fault" => {
                o.faults.insert(get(1), num(2));
            }
            "probe" => {
                o.probes.insert(get(1), num(2));
            }
            "stat" => {
                o.hash = num(1);
                o.events = num(2);
                o.now = num(3);
                o.verdicts = num(4);
                o.overflow = num(5) == 1;
            }
            "key" => o.key = get(1),
            "tape" => o.tape = get(1).split_whitespace().map(|x| x.parse().unwrap()).collect(),
            "trace" => o.trace.push(get(1)),
            "end" => complete = true,
            _ => {}
        }
    }
    if !complete {
        o.died = true;
        let why = match st.signal() {
            Some(s) if s == libc::SIGXCPU || s == libc::SIGKILL => "no-answer".to_string(),
            Some(s) => format!("died-signal-{s}"),
            None => format!("exit-{}", st.code().unwrap_or(-1)),
        };
        o.violation = Some((why, "the process of the run did not survive the run".into()));
    }
    o
}

/// Evaluates tapes in parallel, returns for each the outcome.
fn eval(ctl: &Ctl, cands: &[Vec<u64>], workers: usize) -> Vec<Outcome> {
    let next = AtomicU64::new(0);
    let res: Vec<Mutex<Option<Outcome>>> = cands.iter().map(|_| Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for _ in 0..workers.min(cands.len()) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst) as usize;
                if i >= cands.len() {
                    break;
                }
                *res[i].lock().unwrap() = Some(run_one(ctl, Input::Tape(&cands[i]), false));
            });
        }
    });
    res.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect()
}

fn minimise(ctl: &Ctl, start: &Outcome, workers: usize, secs: u64) -> (Outcome, u64) {
    let class = start.violation.clone().unwrap().0;
    let mut best = start.clone();
    let t0 = Instant::now();
    let mut execs = 0u64;
    let better = |a: &Outcome, b: &Outcome| {
        let sum = |o: &Outcome| o.tape.iter().fold(0u128, |x, y| x + *y as u128);
        (a.tape.len(), sum(a)) < (b.tape.len(), sum(b))
    };
    let mut try_all = |best: &mut Outcome, cands: Vec<Vec<u64>>| -> bool {
        for chunk in cands.chunks(workers) {
            if t0.elapsed() > Duration::from_secs(secs) || execs > 1500 {
                return false;
            }
            execs += chunk.len() as u64;
            for o in eval(ctl, chunk, workers) {
                if o.violation.as_ref().map(|v| &v.0) == Some(&class) && !o.died && better(&o, best) {
                    *best = o;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let before = (best.tape.len(), best.tape.clone());
        let mut size = (best.tape.len() / 2).max(1);
        loop {
            // delete, then zero, chunks
            let mut again = true;
            while again {
                let n = best.tape.len();
                let mut cands = vec![];
                let mut i = 0;
                // the first value is the entropy seed
                while i < n {
                    let e = (i + size).min(n);
                    let mut c = best.tape.clone();
                    c.drain(i..e);
                    cands.push(c);
                    if best.tape[i..e].iter().any(|x| *x != 0) {
                        let mut c = best.tape.clone();
                        c[i..e].iter_mut().for_each(|x| *x = 0);
                        cands.push(c);
                    }
                    i += size;
                }
                again = try_all(&mut best, cands);
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // smaller values
        let mut cands = vec![];
        for i in 0..best.tape.len() {
            let v = best.tape[i];
            if v > 1 {
                for w in [1, v / 2, v - 1] {
                    let mut c = best.tape.clone();
                    c[i] = w;
                    cands.push(c);
                }
            }
        }
        try_all(&mut best, cands);
        if (best.tape.len(), best.tape.clone()) == before
            || t0.elapsed() > Duration::from_secs(secs)
        {
            break;
        }
    }
    (best, execs)
}

pub fn load_known(prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("finding: ") {
            let mut p = rest.splitn(3, ' ');
            let (a, b, c) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
            if a == format!("property={prop}") {
                if let Some(k) = b.strip_prefix("key=") {
                    v.push((k.to_string(), c.to_string()));
                }
            }
        }
    }
    v
}

pub fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| std::env::current_dir().unwrap())
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_map(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, n)| format!("{}: {n}", json_str(k))).collect();
    format!("{{{}}}", v.join(", "))
}

pub fn write_replay(ctl: &Ctl, seed: u64, o: &Outcome) -> std::path::PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let (class, detail) = o.violation.clone().unwrap();
    let path = dir.join(format!("{}-{:x}.replay", ctl.prop, seed));
    let mut s = String::new();
    s += &format!("property {}\nseed {}\nclass {}\ndetail {}\n", ctl.prop, seed, esc(&class), esc(&detail));
    if ctl.thorough {
        s += "thorough 1\n";
    }
    if o.died {
        s += "mode seed\n";
    } else {
        let t: Vec<String> = o.tape.iter().map(|x| x.to_string()).collect();
        s += &format!("mode tape\ntape {}\n", t.join(" "));
    }
    s += "# schedule and fault trace\n";
    for t in &o.trace {
        s += &format!("# {t}\n");
    }
    std::fs::write(&path, s).expect("write replay");
    path
}

pub fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("read replay");
    let mut ctl = Ctl { prop: String::new(), listed: vec![], thorough: false };
    let (mut seed, mut tape, mut class, mut by_tape) = (0, vec![], String::new(), false);
    for l in text.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => ctl.prop = v.into(),
            "seed" => seed = v.parse().unwrap(),
            "class" => class = v.into(),
            "thorough" => ctl.thorough = true,
            "mode" => by_tape = v == "tape",
            "tape" => tape = v.split_whitespace().map(|x| x.parse().unwrap()).collect(),
            _ => {}
        }
    }
    ctl.listed = load_known(&ctl.prop).into_iter().map(|x| x.0).collect();
    let o = run_one(&ctl, if by_tape { Input::Tape(&tape) } else { Input::Seed(seed) }, true);
    for t in &o.trace {
        println!("{t}");
    }
    match o.violation {
        Some((c, d)) => {
            println!("reproduced: {c}: {d}");
            println!("VIOLATION property={} replay={}", ctl.prop, path);
            if c != class {
                println!("note: recorded class was {class}");
            }
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

pub fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
        || std::env::args().any(|a| a == "--thorough");
    let Some(info) = props::info(prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let workers = env_secs("ZKPSIM_WORKERS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8)) as usize;
    let runs = env_secs("ZKPSIM_RUNS", if thorough { info.runs_thorough } else { info.runs_quick });
    let cap = env_secs("ZKPSIM_SECS", if thorough { 560 } else { info.secs_quick });
    let known = load_known(prop);
    let ctl = Ctl { prop: prop.into(), listed: known.iter().map(|k| k.0.clone()).collect(), thorough };
    let next = AtomicU64::new(0);
    let limit = AtomicU64::new(runs);
    let results: Mutex<BTreeMap<u64, (u64, Outcome)>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= limit.load(SeqCst) || t0.elapsed() > Duration::from_secs(cap) {
                    break;
                }
                let sd = combine(combine(hash_str(prop), seed), i);
                let o = run_one(&ctl, Input::Seed(sd), false);
                if o.violation.is_some() {
                    // do not start later runs
                    limit.fetch_min(i, SeqCst);
                }
                results.lock().unwrap().insert(i, (sd, o));
            });
        }
    });
    let results = results.into_inner().unwrap();
    let search_s = t0.elapsed().as_secs_f64();

    // the first failing run
    let mut code = 0;
    let mut violations = 0;
    for (i, (sd, o)) in &results {
        let Some((class, detail)) = &o.violation else { continue };
        // the same seed must fail again the same way
        let again = run_one(&ctl, Input::Seed(*sd), true);
        if again.violation.as_ref().map(|v| &v.0) != Some(class) {
            eprintln!("run {i} (seed {sd}): {class} did not come back: {:?}", again.violation);
            if !o.died {
                code = 2;
            }
            continue;
        }
        if class == "HARNESS" {
            eprintln!("harness error in run {i} (seed {sd}): {detail}");
            code = 2;
            continue;
        }
        let (path, detail, class) = if o.died {
            (write_replay(&ctl, *sd, &again), detail.clone(), class.clone())
        } else {
            let (min, execs) = minimise(&ctl, o, workers, if thorough { 120 } else { 45 });
            let full = run_one(&ctl, Input::Tape(&min.tape), true);
            let same = full.violation.as_ref().map(|v| &v.0) == Some(class);
            println!(
                "minimised {} choices to {} in {execs} executions",
                o.tape.len(),
                min.tape.len()
            );
            let rep = if same { full } else { again };
            let p = write_replay(&ctl, *sd, &rep);
            let v = rep.violation.clone().unwrap();
            for t in rep.trace.iter().rev().take(12).rev() {
                println!("  {t}");
            }
            (p, v.1, v.0)
        };
        println!("run {i} seed {sd}: {class}: {detail}");
        println!("VIOLATION property={prop} replay={}", path.display());
        violations += 1;
        code = 1;
        break;
    }

    // findings
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    for (_, o) in results.values() {
        for (k, n) in &o.known {
            *hits.entry(k.clone()).or_insert(0) += n;
        }
    }
    for (k, text) in &known {
        if hits.contains_key(k) {
            println!("KNOWN-FINDING: property={prop} {k}: {text}");
        }
    }

    // evidence
    let mut faults = BTreeMap::new();
    let mut probes = BTreeMap::new();
    let (mut distinct, mut nontrivial) = (BTreeSet::new(), BTreeSet::new());
    let (mut events, mut now, mut verdicts, mut overflow) = (0, 0, 0, 0);
    for (_, o) in results.values() {
        for (k, n) in &o.faults {
            *faults.entry(k.clone()).or_insert(0) += n;
        }
        for (k, n) in &o.probes {
            *probes.entry(k.clone()).or_insert(0) += n;
        }
        distinct.insert(o.hash);
        if o.verdicts > 0 && (!o.faults.is_empty() || o.probes.keys().any(|k| k.starts_with("yield:"))) {
            nontrivial.insert(o.hash);
        }
        events += o.events;
        now += o.now;
        verdicts += o.verdicts;
        overflow += o.overflow as u64;
    }
    let mut samples = vec![];
    for (i, (sd, _)) in results.iter().take(2) {
        let o = run_one(&ctl, Input::Seed(*sd), true);
        let tr: Vec<String> = o.trace.iter().take(25).map(|t| json_str(t)).collect();
        samples.push(format!(
            "{{\"run\": {i}, \"seed\": {sd}, \"configuration\": {}, \"choices\": {}, \"first_events\": [{}]}}",
            json_str(&o.key),
            o.tape.len(),
            tr.join(", ")
        ));
    }
    let wall = t0.elapsed().as_secs_f64();
    let n = results.len() as u64;
    let hooks = if cfg!(zkp_sim) { "on" } else { "off: build with hooks failed, attacks that need them left out" };
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {n},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"simulated_runs\": {n}, \"runs_planned\": {runs}, \"runs_per_hour\": {}, \"oracle_verdicts\": {verdicts},\n  \"simulated_time_units\": {now}, \"events\": {events},\n  \"distinct_event_logs\": {}, \"state_measure\": \"hash of the complete event log of a run: every scheduling, delivery, fault and verdict\",\n  \"faults_injected\": {},\n  \"reach_probes\": {},\n  \"known_finding_hits\": {},\n  \"runs_hitting_choice_limit\": {overflow}, \"hooks\": {},\n  \"real_components\": {}, \"stub_components\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.1}, \"violations\": {violations}\n}}\n",
        json_str(prop),
        json_str(if thorough { "thorough" } else { "quick" }),
        nontrivial.len(),
        json_str("one evaluation = one simulated run (fresh process, one seed). Non-trivial: the oracle decided at least one verdict and at least one fault fired or one party was suspended inside repository code; distinct by hash of the complete event log."),
        samples.join(", "),
        (n as f64 / search_s.max(0.001) * 3600.0) as u64,
        distinct.len(),
        json_map(&faults),
        json_map(&probes),
        json_map(&hits),
        json_str(hooks),
        json_str(info.real),
        json_str(info.stub),
        json_str(info.assumes),
        wall
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{prop}.json")), ev).expect("write evidence");
    println!("{prop}: {n} runs, {} distinct non-trivial, {verdicts} verdicts, {violations} violations, {wall:.1} s", nontrivial.len());
    code
}

/// Runs seeds and prints one line per run, for determinism tests.
pub fn batch(prop: &str, seed: u64, n: u64, workers: usize) {
    let known = load_known(prop);
    let ctl = Ctl { prop: prop.into(), listed: known.into_iter().map(|k| k.0).collect(), thorough: false };
    let next = AtomicU64::new(0);
    let res = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= n {
                    break;
                }
                let sd = combine(combine(hash_str(prop), seed), i);
                let t = Instant::now();
                let o = run_one(&ctl, Input::Seed(sd), false);
                let ms = t.elapsed().as_millis();
                let th = o.tape.iter().fold(0, |a, b| combine(a, *b));
                res.lock().unwrap().insert(
                    i,
                    (format!("{i} {sd} {:x} {} {:x} v={} {:?} {}", o.hash, o.tape.len(), th, o.verdicts, o.violation, o.key), ms),
                );
            });
        }
    });
    for (l, ms) in res.into_inner().unwrap().values() {
        println!("{l}");
        if std::env::var("ZKPSIM_TIMES").is_ok() {
            println!("   {ms} ms");
        }
    }
}
