mod arena;
mod byz;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod circ;
mod expr;
mod fri;
mod nova;
mod plonk;
mod proc;
mod session;

pub struct Info {
    pub runs_quick: u64,
    pub runs_thorough: u64,
    /// no run starts later than this
    pub secs_quick: u64,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumes: &'static str,
}

pub fn info(prop: &str) -> Option<Info> {
    let i = |runs_quick, real, stub, assumes| {
        let secs_quick = if prop < "C07" { 100 } else { 75 };
        Some(Info { runs_quick, runs_thorough: runs_quick * 10, secs_quick, real, stub, assumes })
    };
    const NET: &str = "network, clock, OS entropy, process crashes: simulated; hash: SHA-2 behind a yielding wrapper";
    const CRYPTO: &str = "arkworks field, curve and pairing arithmetic and SHA-2 are correct; collisions of 64-bit challenge seeds do not happen by chance";
    const BYZ: &str = "provers: Byzantine, written for the simulation; delivery, OS entropy, crashes: simulated; hash: SHA-2 behind a yielding wrapper";
    match prop {
        "C01" => i(1500, "plonk circuit, prover, verifier, challenge; kzg", NET, CRYPTO),
        "C02" => i(1500, "plonk circuit, prover, verifier, challenge; kzg", NET, CRYPTO),
        "C03" => i(1500, "plonk circuit, verifier, challenge; kzg", BYZ, CRYPTO),
        "C04" => i(1000, "plonk circuit, prover, verifier, challenge; kzg; rand", NET, CRYPTO),
        "C05" => i(1500, "plonk parser, cpi_parser, cpi_circuit, circuit, prover, verifier; kzg", NET, CRYPTO),
        "C06" => i(1500, "plonk parser, cpi_parser, circuit, verifier, challenge; kzg", BYZ, CRYPTO),
        "C07" => i(4500, "kzg scheme, srs", NET, CRYPTO),
        "C08" => i(4500, "kzg scheme, srs; rand", "randomness, delivery, crashes: simulated", CRYPTO),
        "C09" => i(4500, "kzg scheme, commitment and opening arithmetic, srs", NET, CRYPTO),
        "C10" => i(1500, "kzg srs; rand", NET, CRYPTO),
        "C11" => i(8000, "fri prover, verifier, transcript, merkle tree", NET, CRYPTO),
        "C12" => i(12000, "fri prover, verifier, transcript, merkle tree", NET, CRYPTO),
        "C13" => i(6000, "fri verifier, prover, transcript, merkle tree", BYZ, CRYPTO),
        "C14" => i(6000, "nova nifs, r1cs, transcript; kzg", NET, CRYPTO),
        "C15" => i(4000, "nova circuit, ivc, nifs, r1cs, transcript; kzg", NET, CRYPTO),
        "C16" => i(5000, "nova ivc, circuit, nifs, r1cs, transcript; kzg", NET, CRYPTO),
        "C18" => i(5000, "nova nifs, r1cs, transcript; kzg", NET, CRYPTO),
        "C17" => i(12000, "nova circuit, ivc prover, nifs, r1cs, transcript; kzg", "step requests, checkpoints, crashes: simulated; hash: SHA-2 behind a yielding wrapper", CRYPTO),
        "C19" => i(6000, "nova ivc verifier, circuit, nifs, r1cs, transcript; kzg", BYZ, CRYPTO),
        "C20" => i(6000, "plonk, fri and nova transcripts; plonk, fri and nifs verifiers, circuits and provers behind them", "absorbing parties, crashes, checkpoints: simulated; provers partly Byzantine; hash: SHA-2 behind a yielding wrapper", CRYPTO),
        _ => None,
    }
}

pub fn run(prop: &str, ent: u64) {
    match prop {
        "C01" => plonk::run(false, ent),
        "C02" => plonk::run(true, ent),
        "C03" => c03::run(ent),
        "C04" => c04::run(ent),
        "C05" => c05::run(ent),
        "C06" => c06::run(ent),
        "C07" => c07::run(ent),
        "C08" => c08::run(ent),
        "C09" => c09::run(ent),
        "C10" => c10::run(ent),
        "C11" => fri::run(false, ent),
        "C12" => fri::run(true, ent),
        "C13" => c13::run(ent),
        "C14" => c14::run(ent),
        "C15" => c15::run(ent),
        "C16" => c16::run(ent),
        "C18" => c18::run(ent),
        "C17" => c17::run(ent),
        "C19" => c19::run(ent),
        "C20" => c20::run(ent),
        _ => panic!("unknown property"),
    }
}

pub fn child(args: &[String]) -> i32 {
    proc::child(args)
}
