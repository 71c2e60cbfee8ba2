#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = ["4af4f2a", "e8926696eeb826f12830d0ff3cad2e6d9e3f3e70"]
full = [subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True, text=True).stdout.strip() for h in HOOKS]
NOTE = ("Seeded search over simulated deployments running the repository's real code; a pass means no violation in the "
        "runs, schedules, faults and messages explored, not a proof. Trusted: the simulator's oracles, arkworks/SHA-2, "
        "and that 64-bit challenge seeds do not collide by chance. ")
C = {
 "C01": "Oracle: satisfied circuits built by construction; every verifier compiles its own circuit; progress after faults stop.",
 "C02": "Oracle: proof identity and statement identity kept by the simulator; every non-genuine delivery must be rejected without a panic.",
 "C03": "Oracle: unsatisfiability by construction (pinned values); Byzantine provers are limited to the modelled deviations (an independent prover with attacks on each challenge and each equation term).",
 "C04": "Oracle: blinding values are recovered with the known secret of the reference string and compared across proofs, processes and crashes; freshness is judged against the interposed entropy stream.",
 "C05": "Oracle: comparison of the two derivations in several processes with different hash seeds, plus acceptance of honest proofs by a verifier holding only the text.",
 "C06": "Oracle: the harness evaluates the equation itself; false assignments must not lead to an accepted proof, except for the listed finding.",
 "C07": "Oracle: polynomial evaluation by Horner in the harness and proof identity; alterations must be rejected.",
 "C08": "Oracle: conjunction of single verifications known by construction; adversarial and failing randomness sources.",
 "C09": "Oracle: the combined polynomial computed in the harness.",
 "C10": "Oracle: pairing checks over the string; freshness judged against the interposed entropy stream.",
 "C11": "Oracle: honest construction; repeatability of the proof; progress after faults stop.",
 "C12": "Oracle: proof identity; every altered proof must be rejected without a panic.",
 "C13": "Oracle: distance from low degree by construction; Byzantine provers are limited to the modelled deviations.",
 "C14": "Oracle: the harness's own satisfaction and commitment checks of relaxed instances.",
 "C15": "Oracle: the step function iterated in the harness; acceptance at every checkpoint; progress after crashes.",
 "C16": "Oracle: message identity; every altered, stale or mixed message must be rejected without a panic.",
 "C17": "Oracle: reference state machine of the steps allowed.",
 "C18": "Oracle: fold identity; every altered or mixed folding proof must be rejected without a panic.",
 "C19": "Oracle: the step function iterated in the harness; deviating provers must be rejected, except for the listed findings.",
 "C20": "Oracle: equality/inequality of absorbed histories kept by the simulator; perturbation of every prover message must change the following challenges.",
}
TECH = "deterministic simulation with fault injection: "
T = {
 "C01": "prover/verifier deployments under crashes, loss, duplication, degenerate and short entropy",
 "C02": "Byzantine network altering, splicing and misdirecting genuine proofs",
 "C03": "Byzantine provers adapting to spied challenges",
 "C04": "provers restarted in new processes with interposed, correlated or failing entropy",
 "C05": "derivation in processes with different hash seeds, entropy and schedules",
 "C06": "Byzantine provers with false assignments and edited copies",
 "C07": "opening sessions with Byzantine network",
 "C08": "batches judged with adversarial, suspended and failing randomness",
 "C09": "contributions aggregated under reordering and duplication",
 "C10": "authorities restarted with interposed, correlated, short or failing entropy",
 "C11": "prover/verifier deployments with crashes and restarts",
 "C12": "Byzantine network altering, truncating and splicing genuine proofs",
 "C13": "Byzantine provers adapting to spied challenges",
 "C14": "chains of folds over reordered, corrupted and adaptively chosen instances",
 "C15": "IVC machine with crashes, checkpoints and restarts",
 "C16": "Byzantine network altering, replaying and mixing IVC messages",
 "C17": "step inputs replayed, reordered and altered around crashes",
 "C18": "Byzantine network altering and mixing folding proofs",
 "C19": "Byzantine IVC provers",
 "C20": "interleaved transcript sessions and message perturbation",
}
NA = {
 "C21": "evaluation of an expression text is a pure, single-threaded function of its argument: there is no schedule, clock, I/O, randomness or fault for a simulator to vary",
 "C22": "the algebraic helpers are pure, single-threaded functions of their operands: there is nothing for a simulator to schedule or to make fail",
}
import re
src = open(os.path.join(ROOT, "sim/src/props/mod.rs")).read()
done = sorted(set(re.findall(r'^\s*"(C\d\d)" => i\(', src, re.M)))
checks = [{"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p} --thorough",
           "evidence_file": f"evidence/{p}.json", "technique": TECH + T[p], "level": "exploration",
           "level_note": NOTE + C[p]} for p in done]
na = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i not in done:
        na.append({"property": i, "reason": NA.get(i, "the check is not built yet")})
m = {"version": 1, "setup_cmd": "./check.sh --build",
     "hooks": {"guard": "cfg zkp_sim", "enable": 'RUSTFLAGS="--cfg zkp_sim" cargo build (done by check.sh)', "source_commits": full},
     "checks": checks, "not_applicable": na,
     "notes": "check.sh builds sim/ (own [workspace], path dependencies on /repo) and runs one property; ./check.sh --replay FILE reproduces a recorded violation."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
