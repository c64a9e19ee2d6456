#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below; properties without a check go to not_applicable."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
MC = "explicit-state exploration of the real code against a reference model"
TRUST = " Trusts blst/blstrs (field, k*G, pairing) and rustc; exhaustive within the stated alphabet and depth only."
C = {
 "C01": (MC + " (blob edit graph)", "Every enumerated blob's commitment is byte-identical to p(tau)*G computed with a setup whose tau is known, and to sums of Lagrange points on the public setup."),
 "C02": (MC + " (blob edit graph)", "All 128 cells of every enumerated blob equal the model's evaluations."),
 "C03": (MC + " (blob edit graph)", "All 128 proofs of every enumerated blob equal q_i(tau)*G; on the public setup they satisfy the opening equation."),
 "C04": (MC + " (batch graph)", "Every enumerated honest batch is accepted: all sequences to a depth over an item alphabet, all commitment groupings, sizes, orders."),
 "C05": (MC + " (fault graph over batches)", "Every enumerated batch with a false item is rejected as an invalid proof; truth is decided in the field with known tau."),
 "C06": ("exhaustive enumeration of adversary moves against the real verifier with a reference model", "No enumerated cancelling or adaptively forged batch is accepted, and every component of every enumerated batch changes the observed challenge."),
 "C07": (MC + " (malformed request graph)", "Every enumerated malformed request gives a non-verdict error without panic."),
 "C08": (MC + " (present-cell subset graph)", "Every enumerated subset, order and blob is recovered exactly."),
 "C09": (MC + " (defective request graph)", "Every enumerated defective recovery request is refused with an error and without panic."),
 "C10": (MC + " (encoding x place graph)", "Every enumerated encoding is accepted or refused as the model says at every place of the interface; outputs are accepted back."),
 "C11": ("exhaustive exploration of operation sequences on live contexts (de Bruijn walks) against a reference model", "Every word of operations to the depth bound gives the results of a fresh context."),
 "C12": ("stateless exploration of the real code under a controlled scheduler (bounded deviations, happens-before tracking decides the scheduling points)", "Every schedule of the scenarios with at most the stated number of deviations (preemptions and non-default choices) gives the results of the operations alone and ends. Sequentially consistent memory; std and blst are not instrumented, only their blocking is controlled."),
 "C13": ("exhaustive enumeration of configurations against a reference model", "Every enumerated build flavour, thread count and window width gives the model's results on the workload."),
 "C14": ("exhaustive exploration of requests, call words and object lives on the real C functions, with guard pages and an allocation monitor, against the Rust interface", "Every enumerated request and call word gives the Rust result; writes outside the documented bytes, writes on error, missing or extra messages and lost memory are violations."),
 "C15": ("exhaustive exploration of requests, call words and object lives on the real Java class against the Rust interface", "Every enumerated request gives the Rust result or an exception; every word of calls on a destroyed object throws."),
 "C16": ("exhaustive exploration of requests and of words of calls in flight on the real Node module against the Rust interface", "Every enumerated request gives the Rust result or throws, synchronously and asynchronously; completion orders are the ones the runtime produces (counted in the evidence), not controlled."),
 "C17": ("exhaustive exploration of requests, call words and collection points (controlled through a shim) on the real Go package against the Rust interface", "Every enumerated slice and word gives the Rust result; a collection is placed before, inside and after every call."),
 "C18": ("exhaustive exploration of bounded input families of the real multi-scalar multiplications against the sum of products", "Every enumerated (family, length, scalar pattern, point pattern) agrees with the naive sum and lengths that differ are refused."),
 "C19": ("exhaustive exploration of lists (words with collisions at every level of the addition tree, lengths, shapes of several lists, scratch-pad histories) on the real batched additions, inversions and conversions", "Every enumerated batch equals the one-by-one results."),
 "C20": (MC + " (domains, vectors, operation words)", "Every enumerated transform equals its defining sum and inverts."),
 "C21": (MC + " (polynomial operation graph)", "Every enumerated polynomial operation equals the schoolbook definition."),
 "C22": (MC + " (code parameters x erasure patterns)", "Every enumerated codeword and erasure pattern decodes or is refused as defined."),
 "C23": (MC + " (opening instances and forged moves)", "Every enumerated opening instance verifies; every false one is refused."),
 "C24": (MC + " (setup texts); point-by-point exploration of the embedded setup", "The embedded setup is consistent point by point; every enumerated bad setup text is refused; good ones behave as their points dictate."),
 "C26": (MC + " (keys with polynomials, lists of pairs, byte strings)", "Every enumerated commitment is the sum, every pairing check answers as the logs dictate, every enumerated byte string is reduced exactly."),
}
NA = {
 "C25": "No .NET SDK and no Nim compiler is installed and none can be fetched, so neither binding can be built or executed here; a model without the possibility to replay its traces on the implementation would not be bound to the code.",
}
exec(open(f"{root}/tools/manifest_more.py").read()) if os.path.exists(f"{root}/tools/manifest_more.py") else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in C:
        t, n = C[i]
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + t, "level": "model_checking", "level_note": n + TRUST})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "notes": "Each check builds what it needs from /repo's working tree into /verif/target (git-ignored) and explores."}
m["hooks"] = {"guard": "cfg(mc_small)",
              "enable": "mc/eip/<shape>/Cargo.toml builds /repo/eip7594 as a package of its own whose build script sets --cfg mc_small and MC_CELL, MC_BLOB; the crate itself and every other build are without it",
              "source_commits": ["4371534e689ca36a84b5689c105e4c210ba7b819"]}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
