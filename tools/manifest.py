#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ALG = "exhaustive exploration of the implementation over small groups with a controlled random oracle, plus replay of every structural trace over the real curve"
TOY_NOTE = ("The code of /repo itself is compiled over a stand-in group (every scalar, point, random draw and oracle answer within the bounds is enumerated) and every trace of its "
            "structural scenarios is replayed over the real curve with equal outcome. Trusts: the stand-in group and oracle model; that behaviour does not depend on group size beyond the bounds; ")
T = {
 "C01": (ALG, "honest runs within the draw bound; every subset of re-encoded objects."),
 "C02": (ALG, "every key, message and tag up to length 3 in the small groups."),
 "C03": (ALG, "soundness is judged by extraction: every accepted pair of challenges must give a witness."),
 "C04": (ALG, "as C03, for the roster proof."),
 "C05": (ALG, "as C03, for the issuance proof."),
 "C06": (ALG, "exact weighted distributions compared in cyclic groups of order 2 to 7; computational assumptions are not modelled."),
 "C07": (ALG, "completeness over every witness and draw, soundness by extraction over every statement, challenge and response."),
 "C08": (ALG, "exact distributions of proofs per statement and challenge."),
 "C09": (ALG, "compares what is hashed, so it trusts merlin's hash."),
 "C14": (ALG, "every value, opening, generator and commitment in the small groups."),
 "C15": (ALG, "every key, message and nonce in groups of order 2 to 11."),
 "C22": (ALG, "every history of up to 4 (quick) or 5 (thorough) operations."),
 "C23": (ALG, "a large stand-in group in which every draw is unique; entropy repeated or fresh."),
 "C24": (ALG, "every interleaving of two runs of five steps and of three runs of three moves, one of them faulty; every history of 3 (thorough: 4) of 11 requests to one issuer."),
 "C26": (ALG, "every operator and conversion on every pair of points and scalars in groups of order 2 to 7."),
 "C25": ("exhaustive exploration of operations over the product of argument menus on the implementation", "Every combination within the menus, on the real code; scalar and point values outside the menus are represented by honest ones."),
 "C10": ("exhaustive enumeration of malformed inputs against the implementation, inputs ending at a guard page", "Within the stated input space, on the real code; not every byte string."),
 "C11": ("exhaustive enumeration of object shapes, round trips on the implementation", "Every shape and size within the bounds; scalar and point values are representative."),
 "C12": ("exhaustive enumeration of malformed inputs against the implementation", "Within the stated input space, on the real code."),
 "C13": ("exhaustive enumeration of phone numbers against the implementation", "Every number of few digits, and longer ones that deviate from patterns in up to two places."),
 "C28": ("exhaustive enumeration of strings against the implementation", "Every string within the stated sets, on the real code; SHA-512 is trusted not to collide."),
 "C29": ("exhaustive exploration of pairs of objects on the implementation", "Every pair within the stated set of objects, on the real code."),
 "C30": ("exhaustive exploration of operation sequences against a reference model of live values and buffers", "The shipped JavaScript runs over a stand-in for the WebAssembly instance that does every sequence of the operations compiled code can do, up to a depth; the functions behind it are js.rs compiled natively."),
 "C31": ("exhaustive exploration of single-bit deviations of the random source on the implementation", "Every bit of every tape within the stated set, on the real curve. A drawn value seen only as a point is judged by how many different points there are; masks of proofs are judged by C08."),
 "C16": ("exhaustive exploration of the random source's answers", "Every sequence of chunk kinds up to the depth bound, on the real code."),
 "C17": ("exhaustive exploration of object histories under an instrumented allocator", "Every history of operations to the depth bound; stack temporaries, registers and compiler copies are out of scope."),
 "C18": ("exhaustive enumeration of argument faults of the C API in a guarded address space", "The C API is built from /repo's ffi crate and loaded; allocator calls are tracked by a preloaded library."),
 "C27": ("exhaustive exploration of C/Rust call combinations through the published C header", "A C program is compiled against the header, its arguments bound by the names the header gives them; the cases are those of C19."),
 "C19": ("exhaustive exploration of C/Rust call combinations on the implementation", "Every assignment of protocol steps to the two APIs, and every dishonest variant in the menu."),
 "C20": ("exhaustive exploration of JavaScript/Rust call combinations on the implementation", "wasm/src/js.rs is compiled natively over a stand-in for wasm-bindgen whose values are JSON text."),
 "C21": ("exhaustive enumeration of lengths, contents and allocator failures", "Every length to the bound with the allocator succeeding and failing."),
}
claimed = [p["id"] for p in props if p["id"] in T and os.path.exists(os.path.join(V, "crates/real/src/bin", {"C10": "bytes.rs", "C11": "bytes.rs", "C12": "bytes.rs", "C13": "bytes.rs", "C16": "bytes.rs", "C17": "wipe.rs", "C18": "ffi.rs", "C19": "ffi.rs", "C20": "js.rs", "C21": "buf.rs", "C25": "ops.rs", "C27": "ffi.rs", "C28": "bytes.rs", "C29": "bytes.rs", "C30": "jscall.rs", "C31": "draws.rs"}.get(p["id"], "conform.rs")))]
import importlib.util
spec = importlib.util.spec_from_file_location("check", os.path.join(V, "check.py")); c = importlib.util.module_from_spec(spec); spec.loader.exec_module(c)
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": "model checking: " + T[p][0], "level": c.LEVEL[p],
                 "level_note": (TOY_NOTE + T[p][1]) if T[p][0] is ALG else T[p][1]} for p in claimed],
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in claimed],
     "notes": "No hooks in /repo: everything the checks need is public. Repairs of genuine defects are the fix: commits, listed in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed")
