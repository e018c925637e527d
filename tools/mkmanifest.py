#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of the registered monitors (vmon list)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "runtime monitoring: "
N = {
 "C01": (T + "native encodings of derived Rust types observed against the compiled type system", "Generated values of a fixed set of derived Rust types covering every class, plus the own data structures of the library."),
 "C02": (T + "bytes and re-read values compared with an independent byte layout model", "Random types and members; types with up to 300 weighted items; sizes above the generator limits are not observed."),
 "C03": (T + "typification verdicts compared with an independent membership model", "Random types with members, near-members and unrelated values; a reading of the typification rules is fixed in the model."),
 "C04": (T + "differential scan of hostile bytes, allocation monitor, CPU-time budget", "Random types with valid, mutated and random bytes; types with unsupported primitives only for absence of panics."),
 "C05": (T + "ids recomputed with an independent tagged hash; single-change mutations", "Random definitions and every kind of single change; collision resistance of SHA-256 is assumed."),
 "C06": (T + "ids recomputed with an independent tagged hash; single-change mutations", "Random libraries and type systems and every kind of single change."),
 "C07": (T + "compilation in every order and process compared with hand-written definitions", "A fixed family of derived Rust types in several libraries, random subsets, orders and repetitions."),
 "C08": (T + "ill-formed symbolic libraries with a single planted offence, compared with a well-formedness model", "Random libraries with one offence at a random place; well-formed ones must compile."),
 "C09": (T + "assembled systems and refusals compared with the closure of definitions", "Random sets of up to 4 libraries, orders, missing and damaged ones."),
 "C10": (T + "extracts and unions compared with the closure of definitions", "Random type systems, sets of roots, values in the extract and in the whole."),
 "C11": (T + "every lookup compared with the names in the definitions", "Random symbolic systems with aliases; every library and name pair, near-miss names and ids."),
 "C12": (T + "round trip and structural comparison with the definitions", "Random well-formed libraries, with up to 4 dependencies."),
 "C13": (T + "round trips, hostile bytes with allocation monitor and CPU-time budget", "Random objects; mutated and random bytes."),
 "C14": (T + "round trips, tampered texts and files in a scratch directory", "Random libraries and systems; random single and multiple alterations of the text."),
 "C15": (T + "round trips and corrupted texts of identifiers", "Random ids in every textual form; random single alterations; checksum collisions are excluded by construction of the oracle."),
 "C16": (T + "iteration, paths and queries compared with the definitions", "Random definitions of every class in every reference form."),
 "C17": (T + "paths and accessors compared with an independent walk of the value", "Random values and paths, existing and missing."),
 "C18": (T + "trees and layouts compared with an independent depth-first walk", "Random type systems."),
 "C19": (T + "independent parser of the printed source compared with the definitions", "Random libraries; the grammar read is that of the printed text."),
 "C20": (T + "independent parser of the printed value compared with the value", "Random values; documented ambiguities of the notation are excluded."),
 "C21": (T + "conversion results compared with an independent walk of the document", "Random documents without fractional numbers."),
 "C22": (T + "instrumented streams with short transfers, interruptions and a fault at each byte", "Every byte position of each generated encoding is made to fail."),
 "C23": (T + "bundled artefacts and tools observed in scratch directories", "The bundled libraries of this source tree."),
 "C24": (T + "round trips through JSON, YAML and a binary format, hostile documents", "Random objects and values, and mutated documents."),
 "C25": (T + "results of macros, constructors and conversions compared with values put together part by part", "Random payloads of each macro, constructor and conversion; sizes up to 300."),
 "C26": (T + "native encodings read with the descriptions of their types, hostile bytes with allocation monitor", "Random objects of the crate and mutations of their encodings; SymbolicLib is recursive and has no description; 128-bit numbers can't be read as values."),
}
claimed = subprocess.run([os.path.join(here, "harness/target/debug/vmon"), "list"], capture_output=True, text=True, check=True).stdout.split()
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check.sh build",
     "checks": [{"property": p, "quick_cmd": f"./check.sh check {p}", "thorough_cmd": f"./check.sh check {p}",
                 "technique": N[p][0], "level": "fault_enumeration" if p == "C22" else "exploration",
                 "level_note": N[p][1] + " Nothing is proved beyond the executions observed; the reference model in harness/src/model.rs is trusted."}
                for p in props if p in claimed],
     "not_applicable": [{"property": p, "reason": "the monitor is not built yet"} for p in props if p not in claimed],
     "notes": "No hooks are needed in /repo: every monitor observes the public API. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
