#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
hist = "model-based histories"
tech = {
 'C01': "property-based testing: generated encodings against a reference codec and two other decoders",
 'C02': "property-based testing: generated setter histories, oracle is the canonical reference encoding and two other decoders",
 'C03': "stateful model-based testing: call histories, every field and the encoding compared with a model after every step",
 'C04': "fuzzing: structured and mutated byte strings, Decode and every accessor under CPU, memory and panic watchdogs",
 'C05': "fuzzing: structured and mutated byte strings and truncations, oracle is an independent well-formedness parser",
 'C06': "stateful model-based testing of interleaved iterations and appends",
 'C07': "metamorphic testing: the same encoding with and without inserted unknown fields",
 'C08': "stateful model-based testing steered to and across the 64 KiB mark, and generated encodings around it",
 'C09': "differential stateful testing: a reused message beside a fresh twin",
 'C10': "property-based testing of generated nested encodings with valid and malformed embedded messages",
 'C11': "property-based testing: allocations counted over generated calls",
 'C12': "property-based testing: repeated and reordered reads and writes on guarded memory",
 'C13': "stateful model-based testing with aliased arguments and values read, modified and set back",
 'C14': "property-based round trip and canonical-form testing of boundary-biased scalars against a reference codec",
 'C15': "stateful model-based testing over generated field numbers of every tag length",
 'C16': "stateful model-based testing of the offset table against a map",
 'C17': "property-based testing: generated proto files, the output type-checked and its method sets compared with the schema",
 'C18': "property-based testing: generated proto files compiled and driven by model-based histories, and values exchanged with protoc",
 'C19': "property-based and metamorphic testing of generator requests",
 'C20': "fuzzing of the built plugin with generated and corrupted requests, differential with the generator",
 'C21': "fuzzing of the built dumper with generated and corrupted requests, round trip through the text form",
 'C23': "property-based testing over generated pairs of compatible schemas: written with one, read and changed with the other, and back, against the reference codec",
 'C24': "property-based testing on protected memory: pages inside contents that must not be read are inaccessible during each call",
 'C25': "property-based testing: generated encodings of up to hundreds of thousands of fields under a CPU limit that only linear costs meet",
 'C26': "property-based testing with injected write errors, oracle is the concatenation of the arguments' texts",
 'C22': "differential testing of interleaved histories, and generated concurrent readers under the race detector",
}
note = ("Generated-input search with shrinking: no counterexample among the cases counted in the evidence file. "
        "Trusts the reference codec and model in harness/ref and harness/hist, and the generators' bounds (DESIGN.md).")
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{
   "property": p['id'], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
   "evidence_file": f"evidence/{p['id']}.json", "technique": tech[p['id']], "level": "exploration", "level_note": note} for p in props],
 "not_applicable": [],
 "notes": "One Go harness in harness/ (own module, replaces the zeropb module by /repo). Recorded findings and repaired defects: known_findings.txt. A failing case is shrunk, confirmed in a fresh process and saved under replays/; './check.sh replay FILE' runs it again.",
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
