#!/usr/bin/env python3
# writes MANIFEST.json from the table below and properties.jsonl
import json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
src = open(root + '/zkcheck/driver.go').read()
have = set(re.findall(r'"(C\d\d)":\s*check', src))
T = "abstract interpretation of the SSA over a value-number domain with inductive loop summaries; "
tech = {
 'C01': T+"requirements of success compared with the specified pairing and hash equations",
 'C02': T+"coverage of random linear combinations over index ranges",
 'C03': T+"requirements of success at the first contribution",
 'C04': T+"symbolic content of the output file",
 'C05': T+"symbolic content of the output file",
 'C06': T+"symbolic content of the output file",
 'C07': T+"symbolic content of the output file",
 'C08': T+"requirements of success compared with the specified pairing and hash equations",
 'C09': T+"coverage of random linear combinations over index ranges",
 'C10': T+"symbolic content of the output file",
 'C11': T+"content of hashed data and of challenges, printed values",
 'C12': T+"requirements of success",
 'C13': T+"symbolic content of the output files as sums over constraints and terms",
 'C14': T+"symbolic contents of two operations compared",
 'C15': T+"selection conditions of the partitioned sections",
 'C16': "abstract interpretation over a value-number domain with recursion, loops and goroutines unrolled at fixed domain sizes; result compared as linear combinations",
 'C17': T+"requirements of success, argument ranges of the command line actions",
 'C18': T+"symbolic content of the output files",
 'C19': T+"symbolic content of the output files",
 'C20': T+"error-propagation (typestate) analysis: every failure literal implied by success, no pending buffers",
 'C21': T+"provenance of random values",
 'C22': T+"information flow of random values to files, output and errors",
 'C23': "partition analysis of the parallel helper; happens-before race analysis over the abstract interpretation; index-disjointness of parallel work",
 'C24': "effect analysis of file opens, creations and writes with their guards",
 'C25': "command table and argument-flow analysis of the actions",
 'C26': "API-use analysis of decoders and reads along the call graph",
 'C27': T+"symbolic content of the output file and error propagation",
}
note = ("Sound for the code it models up to hand-written summaries of gnark, gnark-crypto, cli and the standard library; holds for every input, "
        "file size and batch count because loops are summarised inductively, not unrolled. Where a part of the code can't be summarised, the check says 'undecided' in its evidence and stays quiet.")
notes = {
 'C16': "Bounded: domains of 1 to 256 elements and up to 12 CPUs (16 in the thorough tier); points and roots of unity are symbolic. Relies on hand-written summaries of gnark-crypto's group operations and on the layout of fft.Domain's twiddles.",
 'C23': "Partition: bounded (up to 20 items, 9 CPUs). Races and joins: happens-before over unrolled operations at small sizes on 3 CPUs (lagrange: 1 to 8), all interleavings of those executions; element-disjointness of parallel work also for every number of items, where the summaries are exact. Work of library calls counts as one access per operand.",
}
m = {"version": 1,
     "setup_cmd": "bash build.sh",
     "checks": [], "not_applicable": [],
     "notes": "One analyser (zkcheck/, Go, golang.org/x/tools/go/ssa). It evaluates the entry points of /repo symbolically and compares what success requires and what is written with the specification of each property. known-findings.txt lists the defects found and repaired."}
na = {p['id']: p.get('not_applicable') for p in props}
reasons = json.load(open(root + '/tools/na.json'))
for p in props:
    i = p['id']
    if i in have and i in tech:
        m["checks"].append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
            "technique": tech[i], "level": "other", "level_note": notes.get(i, note)})
    else:
        m["not_applicable"].append({"property": i, "reason": reasons.get(i, "no check yet")})
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
