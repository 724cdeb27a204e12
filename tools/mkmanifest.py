#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claimed properties are those listed here with a note."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T="deductive verification of contracts on the real code (govc: symbolic VC generation over go/ssa with loop summaries, own bit-vector/list simplifier, z3 back end)"
N="Every obligation generated from /repo's current source is discharged for all inputs; a failing obligation is replayed against the real code. Trusted: the condition generator, z3, the models of the standard library listed in the evidence. "
CLAIMED={
"C01":"",
"C02":"",
"C03":"",
"C04":"",
"C05":"",
"C06":"Allocation bounds and no-panic obligations for the decoders under contract.",
"C07":"",
"C08":"The cycle walk findCycleLength itself is only checked bounded (listed as bounded in the evidence, not as proved); everything around it is proved against its contract.",
"C09":"",
"C10":"",
"C11":"Range proofs are an abstract predicate of commitment and proof (external bulletproofs library).",
"C12":"Curve arithmetic of the external library (group laws, point decoding, inverse) is a trusted model.",
"C13":"",
"C15":"",
"C16":"",
"C14":"Times of whole seconds between 1970 and 2106 and difficulties below 2^44, so that machine arithmetic does not wrap.",
}
NA={
"C20":"Interleavings of goroutines, data races and deadlocks are outside sequential contracts: no verifier available here has permissions for Go channels and goroutines.",
"C21":"The storage layer is a set of unimplemented stubs (storage/mysql.go); there is no implementation a contract could be proved about.",
"C22":"The kernel sum check does not exist in the code (TODO in verifyKernels), so no contract on existing functions can express it.",
"C23":"Liveness over unbounded histories of network events; contracts decide only safety of single calls.",
}
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
m=dict(version=1,setup_cmd="bash check.sh build",checks=[],not_applicable=[])
for i in ids:
    if i in CLAIMED:
        m["checks"].append(dict(property=i,quick_cmd="bash check.sh %s quick"%i,thorough_cmd="bash check.sh %s thorough"%i,
          evidence_file="evidence/%s.json"%i,technique=T,level="proof",level_note=(N+CLAIMED[i]).strip()))
    else:
        m["not_applicable"].append(dict(property=i,reason=NA.get(i,"Contracts for this property are not complete yet.")))
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
