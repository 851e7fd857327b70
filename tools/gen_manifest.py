#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented checks below."""
import json, os
ROOT=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
EXPL="exploration"
T={
"C01":("model-based property testing of gate histories against a dense reference simulator","Random and structured gate histories with observations at random points; every state compared amplitude by amplitude. Trusts the reference simulator; rotations whose matrix is nearly zero or one are accepted either way within the stated tolerance."),
"C02":("differential property testing against explicit matrices","Random Pauli strings, unitaries, controls and prior histories, compared with the explicit operator on the reference."),
"C03":("model-based property testing plus frequency tests over seeds","Probabilities and post-measurement states compared with the reference; frequencies by a chi-square bound that a correct simulator exceeds with probability below 1e-9 per case."),
"C04":("stateful model-based testing of allocation histories","Histories of allocate, release, relabel, gate and observe against the reference, in every order."),
"C05":("metamorphic testing: programs with and without observations","The same program with observations inserted at generated points and without them must agree; the format of states and dumps is checked against the reference."),
"C06":("invariant testing over generated histories up to thousands of qubits","Norm, uniqueness, index range and number of entries after generated histories; wide registers against a sparse basis-state model."),
"C07":("fault injection of illegal operands into generated histories","Each case injects one illegal call and requires a panic no later than the next observation."),
"C08":("metamorphic testing over seeds, histories, shots and threads","Traces of the same program and seed after different histories and beside other threads must be equal."),
"C09":("model-based property testing of QIR programs","Every intrinsic called in generated programs, state compared with the reference, operands compared byte by byte."),
"C10":("stateful model-based testing of measurement and result histories","Every stored, returned, read and recorded result compared with the model."),
"C11":("differential testing: reused machine against fresh machine","The same program after arbitrary predecessors and on a new thread must give the same trace."),
"C12":("stateful model-based testing against byte-vector values","Histories of array and tuple calls compared with plain values after each step."),
"C13":("stateful testing of ownership histories under a tracking allocator","Every heap block the runtime takes is tracked, poisoned and quarantined when freed; lifetimes are compared with a model of the counts."),
"C14":("stateful model-based testing of functor histories","Generated functor, copy and invoke histories; registered entries record what reaches them."),
"C15":("differential testing against independent integer arithmetic","Every operation compared with separately written arithmetic on generated integers of any size."),
"C16":("round-trip and differential testing of strings and conversions","Generated contents and values; text compared with independently computed text or parsed back."),
"C17":("model-based testing of output streams in both modes","The stream of generated recording histories is compared with the schema and parsed back; standard output is captured from a child process."),
"C18":("differential testing against libm, exact arithmetic and bounds","Generated arguments with special values; results within stated ulp of an independent evaluation."),
"C19":("fault injection with the process as the observation","Each generated assertion or failing call runs in a child process, whose end and output are compared with the model's verdict."),
"C20":("differential testing: generated modules run by the runner against direct calls","Generated modules run by the real runner crate over LLVM 18 and by direct calls on the backend; outputs compared."),
"C21":("mutation of valid modules with single defects, and byte fuzzing","Generated modules with one injected defect, truncations and byte mutations must be rejected before anything runs; valid ones must be accepted."),
"C22":("differential testing: generated call sequences in Python against the native runner","The Python module's own sources are built over a stand-in for pyo3 and called from CPython; callbacks, standard output and exceptions compared with the native runner doing the same sequence."),
}
DONE=json.load(open(os.path.join(ROOT,"tools/claimed.json")))
NA={}
checks=[]
for i in sorted(T):
    if i in DONE:
        t,n=T[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":"property-based testing: "+t,"level":EXPL,"level_note":n})
na=[{"property":k,"reason":v} for k,v in NA.items()]
for i in sorted(T):
    if i not in DONE:
        na.append({"property":i,"reason":"Check not built yet."})
m={"version":1,"setup_cmd":"./check.sh --build","checks":checks,"not_applicable":na,
"notes":"No hooks in /repo. Checks build the crates under test from /repo's working tree into /verif/target. known_findings.json lists defects found; DESIGN.md describes each check."}
json.dump(m,open(os.path.join(ROOT,"MANIFEST.json"),"w"),indent=1)
try:
    import jsonschema
    jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
print(len(checks),"checks")
