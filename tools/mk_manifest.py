import json,sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
tech={
"C01":"property-based testing: round trip over generated types and values",
"C02":"property-based testing: generated values against a reference model of the output tree, read by an independent strict parser",
"C03":"property-based testing: metamorphic relation between random spellings of a document",
"C04":"property-based testing: mutated documents against a reference model of the derive attributes",
"C05":"property-based testing: near-miss names against a reference model",
"C06":"stateful property-based testing: random visitor scripts against a reference walk of the tree",
"C07":"property-based fuzzing with fault injection: truncation, damage, trailing content, chunking and I/O faults",
"C08":"property-based testing: error context against positions known from rendering the document",
"C09":"property-based testing with enumerated sink faults and injected misuse",
"C10":"stateful property-based testing: random builder histories read by an independent strict parser",
"C11":"exhaustive small strings plus property-based testing against a reference definition",
"C12":"property-based testing: lexical rules against reference parsers and round trips in every position",
"C13":"property-based testing: derived text types against a reference model",
"C14":"property-based testing: mutated documents against a reference model of enums",
"C15":"property-based testing: mutated documents against a reference model of flattening",
"C16":"property-based testing with fault and panic injection and an instance-counting type",
"C18":"property-based testing: generated values against a model of the mappings requested, and differentially against the builder interface",
"C19":"property-based testing: scripted field types against a reference model of the field protocol",
"C20":"property-based testing: metamorphic relation between documents of different lengths, measured by a counting allocator",
"C21":"stateful property-based testing: metamorphic relation between operations alone and the same in sequence, nested, and interleaved by generated schedules",
"C22":"property-based testing: metamorphic relation between the times taken for inputs of two lengths",
"C17":"property-based testing: generated programs judged by rustc",
}
note={}
for l in open('/verif/level_notes.txt'):
    k,v=l.rstrip('\n').split(' ',1); note[k]=v
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in tech:
        checks.append(dict(property=i,quick_cmd=f"./check {i}",thorough_cmd=f"env VERIF_TIER=thorough ./check {i}",technique=tech[i],level="fault_enumeration" if i=="C09" else "exploration",level_note=note[i]))
    else:
        na.append(dict(property=i,reason="The check isn't built yet."))
json.dump(dict(version=1,setup_cmd="./setup",checks=checks,not_applicable=na,notes="See DESIGN.md. Every check builds the harness in /verif/harness against /repo's working tree and runs it; ./check ID --replay FILE reruns a replay file; ./check ID --seed N and --cases N vary a run."),open('/verif/MANIFEST.json','w'),indent=1)
