#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T={
"C01":"bounded exhaustive exploration of all inputs of the listed spaces: real parser against an executable grammar automaton",
"C02":"bounded exhaustive exploration of accepted inputs: real tree against the tree built by the reference model",
"C03":"exhaustive enumeration of short literals and constants: decoded values of the real tree against the model",
"C04":"bounded exhaustive exploration of layouts: real positions against the model's positions",
"C05":"exhaustive enumeration of comment placements: real attachment against the model's attachment",
"C06":"exhaustive gap-by-gap layout rewriting: every rewriting must give the result of the canonical layout",
"C07":"bounded exhaustive exploration of byte strings with a totality monitor (panic, hang, memory, ill-formed tree)",
"C08":"exhaustive fault enumeration: a read failure at every byte, an unusual byte at every token boundary",
"C09":"exhaustive enumeration of the ways a reader can deliver the bytes, each compared with one whole read",
"C10":"stateless model checking of the real code: all interleavings at read and visit boundaries up to a preemption bound, all short call histories, race detector on serial and switched schedules",
"C11":"bounded exhaustive exploration of rejected inputs: real error position against the model's failure interval",
"C12":"bounded exhaustive exploration of inputs times all option settings, compared with each other",
"C13":"bounded exhaustive exploration of trees times visitor answer patterns against a traversal model",
"C14":"bounded exhaustive exploration of parsed and hand-built trees against a partition oracle",
"C15":"explicit-state exploration of lexer operation sequences against a cursor model",
"C16":"exhaustive enumeration of short texts in all token modes against a reference lexer",
"C17":"exhaustive enumeration of declarations and neighbours: alone, in consecutive calls and in the file",
"C18":"exhaustive enumeration of short token strings against reference construct readers",
"C19":"explicit-state exploration of advance/revert sequences against a text-cursor model",
"C20":"exhaustive enumeration of short comments, versions and positions against their definitions",
"C21":"bounded exhaustive exploration of rejected inputs: what each error says against the input and the grammar automaton",
"C22":"bounded exhaustive exploration of accepted inputs: JSON form against the tree, field by field; all flag settings of the dump tool",
"C23":"bounded exhaustive exploration of starting places in valid and invalid inputs times all entry points, against the grammar automaton's production for each",
}
COMMON=" Exhaustive within the bounds listed in the evidence file; beyond them nothing is claimed."
N={
"C01":"Trusts the reference grammar automaton (mc/refparse.go, mc/reflex.go), written from the documented grammar.",
"C02":"Trusts the reference model's tree construction.",
"C03":"Trusts the reference string joiner and decoder (mc/strjoin.go).",
"C04":"Trusts the reference position table (offset, line, column of every character).",
"C05":"Trusts the attachment rules of the model; one recorded finding (comments around rpc options) is modelled exactly.",
"C06":"Relational: trusts only the reference tokenizer for finding the gaps.",
"C07":"A hang is 25 s without returning, runaway memory 10 GB.",
"C08":"Faults are placed by a controlled reader; trusts the model only for which inputs are complete files.",
"C09":"Relational: readers follow the io.Reader contract.",
"C10":"Preemption only at read and visit boundaries; between them the race detector decides whether the calls share anything.",
"C11":"Trusts the model's first offending token.",
"C12":"Relational: trusts only the definition of what each option documents.",
"C13":"Trusts the list of children of each node kind (by reflection and hand-written table).",
"C14":"Trusts the partition definition by element kind.",
"C15":"Trusts the reference lexer and the cursor model.",
"C16":"Trusts the reference lexer.",
"C17":"Relational; the model finds the declarations and their extents.",
"C18":"Trusts the reference readers.",
"C19":"Trusts a direct computation of offset, line, column.",
"C20":"Trusts the direct definition of each accessor.",
"C21":"Trusts the model for what can follow; descriptions that name no token are not judged.",
"C22":"Trusts encoding/json's generic decoding and a field-by-field comparison by reflection.",
"C23":"Trusts the reference grammar automaton, started at the construct's production.",
}
claimed=[c for c in T if c not in ()]
m={"version":1,"setup_cmd":"bash ./build.sh","checks":[],"not_applicable":[],
 "notes":"No hooks in /repo: the checks use the exported packages only. mc/ is one Go module that replaces go-protoparser by /repo; check.sh rebuilds it on every run."}
for c in claimed:
    m["checks"].append({"property":c,"quick_cmd":f"./check.sh {c} quick","thorough_cmd":f"./check.sh {c} thorough",
     "technique":T[c],"level":"fault_enumeration" if c=="C08" else "model_checking","level_note":N[c]+COMMON})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1,ensure_ascii=False); open("/verif/MANIFEST.json","a").write("\n")
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
print("ok",len(m["checks"]))
