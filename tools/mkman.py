import json
common="all obligations of the contracts discharged for all inputs; library functions, I/O and solvers trusted as listed in DESIGN.md; the replay on the real code is bounded and not counted"
notes={
"C04":common+"; regexp and strings.Index trusted through axioms",
"C09":common+"; trace callbacks are not specified",
"C10":common+"; disk = map of names to contents, os.WriteFile is one step, formatted messages not modelled, MCP handlers not covered",
"C11":common+"; bufio.Scanner, unicode and strconv.Unquote trusted through models and axioms",
"C13":common+"; documentation texts and sorted listings not specified",
"C14":common+"; fmt and encoding/json rendering trusted, a sink accepts n bytes, fails once, then accepts again",
"C15":common+"; json.Unmarshal trusted as a function from text to a tree",
}
claimed=["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16"]
na={}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[]
for p in props:
    if p['id'] in claimed:
        checks.append({"property":p['id'],"quick_cmd":"./check.sh %s quick"%p['id'],"thorough_cmd":"./check.sh %s thorough"%p['id'],
         "technique":"contract-based deductive verification: contracts on the real Go functions, verification conditions generated from their SSA on every run, discharged by z3/cvc5","level":"proof","level_note":notes.get(p['id'],common)})
    else:
        na[p['id']]="contracts not written yet"
m={"version":1,"setup_cmd":"cd gover && . /opt/vp/env.sh && mkdir -p ../bin && go build -o ../bin/gover .","checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in na.items()],"hooks":{"guard":"none","enable":"no hooks: contracts live in /verif/contracts and are overlaid at load time","source_commits":[]}}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
