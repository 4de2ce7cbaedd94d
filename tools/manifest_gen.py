import json,subprocess,jsonschema
import os; ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(ROOT+'/properties.jsonl')]
import sys; sys.path.insert(0,ROOT)
from props import PROPS
tech={
"C01":"deterministic simulation: seeded allocation-failure sequences","C02":"deterministic simulation: seeded allocation-failure sequences","C03":"deterministic simulation: seeded callback exceptions, with and without memory faults",
"C04":"deterministic simulation: seeded fault sequences, life-time and heap ledger audit","C05":"deterministic simulation: seeded fault sequences, object state automata","C06":"deterministic simulation: seeded fault sequences, move event monitor inside the simulator",
"C07":"deterministic simulation: seeded callback and allocation faults, state comparison","C08":"deterministic simulation: seeded faults during relinking, node identity audit","C09":"deterministic simulation: seeded allocation-failure sequences, stability oracle",
"C10":"deterministic simulation: replay of seeded runs in perturbed environments","C11":"deterministic simulation: seeded scheduler interleaving callers, refinement against the call alone","C12":"deterministic simulation: seeded failure histories, refinement against a pristine process",
"C13":"deterministic simulation: simulated clock with jumps and stalls","C14":"deterministic simulation: seeded faults, recorded event counts as model","C15":"deterministic simulation: seeded allocation failures, quadratic reference models",
"C16":"deterministic simulation: adversarial comparison oracle and allocation failures, cost invariants","C17":"deterministic simulation: simulated buffer provider and fault sequences","C18":"deterministic simulation: seeded fault sequences with checked iterators and guarded heap",
"C19":"deterministic simulation: seeded fault sequences, projection events per element","C20":"deterministic simulation: seeded faults and adversary, heap and stack accounting","C21":"deterministic simulation: seeded fault sequences over proxy iterators with life-time tracking",
"C22":"deterministic simulation: seeded locale changes, allocation and callback faults during sorts, executable reference orders","C23":"deterministic simulation: seeded allocation and projection faults, less-than as the reference order",
"C24":"deterministic simulation: nearly sorted inputs and refused allocations, counted events","C26":"deterministic simulation: the adapted sorter is a simulated component that fails, reorders equivalent elements and returns values","C27":"deterministic simulation: seeded inputs and callback faults, recorded compare-exchanges against the published network","C28":"deterministic simulation: heap that decides addresses, seeded allocation and callback faults, address checks in the elements","C25":"deterministic simulation: adversarial comparisons and refused allocations, counted events and heap accounting"}
note="Seeded sampling of runs, not exhaustive: every reported violation is minimised and replayed exactly. Real library code from the working tree; heap, clock, callbacks, elements and iterators are the simulator's. Trusts gcc and the oracles in sim/."
extra={"C16":" Bounds are calibrated constants times n log n with a tolerance of 2.5: smaller constant-factor regressions pass.","C20":" Bounds are calibrated constants with a tolerance of 2.","C24":" Bounds are calibrated constants times n with a tolerance of 2 plus n.","C25":" Bounds are calibrated constants times the documented complexity with a tolerance of 2.5.","C15":" Models are quadratic re-implementations of the documented definitions; sizes up to 160.","C11":" Switch points are callbacks, moves and allocations: interleavings inside straight-line library code between two seams are not explored; weak memory is not modelled."}
m={"version":1,"setup_cmd":"python3 run.py build C22","checks":[],"not_applicable":[],
"notes":"python3 run.py replay FILE replays a violation. SIM_BUDGET=seconds overrides the search time. Findings: known_findings.json."}
for d in props:
    i=d["id"]
    if i in PROPS:
        m["checks"].append(dict(property=i,quick_cmd=f"python3 run.py check {i} quick",thorough_cmd=f"python3 run.py check {i} thorough",technique=tech[i],level="exploration",level_note=note+extra.get(i,"")))
    else:
        m["not_applicable"].append(dict(property=i,reason={
        "N02":"Dispatch is decided by the compiler; at run time there is nothing nondeterministic to simulate."}[i]))
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m,open(ROOT+'/MANIFEST.json','w'),indent=1); open(ROOT+'/MANIFEST.json','a').write("\n")
