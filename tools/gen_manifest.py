#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM="bounded exhaustive enumeration of the implementation's executions (explicit-state style, no sampling) against an independent reference model"
BFS="explicit-state model checking of the real objects: breadth-first search over operation histories with deep-hash state matching, every reachable state checked against a reference model"
SCHED="stateless model checking of the real code: source-rewritten onto a controlled scheduler, all schedules within the stated preemption/timer bounds, happens-before state caching"
C=[]
def c(id,level,tech,note): C.append(dict(property=id,quick_cmd=f"./run.sh {id} quick",thorough_cmd=f"./run.sh {id} thorough",technique=tech,level=level,level_note=note))
T=" Trusts the reference model in go/seq and the map-order rewriting."
c("C01","exploration",ENUM,"Complete for all patterns up to 8 bits (thorough 10) at all offsets over a byte boundary and all IDs on the bits involved; longer filters by construction byte-wise."+T)
c("C02","exploration",ENUM,"All subsets of each pattern universe, three ways of assigning destinations, all map orders up to 4 destinations."+T)
c("C03","model_checking",BFS,"Frontier closes: all histories of any length over the stated operations and universes."+T)
c("C04","model_checking",BFS,"Frontier closes: all histories of searches, additions and deletions over the stated universes."+T)
c("C05","model_checking",BFS,"Every reachable state is saved and restored; every truncation of one encoding per universe."+T)
c("C06","model_checking",BFS,"Frontier closes; plus the complete field-boundary lattice."+T)
c("C07","exploration",ENUM,"All scheme/partition/filter layouts; values on complete boundary lattices, pairwise."+T)
c("C08","exploration",ENUM,"All owner codes and categories; all characters at all positions; all announceable lengths."+T)
c("C09","exploration",ENUM,"All layouts; full product of boundary values; all values of low ranges."+T)
c("C10","exploration",ENUM,"All PCs, headers, partitions and lengths; all 2-bit (thorough 3-bit) neighbours of valid tags."+T)
c("C11","exploration",ENUM,"All malformed patterns of the stated grammar in every table position on every engine."+T)
c("C12","exploration",ENUM,"All files and tables of the stated sizes, all map orders."+T)
c("C13","exploration",ENUM,"All step sequences up to the stated depth for all pairs of engine kinds."+T)
c("C18","exploration",ENUM,"All message sequences of the stated length against a real local HTTP endpoint.")
c("C20","exploration",ENUM,"All pairs and triples of the stated filter families, all IDs on the bits involved. Residual filters are read from the object by reflection.")
c("C22","exploration",ENUM,"All PCs, all bit strings up to 16 bits, all short files through the real command.")
c("C25","model_checking",BFS,"Every reachable state over the stated universes is dumped; large tables along four histories each."+T)
exec(open(os.path.join(here,"tools/manifest_mc.py")).read()) if os.path.exists(os.path.join(here,"tools/manifest_mc.py")) else None
claimed={x["property"] for x in C}
na=[]
for l in open(os.path.join(here,"properties.jsonl")):
    d=json.loads(l)
    if d["id"] not in claimed: na.append(dict(property=d["id"],reason="check not built yet"))
m=dict(version=1,setup_cmd="./setup.sh",checks=sorted(C,key=lambda x:x["property"]),not_applicable=na)
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
