#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a harness mc/cNN.cpp is claimed."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
T = {
 "ref": ("bounded exhaustive enumeration of programs, conformance against an independent reference interpreter",
         "every program within the stated bounds is executed by the real library and compared with the reference model; beyond the bounds nothing is claimed"),
 "sched": ("exhaustive enumeration of schedules / instruction boundaries of the real VM",
           "every schedule within the bounds is executed on the real library against the unperturbed execution or model"),
 "fault": ("exhaustive fault enumeration on the real library (every allocation index / stream position / byte)",
           "every fault point of every history in the bounded set is executed under ASan+UBSan with an accounting host allocator"),
 "hist": ("exhaustive enumeration of operation sequences against an abstract model",
          "every operation sequence up to the depth is executed on the real library in lock-step with an abstract model"),
}
TECH = dict(C01="ref", C02="ref", C03="ref", C04="hist", C05="sched", C06="hist", C07="sched", C08="sched", C09="fault", C10="fault", C11="hist",
            C12="sched", C13="hist", C14="sched", C15="sched", C16="sched", C17="hist", C18="ref", C19="ref", C20="ref", C21="sched", C22="ref",
            C23="hist", C24="hist", C25="ref", C26="fault", C27="hist", C28="sched")
LEVEL = {"ref": "model_checking", "sched": "model_checking", "hist": "model_checking", "fault": "fault_enumeration"}
NA = {}
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    if os.path.exists(V + "/mc/%s.cpp" % i.lower()):
        t = TECH[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": T[t][0], "level": LEVEL[t], "level_note": T[t][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
