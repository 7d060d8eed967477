"""Writes MANIFEST.json and keeps it in step with properties.jsonl and checks/."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
T = {
 "P01": "runtime shadow monitor (exact arithmetic) on seeded workloads", "P02": "runtime shadow monitor per element",
 "P03": "runtime shadow monitor + round-trip monitor", "P04": "runtime oracle over a name corpus", "P05": "runtime shadow monitor of every table entry",
 "P06": "runtime trace comparison with the original table", "P07": "runtime shadow monitor with exact integers", "P08": "runtime shadow monitor of the layer",
 "P09": "runtime shadow monitor with exact rationals", "P10": "runtime shadow monitor of the operators", "P11": "runtime shadow monitor over every code",
 "P12": "runtime oracle (log-sum-exp) and metamorphic monitors", "P13": "online step-by-step checker of the LSTM trace", "P14": "offline history checker, snapshots and threads",
 "P15": "trace checker against a reference interpreter", "P16": "conservation ledger over slice histories", "P17": "runtime range oracle",
 "P18": "runtime oracle from the raw data", "P19": "model-based history monitor", "P20": "model-based history monitor", "P21": "runtime error-budget monitor on generated networks",
 "P22": "runtime comparison with the float network", "P23": "round-trip and consistency monitors", "P24": "online invariant monitor inside the loss function",
 "P25": "online monitor inside the cost function", "P26": "runtime energy oracle over bit assignments", "P27": "round-trip and aliasing monitors",
 "P28": "runtime shadow monitor and metamorphic relations", "P29": "field-by-field monitor of exported models", "P30": "field-by-field and inference monitors",
 "P31": "reference interpreter of the graph", "P32": "offline checker of the publish/reply log under virtual time"}
LIB = {"P11": "the logistic layer's tensorflow import", "P21": "tensorflow/keras, pydantic, simanneal", "P22": "tensorflow/keras", "P23": "tensorflow/keras, pydantic",
       "P24": "tensorflow/keras, simanneal", "P25": "simanneal", "P26": "dimod, neal and the quantum SDKs", "P27": "pydantic, PyYAML", "P29": "tensorflow/keras",
       "P30": "tflite and tensorflow", "P31": "onnx", "P32": "paho-mqtt"}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "checks", i.lower() + ".py")):
        note = "Holds on the executions observed, which are generated from VERIF_SEED; nothing is proved. The oracle is independent of the code (see DESIGN.md)."
        if i in LIB:
            note += " Trusts stubs/ to behave like the absent " + LIB[i] + " where the code uses it."
        checks.append({"property": i, "quick_cmd": "bash run.sh %s quick" % i, "thorough_cmd": "bash run.sh %s thorough" % i,
                       "technique": T[i], "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "no check yet: under construction"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Pure Python: checks run the sources of /repo's working tree; no hooks are needed in /repo. VERIF_REPO=<copy> aims run.sh at another tree."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
