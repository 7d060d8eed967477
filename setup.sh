#!/bin/bash
# Nothing to build: verifies that the interpreter, the stand-ins and the repository import.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
PYTHONPATH="$PWD" /opt/venv/bin/python - <<'P'
import json, numpy
for l in open("properties.jsonl"): json.loads(l)
json.load(open("MANIFEST.json"))
import harness.core
print("setup ok: numpy", numpy.__version__)
P
