#!/bin/bash
# usage: run.sh <PROPERTY-ID> [quick|thorough]
# Runs one check against the working tree of /repo (override: VERIF_REPO) from a scratch
# directory it creates and removes.  Exit 0 held, 1 violated, 2 inconclusive / harness error.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
SCRATCH="$(mktemp -d "${TMPDIR:-/tmp}/verif-$ID-XXXXXX")" || exit 2
trap 'cd /; rm -rf -- "$SCRATCH"' EXIT
cd "$SCRATCH" || exit 2
cp "$REPO/model_converters/onnx2json/settings.yaml" "$SCRATCH/settings.yaml" 2>/dev/null || true
export VERIF_HOME="$HERE" VERIF_REPO="$REPO" VERIF_TIER="$TIER" VERIF_SEED="${VERIF_SEED:-1}" VERIF_SCRATCH="$SCRATCH"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0
export MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig LOGLEVEL=CRITICAL
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export PYTHONPATH="$HERE:$REPO/core:$REPO/inference_engine:$REPO/quantizer:$REPO/model_converters/keras2json:$REPO/model_converters/tflite2json:$REPO/model_converters/onnx2json:$REPO/demo/demo_lib:$HERE/stubs"
LIMIT=840; [ "$TIER" = thorough ] && LIMIT=3600
timeout --signal=TERM --kill-after=10 "$LIMIT" /opt/venv/bin/python -m harness.main "$ID" "$TIER"
rc=$?
[ "$rc" = 0 ] || [ "$rc" = 1 ] || { echo "INCONCLUSIVE property=$ID exit=$rc"; rc=2; }
exit $rc
