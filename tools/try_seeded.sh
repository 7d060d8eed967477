#!/bin/bash
# try_seeded.sh [id ...]: runs each planted change's own check (quick) against a patched copy of /repo.
H="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
one() {
  id=$1; D=$(mktemp -d /tmp/seedtry-XXXXXX); cp -a /repo "$D/repo"
  P=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$2/seeded/$id/meta.json")
  git -C "$D/repo" apply "$2/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; rm -rf -- "$D"; return; }
  O=$(cd "$2"; VERIF_REPO="$D/repo" bash run.sh "$P" quick 2>/dev/null | grep -E "VIOLATION|HELD|INCON|mechanism" | cut -c1-170 | head -2 | tr '\n' ' ')
  case "$O" in *VIOLATION*) echo "caught $id $P ${O#*mechanism=}";; *) echo "MISSED $id $P $O";; esac
  rm -rf -- "$D"
}
export -f one
if [ $# = 0 ]; then set -- $(ls "$H/seeded"); fi
printf '%s\n' "$@" | xargs -P 6 -I{} bash -c 'one {} '"$H"
