#!/bin/bash
# ./check.sh <PROPERTY> [quick|thorough]        run one check
# ./check.sh <PROPERTY> replay <file>           re-execute one recorded case
HERE=$(cd "$(dirname "$0")" && pwd)
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/verif-XXXXXXXX") || exit 1
cleanup() { [ -n "$SCRATCH" ] && rm -rf -- "$SCRATCH"; }
trap cleanup EXIT
mkdir -p "$SCRATCH/mpl" "$SCRATCH/home"
cp /opt/vp/mplconfig/fontlist*.json "$SCRATCH/mpl/" 2>/dev/null
export VERIF_SCRATCH="$SCRATCH" MPLCONFIGDIR="$SCRATCH/mpl" MPLBACKEND=Agg HOME="$SCRATCH/home"
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$HERE"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
cd "$HERE" || exit 1
if [ "$1" = C13 ] && gcc -shared -fPIC -O1 -o "$SCRATCH/crash.so" "$HERE/mc/crash.c" -ldl 2>"$SCRATCH/gcc.log"; then
    export VERIF_CRASH_SO="$SCRATCH/crash.so"
    LD_PRELOAD="$SCRATCH/crash.so" "$PY" -m mc.main "$@"
else
    "$PY" -m mc.main "$@"
fi
rc=$?
[ "$rc" = 0 ] || [ "$rc" = 1 ] || { echo "VIOLATION property=$1 replay=$HERE/replays/$1-abort.txt"; mkdir -p "$HERE/replays"; echo "check process ended with status $rc" > "$HERE/replays/$1-abort.txt"; rc=1; }
exit $rc
