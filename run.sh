#!/bin/bash
# usage: run.sh <PROPERTY-ID> [--replay FILE]     (cwd: anywhere)
# Runs one monitor against the sources in /repo/src as they are now.
HERE=$(cd "$(dirname "$0")" && pwd)
ID=$1; shift
WORK=$(mktemp -d "${TMPDIR:-/tmp}/verif.$ID.XXXXXX")
trap 'rm -rf "$WORK"' EXIT
trap 'exit 143' TERM INT
export VERIF_WORK=$WORK
export PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR=$WORK/numba
export HOME=$WORK/home XDG_CACHE_HOME=$WORK/home/.cache TMPDIR=$WORK
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
unset SORCHA_SEED
mkdir -p "$WORK/home" "$WORK/numba"
cd "$HERE" || exit 2
PYTHONPATH=$HERE:/repo/src /opt/venv/bin/python -W ignore -m vlib.runner "$ID" "$@" &
wait $!
rc=$?
case $rc in
132|134|135|136|139) # SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV: raised by the code that ran, not sent from outside
    PYTHONPATH=$HERE:/repo/src /opt/venv/bin/python -W ignore -m vlib.died "$ID" $rc
    exit $?;;
esac
exit $rc
