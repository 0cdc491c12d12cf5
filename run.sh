#!/bin/bash
# usage: run.sh <property> [quick|thorough] [--replay FILE] [--case SCENARIO:INDEX] [--seed N]
# Runs the monitors of one property against /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
tier=${VERIF_TIER:-quick}
case "${2:-}" in quick|thorough) tier=$2;; esac
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
unset PYTHONPATH PYTHONHOME PYTHONSTARTUP PYTHONOPTIMIZE
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
# No byte code of an older tree may be picked up.
export PYTHONPYCACHEPREFIX=/nonexistent/verif-pycache
# Set iteration order of strings: fixed on the quick tier, varied by the seed on the thorough one.
if [ -z "${VERIF_HASHSEED:-}" ]; then
  if [ "$tier" = thorough ]; then VERIF_HASHSEED=$((VERIF_SEED % 1000)); else VERIF_HASHSEED=0; fi
fi
export VERIF_HASHSEED PYTHONHASHSEED=$VERIF_HASHSEED
cd "$here" || exit 2
exec /opt/venv/bin/python -B -m harness.run "$@"
