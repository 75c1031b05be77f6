#!/bin/bash
# check.sh <property>: runs one check against /repo's working tree.
cd "$(dirname "$0")" || exit 3
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export VF_REPO="${VF_REPO:-/repo}"
export PYTHONPATH=$VF_REPO/python/dp_accounting:$VF_REPO/learning:$VF_REPO/python/dp_auditorium:$PWD
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX=/nonexistent-pycache
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
exec /opt/venv/bin/python -m harness.run "$1"
