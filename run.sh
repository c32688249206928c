#!/bin/bash
# run.sh <property id> [--replay FILE] [--cases N] [--only I]
# Builds /repo's working tree (Cython extensions, in place, git-ignored) and runs one check.
export HOME=/root LANG=C.UTF-8 PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PIP_NO_INDEX=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=${PYTHONHASHSEED:-0}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONWARNINGS=ignore
HERE="$(cd "$(dirname "$0")" && pwd)"
cd "$HERE" || exit 3
export JPT_REPO=${JPT_REPO:-/repo}
if [ -z "$VF_NOBUILD" ] && ! bash "$HERE/build.sh"; then
    echo "check: /repo does not build"
    exit 3
fi
export PYTHONPATH="$JPT_REPO/src:$HERE"
exec /opt/venv/bin/python -m vf.main "$@"
