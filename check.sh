#!/bin/bash
# usage: check.sh <property id> quick|thorough     or: check.sh replay <file>     or: check.sh setup
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:${PATH:-/usr/bin:/bin}
export HOME=${HOME:-/root} LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export OPENMDAO_REPORTS=0 OPENMDAO_USE_MPI=0 CC=gcc FC=gfortran
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
export OPENMDAO_WORKDIR=$work VERIF_SCRATCH=$work
if [ "$1" = setup ]; then
    /opt/venv/bin/python -c "from mc import repo; print(repo.build()); print(repo.build('checked'))"
    exit $?
fi
/opt/venv/bin/python -m mc "$@"
