# environment of every check
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0} MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export VERIF_REPO=${VERIF_REPO:-/repo} VERIF_SEED=${VERIF_SEED:-1}
unset PYTHONPATH
cd "$(dirname "${BASH_SOURCE[0]}")"
