# Environment every check runs in (same interpreter and pins as the repository's own build).
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${SIM_HASHSEED:-0}" PYTHONPATH=/verif:/repo
export MPLBACKEND=agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export FC=gfortran CC=gcc
unset PYTHONHOME PYTHONSTARTUP
