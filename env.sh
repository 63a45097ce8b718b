# Environment for the simulator: the interpreter and built message packages of this sandbox, code from /repo.
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
BTPY=${BTPY:-/opt/venv/bin/python}
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONUNBUFFERED=1
export PYTHONPATH=$PYTHONPATH:${VERIF_DIR:-$PWD}
# (development only: run against a scratch copy of the repository)
if [ -n "$BTSIM_REPO" ]; then export PYTHONPATH=$BTSIM_REPO/ros_bt_py:$PYTHONPATH; fi
export PYTHONHASHSEED=${PYTHONHASHSEED:-0}
