#!/bin/bash
# usage: check.sh <property id> [quick|thorough]      run the check of one property against /repo
#        check.sh --replay <replay file>              re-execute a recorded violation
cd "$(dirname "$0")" || exit 2
export PYTHONINTMAXSTRDIGITS=0 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH PYTHONSTARTUP
py=/opt/venv/bin/python
if [[ "$*" == *C19* ]]; then
    # the crash check interposes the file-system calls of its child processes
    d=$(mktemp -d /tmp/picf_shim.XXXXXX) || exit 2
    gcc -shared -fPIC -O1 -o "$d/fsshim.so" mc/fsshim.c -ldl || exit 2
    PICF_SHIM="$d/fsshim.so" LD_PRELOAD="$d/fsshim.so" $py -W ignore -m mc.run "$@"
    rc=$?
    rm -f "$d/fsshim.so"; rmdir "$d"
    exit $rc
fi
exec $py -W ignore -m mc.run "$@"
