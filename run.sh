#!/bin/bash
# bash run.sh <property id> [quick|thorough]   - run one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/no-pycache PYTHONHASHSEED=0
unset PYTHONPATH
exec python3 -m mc.core "$@"
