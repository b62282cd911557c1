#!/bin/bash
# run.sh C01 [number of cases]   the check of one property (VERIF_TIER, VERIF_SEED)
# run.sh replay FILE             one saved case again
# run.sh setup                   build everything
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
cd "$(dirname "$0")" || exit 3
ulimit -c 0
if [ "$1" = setup ]; then exec python3-vt -m pbt.build; fi
exec python3-vt -m pbt.main "$@"
