#!/bin/bash
# dev: run.sh pattern... on a fresh export of $VERIF_REPO or /repo
cd "$(dirname "$0")"
R=${VERIF_REPO:-/repo}; D=/tmp/d_$(echo $R|tr / _).json
export PYTHONHASHSEED=0
.build/export $R $D && exec python3-vt -m gover $D "$@"
