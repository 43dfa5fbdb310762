#!/bin/bash
# run.sh <property id> [quick|thorough]      run the check of one property
# run.sh <property id> --replay <file>       re-execute one recorded plan
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$1; shift
case $1 in quick|thorough) tier=$1; shift;; *) tier=${VERIF_TIER:-quick};; esac
exec python -W ignore -m sim.main "$id" --tier "$tier" "$@"
