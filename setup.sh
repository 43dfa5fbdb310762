#!/bin/bash
# Builds what the checks need (the Fortran extensions of /repo, outside /repo) and
# prepares matplotlib's font cache inside /verif/.build.
cd "$(dirname "$0")" || exit 2
. ./env.sh
exec python -W ignore -m sim.build
