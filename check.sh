#!/bin/bash
# check.sh PROPERTY quick|thorough     search for violations of one property in /repo's working tree
# check.sh replay FILE                 run one recorded execution again
# Environment: VERIF_SEED (default 1), VERIF_REPO (default /repo), VERIF_BUDGET (seconds of search)
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
seed=${VERIF_SEED:-1}
t0=$(date +%s.%N)
mkdir -p "$here/.build" "$here/evidence" "$here/replays"
B=$(mktemp -d "$here/.build/b.XXXXXX") || exit 2
trap 'case "$B" in "$here"/.build/b.*) rm -rf "$B";; esac' EXIT
# C21 is decided on a build with gaps between variables
case $1 in C21) export SAN=addr;; replay) grep -q '^#property=C21' "$2" && export SAN=addr;; esac
bash "$here/build.sh" "$B" "$repo" || { echo "check.sh: cannot build the simulator from $repo"; exit 2; }
pre=$(echo "$(date +%s.%N) $t0" | awk '{print $1-$2}')
if [ "$1" = replay ]; then
    "$B/vsim" "$here" "$repo" "$B" replay "$2"
    exit $?
fi
prop=$1; tier=${2:-quick}
case $tier in quick) case $prop in C14|C23|C24) def=30;; C03|C04|C09|C11|C12|C19|C22) def=45;; *) def=60;; esac; budget=${VERIF_BUDGET:-$def};; *) budget=${VERIF_BUDGET:-600};; esac
"$B/vsim" "$here" "$repo" "$B" check "$prop" "$tier" "$seed" "$budget" "$here/evidence/$prop.json" "$pre"
