#!/bin/bash
# Everything is built by each check from /repo's working tree; this only makes sure that works here.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/.build" "$here/evidence" "$here/replays"
B=$(mktemp -d "$here/.build/b.XXXXXX") || exit 2
bash "$here/build.sh" "$B" "${VERIF_REPO:-/repo}"; rc=$?
case "$B" in "$here"/.build/b.*) rm -rf "$B";; esac
exit $rc
