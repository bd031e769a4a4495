#!/bin/bash
# Runs a command with a private copy of /repo in place of /repo, so that
# planting leaves the real one alone (a vcheck may be running on it).
# Usage: private.sh COMMAND…
set -e
d=$(mktemp -d /tmp/private_repo.XXXXXX)
cp -a /repo/. "$d/"
unshare -Urm bash -c 'mount --bind "$0" /repo && exec "$@"' "$d" "$@" && rc=0 || rc=$?
rm -rf "$d"
exit $rc
