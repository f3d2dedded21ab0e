#!/bin/bash
# check.sh <property>        check a property (VERIF_SEED, VERIF_TIER=quick|thorough)
# check.sh replay <file>     replay a saved violation
# check.sh warm              build everything once
# Builds from /repo's current working tree; writes only below a temporary directory, /verif/evidence and /verif/replays.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export VH_VERIF="$V" VH_REPO="${VH_REPO:-/repo}"
VH_TMP="$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXXXX")" || { echo "ERROR no temporary directory"; exit 2; }
export VH_TMP
trap 'rm -rf "${VH_TMP:?}"' EXIT
cd "$V/harness" || exit 2
if ! go build -o "$VH_TMP/vh" ./cmd/vh; then
	echo "ERROR the driver does not build"
	exit 2
fi
case "${1:-}" in
replay) "$VH_TMP/vh" replay "$(cd "$OLDPWD" && realpath "$2")" ;;
warm) "$VH_TMP/vh" warm ;;
gen) "$VH_TMP/vh" gen "$2" "$3" "$4" ;;
C[0-9][0-9]) "$VH_TMP/vh" check "$1" ;;
*)
	echo "usage: check.sh <property> | replay <file> | warm"
	exit 2
	;;
esac
exit $?
