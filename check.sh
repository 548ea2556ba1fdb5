#!/bin/bash
# check.sh check <property> | replay <file> | determinism <property> <runs>
#
# Builds the simulator's driver and runs it; the driver builds the simulated
# programs from the current tree of /repo. Nothing is left behind but the
# evidence file (and, for a violation, a replay file).
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}
export HOME=${HOME:-/root}
export VSIM_VERIF=$here
bin=$(mktemp -d /tmp/vsim-bin.XXXXXX) || exit 3
trap 'rm -rf "$bin"' EXIT
if ! (cd "$here/sim/vsim" && GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o "$bin/vsim" .); then
  echo "check.sh: the driver does not build" >&2
  exit 3
fi
"$bin/vsim" "$@"
exit $?
