#!/bin/bash
# check.sh PROPERTY quick|thorough: decides one property on /repo's working tree.
# check.sh replay FILE: repeats a recorded violation and prints its trace.
# check.sh determinism N: repeats N seeds of every property in other processes.
# check.sh selftest [N]: compares the simulated file system with the real one.
here=$(cd "$(dirname "$0")" && pwd)
export GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local TZ=UTC
d=$(mktemp -d /tmp/sarverif.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
if [ "$1" = selftest ]; then
	cp -r "$here/sim/rt" "$d/g" && printf 'module simmod\n\ngo 1.21\n' > "$d/g/go.mod" || exit 2
	(cd "$d/g" && go build -o "$d/st" ./selftest) || exit 2
	cd "$d" && ./st -n "${2:-3000}"
	exit
fi
(cd "$here/sim/cmd" && go build -o "$d/check" ./check) || exit 2
if [ "$1" = replay ]; then set -- "$1" "$(realpath "$2")"; fi
"$d/check" "$here" "$@"
