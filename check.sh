#!/bin/bash
# check.sh setup | check <property> <quick|thorough> | replay <file>
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
B="$PWD/.build"
mkdir -p "$B"
export GOCACHE="$B/gocache"
build() {
	(cd engine && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off go build -o "$B/gosym.$$" .) || exit 2
	mv "$B/gosym.$$" "$B/gosym"
}
stale() { [ ! -x "$B/gosym" ] || [ -n "$(find engine -newer "$B/gosym" -name '*.go' -print -quit)" ]; }
case "$1" in
setup)
	build
	# warms the build cache of the native replays
	"$B/gosym" run -val 1 Smoke
	;;
check)
	stale && build
	exec "$B/gosym" check -prop "$2" -tier "${3:-quick}"
	;;
replay)
	stale && build
	exec "$B/gosym" replay "$2"
	;;
*) echo "usage: check.sh setup | check <property> <quick|thorough> | replay <file>" >&2; exit 2 ;;
esac
