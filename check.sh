#!/bin/bash
# check.sh build                     build the simulator from /repo's working tree
# check.sh <property> quick|thorough decide one property
# check.sh replay FILE               repeat a recorded failing run
here=$(cd "$(dirname "$0")" && pwd) || exit 2
started=$(date +%s.%N)
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export LANG=C.UTF-8
unset LC_ALL LC_CTYPE RUNEWIDTH_EASTASIAN GORACE GOEXPERIMENT GODEBUG
export GOFLAGS=
repo=/repo
b=$here/.build

build() { # build plain|race...
	mkdir -p "$b" || return 2
	exec 9>"$b/lock"
	flock 9
	(cd "$here/sim" && go build -o "$b/instr" ./instr) || return 2
	"$b/instr" -repo "$repo" -sim "$here/sim" -out "$b/ov" || return 2
	local k
	for k in "$@"; do
		local flag= ov=overlay.json
		[ "$k" = race ] && flag=-race ov=overlay.race.json
		(cd "$here/sim" && go build -overlay "$b/ov/$ov" -modfile "$b/ov/go.mod" -mod=mod $flag -o "$b/dst.$k" ./dst) || return 2
	done
	flock -u 9
}

kinds() {
	case "$1" in C01 | C02 | C13 | C14 | C16) echo plain race ;; *) echo plain ;; esac
}

case "$1" in
build)
	build plain race || exit 2
	;;
replay)
	build plain race >&2 || exit 2
	exec "$b/dst.plain" replay -plain "$b/dst.plain" -race "$b/dst.race" "$2"
	;;
C*)
	build $(kinds "$1") || exit 2
	exec "$b/dst.plain" drive -prop "$1" -tier "${2:-quick}" -seed "${VERIF_SEED:-1}" -plain "$b/dst.plain" -race "$b/dst.race" -verif "$here" -workers "${WORKERS:-8}" -started "$started" ${LIMIT:+-limit $LIMIT} ${SCALE:+-scale $SCALE}
	;;
*)
	echo "usage: check.sh build | <property> quick|thorough | replay FILE" >&2
	exit 2
	;;
esac
