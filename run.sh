#!/bin/bash
# run.sh <property> <quick|thorough>: rebuild what the check needs from /repo's
# working tree and run it.
set -u
id=$1
tier=${2:-quick}
verif=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-$id-XXXXXX") || exit 2
trap 'rm -rf -- "$work"' EXIT
trap 'exit 2' INT TERM
die() { echo "run.sh: $*" >&2; exit 2; }

cp "$verif/go/go.mod" "$work/go.mod" && cp "$verif/go/go.sum" "$work/go.sum" || die "go.mod"
cd "$verif/go" || die "no go directory"
mod=-modfile=$work/go.mod
go build $mod -o "$work/rewrite" ./rewrite || die "building the rewriter"

budget=240s
[ "$tier" = thorough ] && budget=800s
mkdir -p "$work/scratch"

case $id in
C14|C15|C16|C17|C19|C21|C23|C24|C26)
	mkdir -p "$work/fsm"
	extra=() tags=overlay
	if [ "$id" = C26 ]; then # the SPDY library runs under the scheduler too
		spdy=$(cd /repo && go list -mod=readonly -m -f '{{.Dir}}' github.com/moby/spdystream) || die "spdystream"
		mkdir -p "$work/spdystream/spdy"
		cp "$spdy/go.mod" "$work/spdystream/" && cp "$spdy"/spdy/*.go "$work/spdystream/spdy/" || die "spdystream"
		chmod -R u+w "$work/spdystream"
		(cd "$work/spdystream" && go mod edit -go=1.24) || die "spdystream"
		extra=("github.com/moby/spdystream=spdystream@$work/spdystream" "github.com/iomz/gosstrak/cmd/ale-ec=aleec@$verif/go/aleec")
		go mod edit -replace "github.com/moby/spdystream=$work/spdystream" "$work/go.mod" || die "go.mod"
		tags=overlay,mgmt
	fi
	printf 'module github.com/looplab/fsm\n\ngo 1.21\n' > "$work/fsm/go.mod"
	"$work/rewrite" -mode sched -out "$work/src" -overlay "$work/overlay.json" \
		$(cd /repo && go list -mod=readonly -deps ./cmd/gosstrak-fc | grep '^github.com/iomz/gosstrak/' | grep -v /cmd/) \
		"github.com/iomz/gosstrak/cmd/gosstrak-fc=gosstrakfc@$verif/go/gosstrakfc" \
		"github.com/looplab/fsm=fsm@$work/fsm" "${extra[@]}" || die "rewriting"
	go mod edit -replace "github.com/looplab/fsm=$work/fsm" "$work/go.mod" || die "go.mod"
	race=()
	[ "$id" = C21 ] && race=(-race -gcflags=verif.local/v/sched=-race=false)
	go build $mod -overlay "$work/overlay.json" -tags "$tags" "${race[@]}" -o "$work/mc" ./mc || die "building the check"
	[ -n "${VERIF_BUILD_ONLY:-}" ] && exit 0
	"$work/mc" -id "$id" -tier "$tier" -verif "$verif" -scratch "$work/scratch" -budget $budget
	;;
*)
	"$work/rewrite" -mode maps -out "$work/src" -overlay "$work/overlay.json" \
		github.com/iomz/gosstrak/filtering \
		"github.com/iomz/gosstrak/cmd/gobtags=gobtags@$verif/go/gobtags" || die "rewriting"
	go build $mod -overlay "$work/overlay.json" -tags overlay -o "$work/seq" ./seq || die "building the check"
	[ "$id" = C22 ] && { (cd /repo && GOFLAGS=-mod=readonly go build -o "$work/scratch/gobtags" ./cmd/gobtags) || die "building gobtags"; }
	[ -n "${VERIF_BUILD_ONLY:-}" ] && exit 0
	"$work/seq" -id "$id" -tier "$tier" -verif "$verif" -scratch "$work/scratch" -budget $budget
	;;
esac
