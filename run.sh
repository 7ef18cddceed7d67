#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough] [--replay family/index]
# Builds the monitors and /repo's working tree into a scratch directory, runs
# the check of one property, rewrites evidence/<PROPERTY>.json.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
ID=${1:?property id}
TIER=${2:-${VERIF_TIER:-quick}}
REPLAY=
if [ "${3:-}" = "--replay" ]; then REPLAY=${4:?case}; fi
SEED=${VERIF_SEED:-1}

export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
unset GOARCH GOOS GOAMD64 GO386 GODEBUG GOGC GOMEMLIMIT GOMAXPROCS GOTRACEBACK GORACE

# What the monitors write stays in a scratch directory of this run.
SCRATCH=$(mktemp -d /tmp/rapmon.XXXXXXXX) || exit 3
cleanup() {
	case "$SCRATCH" in
	/tmp/rapmon.????????) chmod -R u+rwX "$SCRATCH" 2>/dev/null; rm -rf "$SCRATCH" ;;
	esac
}
trap cleanup EXIT
trap 'exit 3' INT TERM HUP
chmod 0711 "$SCRATCH"

mkdir -p "$SCRATCH/src" "$VERIF/evidence/replay" || exit 3
rm -f "$VERIF/evidence/$ID.json" "$VERIF/evidence/replay/$ID"-*.json
cp -r "$VERIF"/harness/. "$SCRATCH/src/" || exit 3
cd "$SCRATCH/src" || exit 3

build() { # build OUTPUT PACKAGE [FLAGS]
	local out=$1 pkg=$2
	shift 2
	if ! go build -trimpath "$@" -o "$out" "$pkg" >"$SCRATCH/build.log" 2>&1; then
		echo "INCONCLUSIVE property=$ID the build of $pkg failed:"
		head -40 "$SCRATCH/build.log"
		exit 3
	fi
}
# Some checks have the command line program inside as well: a copy under an
# importable name, laid over the module. The concurrency check is built with the
# race detector.
TAGS= EXPOSE=
case "$ID" in
C23) TAGS=cli_json EXPOSE='func RapmonJSON(out io.Writer, r format.Recording) error { return toJson(out, r, 0) }' ;;
C25) TAGS=cli_csv EXPOSE='func RapmonCSV(in io.Reader) (format.Recording, error) { return RecordingFromCSV(in) }' ;;
C26) TAGS=cliapp ;;
C28) TAGS=cli_summary EXPOSE='func RapmonSummary(out io.Writer, r format.Recording, size int64) { printSummary(out, r, size) }' ;;
C30) TAGS=cli_app ;;
esac
RACE=
if [ "$ID" = C26 ]; then RACE=-race; fi
if [ -n "$TAGS" ]; then
	mkdir -p "$SCRATCH/cliapp" || exit 3
	J=
	for f in /repo/cmd/rap-cli/*.go; do
		case "$f" in *_test.go) continue ;; esac
		n=$(basename "$f")
		sed 's/^package main\b/package cliapp/' "$f" >"$SCRATCH/cliapp/$n" || exit 3
		J="$J${J:+,}\"/repo/cmd/rapmoncliapp/$n\":\"$SCRATCH/cliapp/$n\""
	done
	if [ -n "$EXPOSE" ]; then
		printf 'package cliapp\n\nimport (\n\t"io"\n\n\t"github.com/recolude/rap/format"\n)\n\n%s\n' "$EXPOSE" >"$SCRATCH/cliapp/zz_rapmon.go" || exit 3
		J="$J${J:+,}\"/repo/cmd/rapmoncliapp/zz_rapmon.go\":\"$SCRATCH/cliapp/zz_rapmon.go\""
	fi
	printf '{"Replace":{%s}}' "$J" >"$SCRATCH/overlay.json"
	if ! go build -trimpath $RACE -tags "$TAGS" -overlay "$SCRATCH/overlay.json" -o "$SCRATCH/rapmon" . >"$SCRATCH/build.log" 2>&1; then
		echo "note: building with the command line program inside failed, going without:"
		head -5 "$SCRATCH/build.log"
		TAGS=
	fi
fi
if [ -z "$TAGS" ]; then
	build "$SCRATCH/rapmon" . $RACE
fi
build "$SCRATCH/rap-cli" github.com/recolude/rap/cmd/rap-cli
chmod 0755 "$SCRATCH/rapmon" "$SCRATCH/rap-cli"
if [ "$ID" = C35 ]; then
	build "$SCRATCH/example" github.com/recolude/rap/cmd/example
	build "$SCRATCH/rap-benchmark" github.com/recolude/rap/cmd/rap-benchmark
	chmod 0755 "$SCRATCH/example" "$SCRATCH/rap-benchmark"
fi

# The check of other machines has two more builds: one with 32 bit words, one
# which fuses products and sums (if this machine can run it).
if [ "$ID" = C43 ]; then
	other() { # other NAME WHAT SETTING...
	# Without this machine the check goes on with the others, and says so.
		local d=$SCRATCH/$1 what=$2
		shift 2
		mkdir -p "$d" || exit 3
		if ! env "$@" go build -trimpath -o "$d/rapmon" . >"$SCRATCH/build.log" 2>&1 ||
			! env "$@" go build -trimpath -o "$d/rap-cli" github.com/recolude/rap/cmd/rap-cli >>"$SCRATCH/build.log" 2>&1; then
			echo "note: the build with $what failed, going without:"
			head -5 "$SCRATCH/build.log"
		elif ! "$d/rapmon" list >/dev/null 2>&1; then
			echo "note: programs with $what do not run here, going without"
		else
			chmod 0755 "$d" "$d"/*
			return
		fi
		cp "$SCRATCH/rapmon" "$SCRATCH/rap-cli" "$d/" || exit 3
		chmod 0755 "$d" "$d"/*
	}
	other word "32 bit words" GOARCH=386
	other fused "fused arithmetic" GOAMD64=v3
fi

cd "$VERIF" || exit 3
ARGS=(check -prop "$ID" -tier "$TIER" -seed "$SEED" -cli "$SCRATCH/rap-cli" -scratch "$SCRATCH" -verif "$VERIF")
if [ -n "$REPLAY" ]; then ARGS+=(-replay "$REPLAY"); fi
"$SCRATCH/rapmon" "${ARGS[@]}"
exit $?
