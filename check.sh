#!/bin/bash
# Runs the check of one property against /repo's working tree: check.sh <property>
# Exit 0: held; 1: VIOLATION line printed; 2: no answer.
id="$1"
root="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export GOROOT=/opt/veriftools/go1.27.3
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
export VERIF_ROOT="$root"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
[ -n "$2" ] && export VERIF_TIER="$2"

base=/dev/shm
scratch="$(mktemp -d -p "$base" verif.XXXXXX 2>/dev/null)" || scratch="$(mktemp -d)" || exit 2
export VERIF_SCRATCH="$scratch"
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM HUP

mkdir -p "$root/evidence/replays"
rm -f "$root/evidence/$id.json"

# Work on copies of the module files, so that the committed ones never change.
cp "$root/harness/go.mod" "$scratch/go.mod" && cp "$root/harness/go.sum" "$scratch/go.sum" || exit 2
args=(-modfile="$scratch/go.mod")
pkg=./checks
limit=870

case "$id" in
C20|C27) # compiled with the race detector
	args+=(-race)
	export GORACE="halt_on_error=0 exitcode=0 log_path=$scratch/race history_size=3"
	;;
C19) # bbolt is replaced by a copy of it with hooks at its file writes
	bolt="$(cd "$root/harness" && go list -modfile="$scratch/go.mod" -m -f '{{.Dir}}' go.etcd.io/bbolt)" || exit 2
	mkdir "$scratch/bbolt" && cp "$bolt"/*.go "$scratch/bbolt/" && chmod -R u+w "$scratch/bbolt" || exit 2
	echo "module go.etcd.io/bbolt" > "$scratch/bbolt/go.mod"
	rm -f "$scratch"/bbolt/*_test.go
	python3 "$root/harness/bolthook/patch.py" "$scratch/bbolt" "$root/harness/bolthook" || exit 2
	echo "replace go.etcd.io/bbolt => $scratch/bbolt" >> "$scratch/go.mod"
	pkg=./crash
	;;
esac

if ! (cd "$root/harness" && go test -c -o "$scratch/check" "${args[@]}" "$pkg") > "$scratch/build.log" 2>&1; then
	echo "the harness does not build against /repo:"
	tail -n 40 "$scratch/build.log"
	exit 2
fi

cd "$scratch" || exit 2
[ "$VERIF_TIER" = thorough ] && limit=7200
ulimit -v unlimited 2>/dev/null
timeout -k 10 "${VERIF_LIMIT:-$limit}" "$scratch/check" -test.run "^Test$id\$" -test.timeout 0 > "$scratch/out.log" 2>&1
rc=$?
head -c 20000 "$scratch/out.log"

if grep -q "^VIOLATION property=$id " "$scratch/out.log"; then
	exit 1
fi
if [ $rc = 0 ] && [ -f "$root/evidence/$id.json" ] && grep -q "^$id: " "$scratch/out.log"; then
	exit 0
fi
# A crash of the whole process (which Go does not let the check recover from) is the library's if the
# innermost frame of either is the library's.
if grep -q -E '^(fatal error|panic|unexpected fault|SIG[A-Z]+): ?' "$scratch/out.log"; then
	frame="$(sed -n -E '/^(fatal error|panic|unexpected fault)/,$p' "$scratch/out.log" | grep -m1 -E '^(github.com/cybercryptio/d1-lib/|verif/harness)')"
	case "$frame" in
	github.com/cybercryptio/d1-lib/*)
		replay="$root/evidence/replays/$id-$VERIF_TIER-$VERIF_SEED.txt"
		{ echo "rerun: VERIF_SEED=$VERIF_SEED VERIF_TIER=$VERIF_TIER bash $root/check.sh $id"; tail -c 100000 "$scratch/out.log"; } > "$replay"
		echo "{\"property\":\"$id\",\"tier\":\"$VERIF_TIER\",\"seed\":$VERIF_SEED,\"level\":\"exploration\",\"coverage\":{\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":\"the process crashed inside the library\",\"samples\":[\"see the replay file\"]},\"wall_s\":0,\"violations\":1}" > "$root/evidence/$id.json"
		echo "VIOLATION property=$id replay=$replay"
		exit 1
		;;
	esac
fi
echo "no answer (exit code $rc)"
tail -n 30 "$scratch/out.log"
exit 2
