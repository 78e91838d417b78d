#!/bin/bash
# run.sh ID [quick|thorough]   run the check of one property on /repo's working tree
# run.sh -replay FILE          run the failing unit of a replay file again, with a trace
# Extra arguments go to the harness. VERIF_SRC: another source tree than /repo.
set -u
V=$(cd "$(dirname "$0")" && pwd)
SRC=$(cd "${VERIF_SRC:-/repo}" && pwd) || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GO111MODULE=on GOWORK=off CGO_ENABLED=0
REPLAY=
if [ "${1:-}" = -replay ]; then
	REPLAY=$(realpath "$2") || exit 2
	ID=$(sed -n 's/^ *"check": *"\(C[0-9]*\)".*/\1/p' "$REPLAY" | head -1)
	TIER=$(sed -n 's/^ *"tier": *"\([a-z]*\)".*/\1/p' "$REPLAY" | head -1)
	shift 2
else
	ID=${1:?property}
	shift
	TIER=${VERIF_TIER:-quick}
	case "${1:-}" in quick | thorough) TIER=$1; shift ;; esac
fi
case "$ID" in C15 | C19) TAGS=vals ;; C16) TAGS=gc ;; *) TAGS=none ;; esac

B=$(mktemp -d "${TMPDIR:-/tmp}/verifmc.XXXXXXXX") || exit 2
trap 'rm -rf "$B"' EXIT
trap 'exit 2' INT TERM

(cd "$V/mc/instr" && go build -o "$B/instr" .) || { echo "cannot build the instrumenter" >&2; exit 2; }

# build SRC NAME [LEVELS]: instrument SRC and link it with the harness as $B/NAME/mc.
build() {
	local src=$1 o=$B/$2 level
	mkdir -p "$o/harness"
	cp "$V"/mc/harness/*.go "$o/harness/"
	for level in ${3:-full light imports}; do
		rm -rf "$o/target"
		"$B/instr" -src "$src" -out "$o/target" -rt "$V/mc/rt" -level $level >"$o/log.$level" 2>&1 || continue
		cp "$V/mc/harness/go.mod.in" "$o/harness/go.mod"
		{
			echo "require github.com/zhangyunhao116/skipmap v0.0.0"
			echo "require verifmc v0.0.0"
			echo "replace github.com/zhangyunhao116/skipmap => $o/target"
			echo "replace verifmc => $V/mc/rt"
			sed -n '/^require/,/^)/p' "$src/go.mod"
		} >>"$o/harness/go.mod"
		cp "$src/go.sum" "$o/harness/go.sum" 2>/dev/null
		(cd "$o/harness" && go build -tags "$TAGS" -o "$o/mc" .) >>"$o/log.$level" 2>&1 && return 0
	done
	cat "$o"/log.* | head -60 >&2
	return 1
}

mkdir -p "$V/evidence" "$V/replays"
ARGS=(-check "$ID" -tier "$TIER" -src "$SRC" -evidence "$V/evidence/$ID.json" -replays "$V/replays" "$@")

build "$SRC" t || { echo "cannot build $SRC with the harness" >&2; exit 2; }

if [ "$ID" = C19 ]; then
	# Programs with 32-bit words: with the controlled runtime, and with the real sync and sync/atomic.
	T="$B/t/mc,$B/t/target/instr.json,$SRC"
	export GOARCH=386
	if ! build "$SRC" c || ! build "$SRC" r rand; then
		GOARCH=amd64 "$B/t/mc" "${ARGS[@]}" -fail <(echo "the package does not compile for GOARCH=386:"; cat "$B"/[cr]/log.* | head -40)
		exit $?
	fi
	unset GOARCH
	if [ "$("$B/c/mc" -bits 2>&1)" != 32 ]; then
		# Nothing with 32-bit words can be executed here.
		"$B/t/mc" "${ARGS[@]}" -units "controlled " -instr "$B/t/target/instr.json" -note "32-bit programs cannot run on this machine: explored with 64-bit words instead"
		exit $?
	fi
	if [ -n "$REPLAY" ]; then
		x=c
		grep -q '"unit": *"real ' "$REPLAY" && x=r
		"$B/$x/mc" -src "$SRC" -instr "$B/$x/target/instr.json" -replay "$REPLAY"
		exit $?
	fi
	S=$("$B/r/mc" "${ARGS[@]}" -units "real " -instr "$B/r/target/instr.json" -other "$T" -budget $([ $TIER = quick ] && echo 100 || echo 200))
	rc=$?
	[ $rc = 0 ] || { echo "$S"; exit $rc; }
	"$B/c/mc" "${ARGS[@]}" -units "controlled " -instr "$B/c/target/instr.json" -other "$T" -budget $([ $TIER = quick ] && echo 180 || echo 560) \
		-note "32-bit words; with the real sync and sync/atomic: $(echo "$S" | head -1)"
	exit $?
fi

if [ "$ID" != C17 ]; then
	if [ -n "$REPLAY" ]; then
		"$B/t/mc" -src "$SRC" -instr "$B/t/target/instr.json" -replay "$REPLAY"
		exit $?
	fi
	"$B/t/mc" -instr "$B/t/target/instr.json" "${ARGS[@]}"
	exit $?
fi

# C17: generate the code again in a copy and compare the behaviour of both packages.
G=$B/regen
mkdir "$G"
cp -a "$SRC/." "$G/"
rm -rf "$G/.git"
HEAD='^// Code generated .* DO NOT EDIT\.$'
(cd "$G" && grep -lE "$HEAD" -- *.go 2>/dev/null | sort) >"$B/generated"
while read -r f; do rm -f "$G/$f"; done <"$B/generated"
fail() {
	"$B/t/mc" "${ARGS[@]}" -fail "$1"
	exit $?
}
if ! (cd "$G" && go generate .) >"$B/log.gen" 2>&1; then
	{ echo "the generator fails:"; head -c 3000 "$B/log.gen"; } >"$B/fail"
	fail "$B/fail"
fi
if [ -s "$B/generated" ] && [ -e "$G/gen.go" ] && ! [ -e "$G/$(head -1 "$B/generated")" ]; then
	(cd "$G" && go run gen.go) >>"$B/log.gen" 2>&1
fi
if ! (cd "$G" && go build ./...) >"$B/log.gen" 2>&1; then
	{ echo "the regenerated package does not compile (generated files: $(tr '\n' ' ' <"$B/generated")):"; head -c 3000 "$B/log.gen"; } >"$B/fail"
	fail "$B/fail"
fi
if ! build "$G" g 2>"$B/log.g"; then
	{ echo "the regenerated package lacks part of the interface of the committed one:"; head -c 3000 "$B/log.g"; } >"$B/fail"
	fail "$B/fail"
fi
# Generating over the existing files, and over the result once more, must give the same code.
code() { (cd "$1" && for f in *.go; do case "$f" in *_test.go) ;; *) echo "== $f"; grep -v '^ *//' "$f" | grep -v '^$' ;; esac; done); }
O=$B/over
mkdir "$O"
cp -a "$SRC/." "$O/"
rm -rf "$O/.git"
for time in "over the committed files" "once more"; do
	if ! { (cd "$O" && go generate . && go build ./...); } >"$B/log.gen" 2>&1; then
		{ echo "generating $time fails or gives a package that does not compile:"; head -c 3000 "$B/log.gen"; } >"$B/fail"
		fail "$B/fail"
	fi
	if ! cmp -s <(code "$O") <(code "$G"); then
		# Behaviour decides: the code that was generated over existing files is judged.
		if ! build "$O" o 2>"$B/log.g"; then
			{ echo "the package generated $time lacks part of the interface of the committed one:"; head -c 3000 "$B/log.g"; } >"$B/fail"
			fail "$B/fail"
		fi
		[ -n "$REPLAY" ] || "$B/o/mc" "${ARGS[@]}" -src "$O" -instr "$B/o/target/instr.json" -budget 120 -other "$B/t/mc,$B/t/target/instr.json,$SRC" -note "generated $time" || exit $?
		break
	fi
done
T="$B/t/mc,$B/t/target/instr.json,$SRC" R="$B/g/mc,$B/g/target/instr.json,$G"
if [ -n "$REPLAY" ]; then
	"$B/g/mc" -src "$G" -instr "$B/g/target/instr.json" -replay "$REPLAY"
	exit $?
fi
same=1
for f in "$G"/*.go; do
	n=$(basename "$f")
	case "$n" in *_test.go) continue ;; esac
	cmp -s <(grep -v '^ *//' "$f" | grep -v '^$') <(grep -v '^ *//' "$SRC/$n" 2>/dev/null | grep -v '^$') || same=0
done
for f in $(cat "$B/generated"); do [ -e "$G/$f" ] || same=0; done
NOTE="$(wc -l <"$B/generated") generated files; regenerated code $([ $same = 1 ] && echo equals || echo differs from) the committed code up to comments"
# The regenerated code must do everything right that the committed code does right ...
"$B/g/mc" "${ARGS[@]}" -src "$G" -instr "$B/g/target/instr.json" -other "$T" -note "$NOTE" || exit $?
# ... and the other way round, unless the two are the same.
if [ $same = 0 ]; then
	"$B/t/mc" "${ARGS[@]}" -instr "$B/t/target/instr.json" -other "$R" -note "$NOTE; second half: committed against regenerated" || exit $?
fi
exit 0
