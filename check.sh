#!/bin/bash
# check.sh PROPERTY            decide one property (VERIF_TIER, VERIF_SEED)
# check.sh replay FILE         re-execute a replay file
# check.sh selftest [ARGS]     determinism of the simulator
# check.sh build               build only (setup)
# check.sh tool ARGS           run the simulator binary
# REPO=dir checks another working tree than /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=${REPO:-/repo}
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on CGO_ENABLED=1
unset GODEBUG GOGC GORACE GOMEMLIMIT GOEXPERIMENT
what=${1:-}
[ -n "$what" ] || { echo "usage: check.sh PROPERTY | replay FILE | selftest | build" >&2; exit 2; }
shift
b=$(mktemp -d "${TMPDIR:-/tmp}/amtsim-build-XXXXXX") || exit 2
trap '/bin/rm -rf "$b"' EXIT
t0=$(date +%s.%N)
die() { echo "check.sh: $*" >&2; exit 2; }
goroot=$(go env GOROOT) || die "no go"
(cd "$here/instr" && go build -o "$b/amtinstr" .) || die "cannot build the instrumenter"
"$b/amtinstr" -repo "$repo" -out "$b" -goroot "$goroot" -overlay-src "$here/sim/overlay" || die "instrumentation failed"
sed -e "s|=> .*|=> $repo|" "$here/sim/go.mod" > "$b/sim.mod"; : > "$b/sim.sum"
mk32() { (export GOARCH=386 CGO_ENABLED=0; mk "$@") && { "$b/amtsim32" >/dev/null 2>&1; [ $? -lt 126 ]; }; } # 386 may be missing
mk() { (cd "$here/sim" && go build -modfile="$b/sim.mod" -overlay="$b/overlay.json" "$@" .) || die "the tree does not build"; }
race=0
case "$what" in
 C13|C14|C15) race=1; mk -o "$b/amtsim" & p=$!; mk -race -o "$b/amtsim-race"; wait $p || exit 2 ;;
 C18) mk -gcflags=all=-d=checkptr -o "$b/amtsim" ;;
 replay)
   prop=$(sed -n 's/^ *"property": *"\([A-Z0-9]*\)".*/\1/p' "$1" | head -1)
   if grep -q '"race": true' "$1"; then race=1; mk -race -o "$b/amtsim-race"; fi
   cp=; [ "$prop" = C18 ] && cp=-gcflags=all=-d=checkptr
   if grep -q '"bits32": true' "$1"; then mk32 $cp -o "$b/amtsim32" || die "no 32-bit build"; /bin/mv "$b/amtsim32" "$b/amtsim"
   elif [ "$prop" = C18 ]; then mk -gcflags=all=-d=checkptr -o "$b/amtsim"; else mk -o "$b/amtsim"; fi ;;
 *) mk -o "$b/amtsim"; if [ "$what" = selftest ] || [ "$what" = build ] || [ "$what" = tool ]; then race=1; mk -race -o "$b/amtsim-race"; fi
    [ "$what" = build ] && mk -gcflags=all=-d=checkptr -o "$b/amtsim-cp" ;;
esac
rb=; [ $race = 1 ] && rb="$b/amtsim-race"
bs=$(echo "$(date +%s.%N) $t0" | awk '{print $1-$2}')
case "$what" in
 build) echo "built in ${bs}s"; exit 0 ;;
 replay) "$b/amtsim" replay -racebin "$rb" "$1"; exit $? ;;
 selftest) "$b/amtsim" selftest -racebin "$rb" "$@"; exit $? ;;
 tool) if [ "${1:-}" = race ]; then shift; "$rb" "$@"; else "$b/amtsim" "$@"; fi; exit $? ;;
esac
e32=
if [ "${VERIF_TIER:-quick}" = thorough ]; then # some runs of a 32-bit build
  cp=; [ "$what" = C18 ] && cp=-gcflags=all=-d=checkptr
  if mk32 $cp -o "$b/amtsim32" 2>/dev/null; then
    e32="$b/evidence32.json"
    "$b/amtsim32" check -prop "$what" -tier thorough -limit 90 -seed "${VERIF_SEED:-1}" -evidence "$e32" -replays "$here/replays" > "$b/out32"; rc=$?
    sed 's/^amtsim:/amtsim (32-bit):/' "$b/out32"
    if [ $rc = 1 ]; then /bin/mkdir -p "$here/evidence"; /bin/cp "$e32" "$here/evidence/$what.json"; exit 1; fi
    [ $rc = 0 ] || echo "check.sh: the 32-bit build cannot be judged"
  else
    echo "check.sh: no 32-bit build here"
  fi
fi
"$b/amtsim" check -prop "$what" -evidence32 "$e32" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -racebin "$rb" \
  -evidence "$here/evidence/$what.json" -replays "$here/replays" -build-s "$bs" "$@"
exit $?
