#!/bin/bash
# run.sh ID TIER      decide one property on /repo's current working tree
# run.sh replay ID F  replay one recorded execution
# run.sh build OUT    only build the explorer
{ # read completely before it runs
set -u
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${REPO:-/repo}"
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
work="$(mktemp -d "${TMPDIR:-/tmp}/mcbuild.XXXXXX")"
trap 'rm -rf -- "$work"' EXIT
export VERIF REPO MC_WORK="$work"

build() { # build OUT: compile /verif/mc against REPO's working tree through an overlay
  {
    printf '{"Replace":{'
    sep=""
    for f in "$VERIF"/mc/*.go; do
      printf '%s"%s/zzverif/%s":"%s"' "$sep" "$REPO" "$(basename "$f")" "$f"; sep=","
    done
    for f in "$VERIF"/sched/*.go; do
      printf ',"%s/zzsched/%s":"%s"' "$REPO" "$(basename "$f")" "$f"
    done
    printf ',"%s/zzsched/atomic/atomic.go":"%s"' "$REPO" "$VERIF/sched/atomic/atomic.go"
    [ -n "${2:-}" ] && while IFS="$(printf '\t')" read -r a b; do printf ',"%s":"%s"' "$a" "$b"; done < "$2"
    printf '}}'
  } > "$work/overlay.json"
  (cd "$REPO" && go build ${3:-} "${4:--gcflags=}" -overlay "$work/overlay.json" -o "$1" ./zzverif) || { echo "ERROR: /repo does not build with the explorer"; return 1; }
}

# C02: the copy of the sources that is built has goroutines, channels and package sync replaced by
# the controlled scheduler, and is built with the race detector.
build_sched() {
  export GORACE="halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0 log_path=/dev/null"
  mkdir -p "$work/instr"
  if (cd "$VERIF/instr" && go build -o "$work/instr.bin" .) &&
     "$work/instr.bin" "$REPO" github.com/l1va/goosli "$work/instr" > "$work/instr.tsv" &&
     build "$1" "$work/instr.tsv" -race "-gcflags=github.com/l1va/goosli/zzsched=-race=false" 2> "$work/instr.err"; then
    export MC_SCHED=1
    return 0
  fi
  cat "$work/instr.err" >&2
  echo "note: the sources cannot be instrumented, only free-running schedules are executed"
  export MC_SCHED=0
  build "$1" "" -race
}

commands() { # the command line tools of the repository
  mkdir -p "$work/bin" && export MC_BIN="$work/bin"
  (cd "$REPO" && go build -o "$work/bin/" ./cmd/...) || { echo "ERROR: /repo does not build"; return 1; }
}

case "${1:-}" in
  build) build "$2"; exit $? ;;
  setup) build "$work/mc" && commands && echo "explorer builds"; exit $? ;;
  replay) if [ "$2" = C02 ]; then build_sched "$work/mc"; else build "$work/mc"; fi && commands || exit 2; "$work/mc" replay "$2" "$3"; exit $? ;;
  "") echo "usage: run.sh ID TIER"; exit 2 ;;
esac
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
if [ "$id" = C02 ]; then build_sched "$work/mc" || exit 2; else build "$work/mc" || exit 2; fi
commands || exit 2
"$work/mc" run "$id" "$tier" "$VERIF"
exit $?
}
