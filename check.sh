#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [extra qsim flags]
#        check.sh replay FILE
# Builds the simulator together with an instrumented view of /repo's current
# working tree (go build -overlay; nothing is written in /repo) and runs it.
set -u
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:${PATH:-}"
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH="${GOPATH:-/root/go}"
export GOMODCACHE="${GOMODCACHE:-$GOPATH/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
seed="${VERIF_SEED:-1}"
what="${1:?property}"; shift
scratch="$(mktemp -d "${TMPDIR:-/tmp}/qsim.XXXXXX")" || exit 2
trap 'rm -rf "$scratch"' EXIT

if [ "$what" = replay ]; then
  file="$(realpath "$1")"; prop="$(sed -n 's/^ *"property": *"\(C[0-9]*\)".*/\1/p' "$file" | head -1)"
else
  prop="$what"; tier="${1:-${VERIF_TIER:-quick}}"; [ $# -gt 0 ] && shift
fi

build() { # mode race
  local out="$scratch/$1"
  mkdir -p "$out"
  go run ./cmd/qinstr -src /repo -out "$out" -mode "$1" >"$out/log" 2>&1 || return 1
  go build $2 -overlay "$out/overlay.json" -o "$scratch/qsim" ./cmd/qsim >>"$out/log" 2>&1
}
if [ "$what" = setup ]; then # fills the build cache; the checks build again from the working tree
  build tick "" && build full -race || { cat "$scratch"/*/log >&2; exit 1; }
  echo "setup done"; exit 0
fi
note=""
if [ "$prop" = C20 ]; then
  if build full -race; then note="every statement a preemption point, race detector"
  elif build tick -race; then note="FALLBACK: statement-level instrumentation did not build, preemption at function entries and loops only"; cat "$scratch/full/log" >&2
  else cat "$scratch/tick/log" >&2; exit 2; fi
  cp "$scratch"/full/sites.json "$scratch/sites.json" 2>/dev/null
else
  build tick "" || { cat "$scratch/tick/log" >&2; echo "build failed" >&2; exit 2; }
  note="tick at every function entry and loop iteration"
  cp "$scratch/tick/sites.json" "$scratch/sites.json"
fi
export QSIM_SITES="$scratch/sites.json"
if [ "$what" = replay ]; then
  "$scratch/qsim" replay "$file"; exit $?
fi
"$scratch/qsim" check -prop "$prop" -tier "$tier" -seed "$seed" -evidence evidence -replays replays -scratch "$scratch" -known known_findings.txt -build "$note" "$@"
