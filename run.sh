#!/usr/bin/env bash
# run.sh check ID TIER | replay FILE : builds the harness against /repo's
# current working tree and runs it.
set -u
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
export HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB=* GOFLAGS="-mod=mod"
[ -d /root/go/pkg/mod ] && export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE="${GOCACHE:-$HOME/.cache/go-build}"
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
mkdir -p "$VERIF_DIR/evidence"
BIN="$(mktemp -d "${TMPDIR:-/tmp}/tvbin.XXXXXX")"
trap 'rm -rf "$BIN"' EXIT
build() { # the module file is copied so that the committed one never changes
  cp "$VERIF_DIR/harness/go.mod" "$BIN/go.mod" && cp "$VERIF_DIR/harness/go.sum" "$BIN/go.sum" &&
  (cd "$VERIF_DIR/harness" && go build -modfile="$BIN/go.mod" -o "$BIN/tv" .) &&
  (cd /repo && cp go.mod "$BIN/repo.mod" && cp go.sum "$BIN/repo.sum" &&
   go build -modfile="$BIN/repo.mod" -o "$BIN/tealsarif" ./cmd/tealsarif &&
   go build -modfile="$BIN/repo.mod" -o "$BIN/tealsp" ./cmd/tealsp &&
   go build -modfile="$BIN/repo.mod" -o "$BIN/tealdbg" ./cmd/tealdbg)
}
case "${1:-}" in
  setup) build; exit $? ;;
  check|replay) ;;
  *) echo "usage: run.sh setup | check ID quick|thorough | replay FILE" >&2; exit 3 ;;
esac
if ! build >"$BIN/build.log" 2>&1; then
  cat "$BIN/build.log" >&2
  echo "harness error: build failed" >&2
  exit 3
fi
export TV_BIN="$BIN"
if [ "$1" = check ] && [ "${2:-}" = P27 ] || [ "$1" = replay ] && [[ "${2:-}" = *P27* ]]; then
  # with the race detector where it can be built; its sub-check discards its cases otherwise
  (cd "$VERIF_DIR/harness" && CGO_ENABLED=1 timeout 240 go build -race -modfile="$BIN/go.mod" -o "$BIN/tv-race" .) >/dev/null 2>&1 || rm -f "$BIN/tv-race"
fi
"$BIN/tv" "$@"
