#!/bin/bash
# check.sh ID quick|thorough        run one check against /repo's working tree
# check.sh ID replay FILE           re-execute a recorded violation
# MC_REPO=DIR checks another tree; MC_KEEP=DIR builds in DIR and keeps it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=$2; shift 2
repo=${MC_REPO:-/repo}
. /opt/vp/env.sh 2>/dev/null || true
export CGO_ENABLED=0 GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GOFLAGS
if [ -n "${MC_KEEP:-}" ]; then work=$MC_KEEP; mkdir -p "$work"; else
  work=$(mktemp -d /tmp/mc.XXXXXX) || exit 2
  trap 'rm -rf "$work"' EXIT
fi
if [ -n "${MC_GOCACHE:-}" ]; then export GOCACHE=$MC_GOCACHE
else
  src=/opt/vp/gocache
  [ -d "$src" ] || src=/root/.cache/go-build
  export GOCACHE=$work/gocache
  [ -d "$GOCACHE" ] || cp -r "$src" "$GOCACHE" 2>/dev/null || mkdir -p "$GOCACHE"
fi
export TMPDIR=$work
fail() { echo "check.sh: $*" >&2; exit 2; }
mod=$work/mod
rm -rf "$mod"; mkdir -p "$mod"
cp "$repo/go.mod" "$mod/" || fail "no go.mod"
[ -f "$repo/go.sum" ] && cp "$repo/go.sum" "$mod/"
cp -r "$here/mc/zz_mc" "$mod/zz_mc"
(cd "$here/mc/instrument" && go build -o "$work/instrument" .) || fail "instrumenter build"
modpath=$(awk '$1=="module"{print $2; exit}' "$repo/go.mod")
(cd "$repo" && GOFLAGS="-mod=readonly -buildvcs=false" "$work/instrument" "$repo" "$mod" "$modpath") || fail "instrumentation"
if ! (cd "$mod" && go build -o "$work/harness" "./zz_mc/harness/all"); then
  # Some part does not build: this check may not need it.
  case $id in
    C16|C17|C18) group=conc;; C19|C20) group=wire;; C21|C22|C23|C24) group=peers;; C26|C28) group=programs;; *) group=ledger;;
  esac
  sed -i "\#zz_mc/harness/#{\#harness/$group\"#!d}" "$mod/zz_mc/harness/all/"*.go
  (cd "$mod" && go build -o "$work/harness" "./zz_mc/harness/all") || fail "harness build"
fi
export MC_KNOWN=$here/known-findings.txt MC_REPLAYS=${MC_REPLAYS:-$here/replays}
export MC_EVIDENCE=${MC_EVIDENCE:-$here/evidence/$id.json}
"$work/harness" "$id" "$tier" "$@"
rc=$?
exit $rc
