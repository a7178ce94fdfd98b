#!/bin/bash
# Builds the simulation harness from /repo's current working tree into
# /verif/.build (instrumented copies; /repo is only read).
# Exit 0: built. Exit 3: the tree does not build or cannot be instrumented.
set -u
V=$(cd "$(dirname "$0")" && pwd)
B=$V/.build
R=${VREPO:-/repo}
GO=/opt/veriftools/go1.23.12/bin/go
export HOME=${HOME:-/root}
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOWORK=off GO111MODULE=on GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1
export VGO=$GO
mkdir -p "$B/bin" || exit 3
die() { echo "build.sh: $1" >&2; exit 3; }

# 1. the instrumenter
(cd "$V/sim/instr" && $GO build -o "$B/bin/instr" .) || die "instr does not build"

# 2. raw copy of the sources under test, with a module file
stage_copy() { # name: fresh copy of /repo's non-test sources
    rm -rf "$B/$1.new"
    mkdir -p "$B/$1.new"
    (cd "$R" && find . -name .git -prune -o -type f ! -name '*_test.go' ! -name go.mod ! -name go.sum -size -2048k -print0 \
        | tar --null -T - -cf - ) | tar -xf - -C "$B/$1.new" || die "copy"
    cp "$V/sim/repo.mod" "$B/$1.new/go.mod"
    cp "$V/sim/go.sum" "$B/$1.new/go.sum"
}
stage_copy raw
rm -rf "$B/raw"; mv "$B/raw.new" "$B/raw"
stage_copy repo
find "$B/repo.new" -name '*.go' -delete
# modern language version (generic runtime calls), old loop variable semantics
sed -i 's/^go .*/go 1.21/' "$B/repo.new/go.mod"
"$B/bin/instr" -mode copy -dir "$B/raw" -pkgs ./... -prefix github.com/coniks-sys/coniks-go \
    -noyield github.com/coniks-sys/coniks-go/crypto -out "$B/repo.new" || die "cannot instrument /repo"
# the commands live in internal packages: re-export their root commands
for c in coniksserver coniksclient coniksbot; do
    mkdir -p "$B/repo.new/cli/$c/zzcmd"
    cat > "$B/repo.new/cli/$c/zzcmd/x.go" <<GO
package zzcmd

import "github.com/coniks-sys/coniks-go/cli/$c/internal/cmd"

var Root = cmd.RootCmd
GO
done
# instrumented files import the simulator runtime
cat >> "$B/repo.new/go.mod" <<'GO'

require verif.sim v0.0.0
replace verif.sim => ../../sim
GO
rm -rf "$B/repo"; mv "$B/repo.new" "$B/repo"

# 3. third-party code with goroutines, timers or I/O (fixed versions)
dep() { # name modcache-dir import-path packages
    [ -d "$B/$1" ] && [ -f "$B/$1/.done" ] && [ "$B/$1/.done" -nt "$B/bin/instr.stamp" ] && return 0
    rm -rf "$B/$1.new"; mkdir -p "$B/$1.new"
    printf 'module %s\n\ngo 1.21\n' "$3" > "$B/$1.new/go.mod"
    "$B/bin/instr" -mode copy -dir "$B/raw" -pkgs "$4" -prefix "$3" -out "$B/$1.new" || die "cannot instrument $1"
    touch "$B/$1.new/.done"
    rm -rf "$B/$1"; mv "$B/$1.new" "$B/$1"
}
if ! cmp -s "$B/bin/instr" "$B/bin/instr.last"; then cp "$B/bin/instr" "$B/bin/instr.last"; touch "$B/bin/instr.stamp"; fi
dep leveldb github.com/syndtr/goleveldb@v1.0.0 github.com/syndtr/goleveldb github.com/syndtr/goleveldb/leveldb
dep twitter github.com/dghubble/go-twitter@v0.0.0-20221104224141-912508c3888b github.com/dghubble/go-twitter github.com/dghubble/go-twitter/twitter
dep backoff github.com/cenkalti/backoff/v4@v4.1.3 github.com/cenkalti/backoff/v4 github.com/cenkalti/backoff/v4

# 4. the harness
(cd "$V/sim" && $GO build -o "$B/bin/harness.new" ./harness) || die "harness does not build"
mv "$B/bin/harness.new" "$B/bin/harness"
