#!/bin/bash
# Rewrites harness/fixtures/literals.json from /repo's current tree (to be run after a fix: commit).
set -e
mkdir -p /tmp/gen-literals
cd /verif/harness
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
cp go.mod /tmp/gen-literals/go.mod; cp /repo/go.sum /tmp/gen-literals/go.sum
VERIF_LITERALS=/verif/harness/fixtures/literals.json go test -vet=off -modfile=/tmp/gen-literals/go.mod -run '^TestLiterals$' -count=1 .
rm -rf /tmp/gen-literals
