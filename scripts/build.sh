#!/bin/bash
# Builds the analyser from the committed files.
set -e
cd "$(dirname "$0")/.."
mkdir -p bin
. /dev/stdin <<'X'
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOENV=off GOWORK=off GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 GOFLAGS=-mod=vendor
unset GO111MODULE GOPATH
X
export GOCACHE="${WWR_GOCACHE:-$PWD/bin/gocache}"
cd tool
go build -o ../bin/wwrstatic.new .
mv -f ../bin/wwrstatic.new ../bin/wwrstatic
