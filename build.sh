#!/bin/bash
# Builds the analyzer into /verif/bin (offline, vendored dependencies).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
for g in /opt/veriftools/go1.27.3/bin/go "$(command -v go || true)"; do [ -x "$g" ] && GO="$g" && break; done
mkdir -p "$here/bin"
cd "$here/analyzer"
env GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor CGO_ENABLED=0 "$GO" build -o "$here/bin/gearsverif.$$" .
mv "$here/bin/gearsverif.$$" "$here/bin/gearsverif"
