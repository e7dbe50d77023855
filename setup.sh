#!/bin/bash
# Builds the framework from the committed files: warms the build cache for the drivers.
cd "$(dirname "$0")" && . ./env.sh
set -e
t=$(mktemp -d /tmp/verif-setup-XXXXXX)
cp harness/go.mod harness/go.sum "$t"/
(cd harness && go build -modfile "$t/go.mod" -o "$t/vdrv" ./cmd/vdrv)
rm -rf "$t"
python3 -c "import sys; sys.dont_write_bytecode=True; import run; print(len(run.registry), 'checks')"
