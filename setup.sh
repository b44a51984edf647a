#!/bin/bash
# Builds the symbolic execution engine from the committed sources (offline).
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin
(cd engine && go build -o ../bin/gosym.$$ ./cmd/gosym) && mv -f bin/gosym.$$ bin/gosym
