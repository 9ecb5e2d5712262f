#!/bin/bash
# Builds the verifier from the committed sources; offline.
set -e
cd "$(dirname "$0")/.."
. tools/env.sh
mkdir -p bin out evidence
cd gvc && go build -o ../bin/gvc .
