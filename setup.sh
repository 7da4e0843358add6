#!/bin/bash
# build the analyzer (offline)
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
cd analyzer && go build -o ../bin/an .
