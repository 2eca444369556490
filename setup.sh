#!/bin/bash
# Builds the checking engine (offline) from the committed sources.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
mkdir -p bin evidence
cd engine
go build -o ../bin/vengine .
