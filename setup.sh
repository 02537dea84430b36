#!/bin/bash
# Builds the engine.
set -e
cd "$(dirname "$0")"
V=$PWD
. /opt/vp/env.sh
mkdir -p "$V/.build"
cd engine
go build -o "$V/.build/symgo.tmp.$$" .
mv "$V/.build/symgo.tmp.$$" "$V/.build/symgo"
