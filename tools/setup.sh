#!/bin/bash
# builds the MIR extractor (each check builds it again where it is missing)
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/.build" "$V/evidence"
O=$(mktemp "$V/.build/s.XXXXXX")
"$V/tools/dump.sh" "$O" "${VERIF_REPO:-/repo}"
rm "$O"
