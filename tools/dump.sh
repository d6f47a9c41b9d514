#!/bin/bash
# Builds the MIR extractor if needed and extracts the MIR of /repo's current working tree.
# usage: dump.sh OUT.json [SRC_DIR]
set -e
OUT=$1; SRC=${2:-/repo}
V=$(cd "$(dirname "$0")/.." && pwd)
B=$V/.build; mkdir -p "$B"
export HOME=${HOME:-/root}
export CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup}
export PATH=$CARGO_HOME/bin:$PATH
TC=nightly
SYSROOT=$(rustc +$TC --print sysroot)
export LD_LIBRARY_PATH=$SYSROOT/lib
D=$B/mirdump
if [ ! -x "$D" ] || [ "$V/driver/main.rs" -nt "$D" ]; then
  rustc +$TC -O --edition 2021 "$V/driver/main.rs" -o "$D.tmp.$$" >"$B/driver.log" 2>&1 || { cat "$B/driver.log" >&2; exit 3; }
  mv "$D.tmp.$$" "$D"
fi
W=$(mktemp -d "$B/w.XXXXXX")
trap 'rm -r "$W"' EXIT
# the crate's settings come from its manifest
cargo +$TC metadata --offline --format-version 1 --manifest-path "$SRC/Cargo.toml" >"$W/meta.json" 2>"$W/err" || { cat "$W/err" >&2; exit 3; }
python3 - "$W/meta.json" "$SRC" "$W" <<'PY' > "$W/vars"
import json,sys,os,shlex
m=json.load(open(sys.argv[1])); src=os.path.realpath(sys.argv[2]); w=sys.argv[3]
root=[p for p in m['packages'] if os.path.realpath(os.path.dirname(p['manifest_path']))==src][0]
lib=[t for t in root['targets'] if any(k in('lib','rlib') for k in t['kind'])][0]
bs=[p for p in m['packages'] if p['name']=='byte-slice'][0]
blib=[t for t in bs['targets'] if 'lib' in t['kind']][0]
v=root['version'].split('.')
print('LIB=%s'%shlex.quote(lib['src_path'])); print('NAME=%s'%lib['name'].replace('-','_')); print('ED=%s'%lib['edition'])
print('BLIB=%s'%shlex.quote(blib['src_path'])); print('BED=%s'%blib['edition'])
print('export CARGO_PKG_VERSION=%s CARGO_PKG_VERSION_MAJOR=%s CARGO_PKG_VERSION_MINOR=%s CARGO_PKG_VERSION_PATCH=%s CARGO_PKG_NAME=%s CARGO_MANIFEST_DIR=%s'%(root['version'],v[0],v[1],v[2],root['name'],shlex.quote(src)))
PY
. "$W/vars"
rustc +$TC --crate-name byte_slice --edition "$BED" --crate-type rlib --cap-lints allow -C overflow-checks=on -Z always-encode-mir=yes -Z mir-opt-level=0 --emit metadata,link --out-dir "$W" "$BLIB" 2>"$W/err" || { cat "$W/err" >&2; exit 3; }
MIRDUMP_OUT=$OUT MIRDUMP_SKIP=${MIRDUMP_SKIP-core::fmt,std::fmt,core::panicking,std::io,alloc::raw_vec,alloc::alloc,std::alloc,core::unicode,core::str::pattern} \
 "$D" --sysroot "$SYSROOT" --crate-name "$NAME" --edition "$ED" --crate-type rlib --cap-lints allow \
  -C overflow-checks=on -C debug-assertions=off -Z mir-opt-level=0 \
  --extern byte_slice="$W/libbyte_slice.rlib" --out-dir "$W" "$LIB" >"$W/log" 2>&1 || { cat "$W/log" >&2; exit 4; }
