#!/bin/sh
# Compares the models of the harness with the C library in /repo/tests/include (lcms2 2.13.1), whose objects lost carriage
# returns in version control: clib_repair.py puts the sections back where they belong (only debug sections lost bytes).
# usage: tools/clib.sh [scale]
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/clib.XXXXXX)
trap 'rm -rf "$t"' EXIT
python3 "$here/clib_repair.py" /repo/tests/include "$t/o"
mkdir "$t/s"
for f in "$t"/o/*.o; do objcopy --strip-debug "$f" "$t/s/$(basename "$f")"; done
objcopy --globalize-symbol=DefaultEvalParametricFn "$t/s/cmsgamma.o"
gcc -shared -o "$t/liblcms2v.so" "$t"/s/*.o -lm -lpthread -Wl,--unresolved-symbols=ignore-all -Wl,-z,lazy
cd "$here/../harness"
RUSTFLAGS=--cap-lints=allow cargo build -q --offline --release --features clib --target-dir "$here/../build/clib"
for p in clib-curves clib-profiles; do
    mkdir "$t/$p"
    VPH_CLIB="$t/liblcms2v.so" "$here/../build/clib/release/vph" $p --scratch "$t/$p" --out "$t/$p.json" --scale "${1:-100}" --dict "${2:-}" || true
    python3 - "$t/$p.json" <<'P'
import json,sys
r=json.load(open(sys.argv[1]))
print(r['evaluations'],'cases',len(r['violations']),'differences')
for k,v in sorted(r['counters'].items()): print('  ',k,v)
for v in r['violations'][:12]: print('  !',v['msg'],'\n     ',v['detail'][:700])
P
done
