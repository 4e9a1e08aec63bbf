#!/bin/bash
# regenerates the embedded modules (needs wat2wasm; the results are committed)
cd "$(dirname "$0")"
python3 wasi.py; python3 ffi.py
for f in *.wat; do
  n=${f%.wat}
  x=; [ $n = ffi ] && x="--enable-multi-memory --enable-memory64"
  wat2wasm $x "$f" -o /tmp/gen_$n.wasm
  python3 - "$n" <<'P'
import sys
n=sys.argv[1]; b=open(f'/tmp/gen_{n}.wasm','rb').read()
o=f'// generated from wat/{n}.wat by wat/gen.sh\n#pragma once\nstatic const unsigned char wat_{n}[] = {{\n'
for i in range(0,len(b),24): o+=','.join(str(x) for x in b[i:i+24])+',\n'
open(f'../wat_{n}.h','w').write(o+'};\n')
P
done
