#!/bin/bash
# developer helper: extract + verify.  usage: vx.sh [verus args]
set -e
D=/tmp/vx
(cd /verif/extract && CARGO_TARGET_DIR=/tmp/vxt cargo build -q --offline --release 2>&1 | grep -E "^error" -A8 || true)
/tmp/vxt/release/vxextract ${SRC:-/repo/src} /verif/contracts $D/out.rs $D/out.json
python3 - <<'P'
import json
d=json.load(open('/tmp/vx/out.json'))
for k in('lost','errors','uncontracted'):
    if d[k]: print(k.upper()+':',*d[k][:25],sep='\n   ')
P
verus --triggers-mode silent --multiple-errors 6 $D/out.rs "$@" 2>&1 | grep -vE "^\[rust_verify|^note: function body check|^$" | head -${LINES_MAX:-100}
