#!/bin/bash
# dev helper: dev.sh bin "n-list" [extra args]
b=$1; ns=$2; shift 2
for n in $ns; do
 f="--cfg sweep_verif --cfg sweep_verif_n=\"$n\""
 RUSTFLAGS="$f" CARGO_TARGET_DIR=/verif/target/n$n cargo build --manifest-path /verif/harness/Cargo.toml --release --offline --bin $b 2>/tmp/build.log || { grep -A12 "^error" /tmp/build.log | head -80; exit 1; }
 mkdir -p /tmp/o$n; rm -f /tmp/o$n/result.json
 timeout 900 /verif/target/n$n/release/$b --tier quick --out /tmp/o$n "$@"; rc=$?
 echo "== N=$n rc=$rc $(cat /dev/null)"
 python3 - <<P
import json
try:
  r=json.load(open('/tmp/o$n/result.json'))
  for s in r['suites']: print(' ',s['suite'],s['kind'],s['states'],s['transitions'],'d',s['depth'],s['complete'],'%.2fs'%s['wall_s'],s['samples'][:1])
  print('  inner',r['inner'],'fail',r.get('fail'))
except Exception as e: print(e)
P
done
