#!/bin/bash
# run every check with the seeds $1..$2 from a copy of the committed work; report anything that is not quiet
D=$(mktemp -d /tmp/soak.XXXX)
git -C /verif archive HEAD | tar -x -C "$D" --exclude=seeded
cd "$D" || exit 1
for s in $(seq "$1" "$2"); do
  for c in $(python3 -c "import json;print(*[x['property'] for x in json.load(open('MANIFEST.json'))['checks']])" 2>/dev/null || echo C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17); do
    VERIF_SEED=$s DST_SHRINK=60 DST_WORKERS=${W:-6} python3 check.py $c >"$D/out.$s.$c" 2>&1
    rc=$?
    if [ $rc != 0 ]; then echo "seed $s $c rc $rc"; grep -v Warn "$D/out.$s.$c" | tail -12 | cut -c1-1500; fi
  done
  echo "seed $s done"
done
echo "soak dir $D"
