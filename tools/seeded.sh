#!/bin/bash
# seeded.sh confirm ID...   builds, tests and demonstrates planted changes in a scratch copy of /repo
# seeded.sh check ID...     runs the check of each one's property on /repo with the change applied
root=$(cd "$(dirname "$0")/.." && pwd)
mode=$1; shift
rc=0
if [ "$mode" = confirm ]; then
  t=$(mktemp -d /tmp/seeded-XXXXXX)
  trap 'rm -rf "$t"' EXIT
  for id in "$@"; do
    d=$root/seeded/$id
    rm -rf "$t/repo" "$t/demo"; cp -a /repo "$t/repo"; mkdir "$t/demo"
    cp "$d"/* "$t/demo"; rm -f "$t"/demo/*.diff "$t"/demo/meta.json
    ( cd "$t/repo" && bash "$t/demo/demo.sh" ) >"$t/out" 2>&1 || { echo "$id: the demo fails on the unchanged tree"; tail -5 "$t/out"; rc=1; continue; }
    git -C "$t/repo" apply "$d/patch.diff" || { echo "$id: does not apply"; rc=1; continue; }
    ( cd "$t/repo" && cargo test --offline ) >"$t/out" 2>&1 || { echo "$id: the tests fail"; grep -E "^error|FAILED|failed" "$t/out" | head; rc=1; continue; }
    n=$(grep -oE '[0-9]+ passed' "$t/out" | awk '{s+=$1} END {print s}')
    if ( cd "$t/repo" && bash "$t/demo/demo.sh" ) >"$t/out" 2>&1; then echo "$id: the demo passes with the change"; rc=1; continue; fi
    echo "$id: confirmed ($n tests pass); demo: $(grep -vE '^ *(Compiling|Finished|Running|Locking|Adding)|^note|^warning' "$t/out" | tail -1 | cut -c1-150)"
  done
else
  for id in "$@"; do
    p=$(python3 -c "import json,sys;print(json.load(open('$root/seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$root/seeded/$id/patch.diff" || { rc=1; continue; }
    out=$("$root/check" "$p" 2>&1); c=$?
    git -C /repo checkout -- .
    if [ $c = 1 ] && grep -q "VIOLATION property=$p" <<<"$out"; then echo "$id: caught by $p: $(grep -m1 ' case ' <<<"$out" | sed 's/.*}: //' | cut -c1-160)"
    else echo "$id: NOT caught by $p (exit $c)"; tail -3 <<<"$out"; rc=1; fi
  done
fi
exit $rc
