#!/bin/bash
# plant.sh verify ID...        a planted bug counts: applies, builds, passes the stable tests, demo 0 / nonzero
# plant.sh check ID [PROP...]  run the checks (default: the bug's property) against it
# plant.sh diff FILE [PROP...] run checks against an arbitrary patch
# Works on copies of /repo and /verif bound over the originals in a private mount namespace.
set -u
mode=$1; shift
if [ "${PLANT_NS:-}" = "" ]; then
  T=$(mktemp -d /tmp/plant.XXXXXX)
  trap 'rm -rf "$T"' EXIT
  cp -a /repo "$T/repo"; mkdir "$T/verif"
  if [ "$mode" != verify ]; then cp -a /verif/. "$T/verif/"; fi
  mkdir -p "$T/seeded"; cp -a /verif/seeded/. "$T/seeded/" 2>/dev/null
  [ "$mode" = diff ] && cp "$1" "$T/p.diff"
  PLANT_NS=$T unshare -m bash "$(realpath "$0")" "$mode" "$@"
  exit
fi
T=$PLANT_NS
[ "$mode" != verify ] && mount --bind "$T/verif" /verif
mount --bind "$T/repo" /repo
cd /repo
stable() { python3 - "$1" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','stable_pass','passed','pass'):
            if k in x: return set(x[k])
    return set(x)
m=names(b)-names(o)
print('  stable tests:', 'ok' if not m else 'MISSING %s'%sorted(m)); sys.exit(bool(m))
P
}
case $mode in
verify)
  for id in "$@"; do
    echo "== $id"; d=$T/seeded/$id; mkdir -p $T/elsewhere; rm -rf $T/elsewhere/x; cp -a $d $T/elsewhere/x; rm -f $T/elsewhere/x/*.diff $T/elsewhere/x/meta.json
    git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1 || echo "  CLEAN BUILD FAILS"
    timeout 300 bash $T/elsewhere/x/demo.sh >$T/o1 2>&1; a=$?
    [ $a = 0 ] || { echo "  DEMO FAILS ON CLEAN TREE ($a)"; tail -5 $T/o1; }
    git apply $d/patch.diff || { echo "  PATCH DOES NOT APPLY"; continue; }
    if ! bash /opt/vp/build.sh >$T/ob 2>&1; then echo "  DOES NOT BUILD"; grep -A5 '^error' $T/ob | head -20; git checkout -q -- .; continue; fi
    bash /opt/vp/test.sh $T/o.json >$T/ot 2>&1; stable $T/o.json
    timeout 300 bash $T/elsewhere/x/demo.sh >$T/o2 2>&1; b=$?
    [ $b != 0 ] && echo "  demo: clean $a, patched $b: $(tail -1 $T/o2 | cut -c1-200)" || echo "  DEMO PASSES WITH THE PATCH"
    git checkout -q -- .
  done ;;
check|diff)
  id=$1; shift
  if [ $mode = check ]; then f=$T/seeded/$id/patch.diff; p=$(python3 -c "import json;print(json.load(open('$T/seeded/$id/meta.json'))['property'])"); else f=$T/p.diff; p=; fi
  git apply $f || exit 9
  [ $# = 0 ] && set -- $p
  for c in "$@"; do
    t0=$SECONDS; o=$(cd /verif && VERIF_SEED=1 VERIF_TIER=${TIER:-quick} timeout 900 ./check.sh $c 2>&1); r=$?
    echo "$(basename $id) by $c: exit $r $(echo "$o" | grep -c '^VIOLATION') violations, $((SECONDS-t0)) s; $(echo "$o" | grep -m1 'what:' | cut -c1-220)"
    [ $r != 0 ] && [ $r != 1 ] && echo "$o" | tail -5
  done ;;
esac
