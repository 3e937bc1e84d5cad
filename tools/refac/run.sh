#!/bin/bash
# run.sh NAME [CHECK...]: applies refac/NAME.diff to a scratch copy of /repo,
# shows it as /repo inside a private mount namespace and runs the stable tests
# and the checks (default: all) there. Nothing outside the copy is changed.
H=$(cd "$(dirname "$0")" && pwd); N=$1; shift
W=/tmp/rfrun/$N; rm -rf "$W"; mkdir -p "$W/ev" && cp -a /repo "$W/repo" || exit 2
P=$H/$N.diff; [ -f "$P" ] || P=$N; [ "$N" = none ] || (cd $W/repo && git apply "$P") || exit 2
[ $# -gt 0 ] || set -- $(seq -f 'C%02g' 1 37)
unshare -Urm bash -c '
W=$1; shift
mount --bind $W/repo /repo; mount --bind $W/ev /verif/evidence
if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/dev/null 2>&1 || { echo BUILD FAILED; bash /opt/vp/build.sh; exit 1; }
bash /opt/vp/test.sh $W/t.json | tail -1; fi
cd /verif
for c in "$@"; do s=$(date +%s); timeout 900 ./e check ${TIER:+-tier $TIER} $c verifh/${c,,} > $W/$c.log 2>&1; rc=$?
echo "$c rc=$rc $(( $(date +%s)-s ))s $(grep -E "^(OK|FAIL)" $W/$c.log | head -1 | cut -c1-150) $(grep -c ^VIOLATION $W/$c.log)"; done' x "$W" "$@"
