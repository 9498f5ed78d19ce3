#!/bin/bash
# runs a property's check against a planted bug, in a scratch copy: runseed.sh <seed id>|<patch file> [property] [args…]
S=$1; D=/verif/seeded/$S
if [ -f "$D/patch.diff" ]; then PATCH=$D/patch.diff; PROP=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}; else PATCH=$(realpath $1); PROP=$2; fi
shift; shift
T=$(mktemp -d /tmp/rs.XXXXXX)
cp -a /repo $T/repo && git -C $T/repo checkout -q -- . && git -C $T/repo apply $PATCH || { echo "$S: cannot apply"; exit 9; }
cd /verif
SA_REPO=$T/repo SA_OUT=$T python3 -m sa.run $PROP "$@" > $T/out 2>&1; rc=$?
echo "$S $PROP rc=$rc $(grep -E 'VIOLATION|Error|error|violat|OK' $T/out | head -2 | tr '\n' ' ' | cut -c1-300)"
[ -n "$VERBOSE" ] && cat $T/out $T/$PROP.violation.txt 2>/dev/null | head -${VERBOSE}
rm -rf "$T"
