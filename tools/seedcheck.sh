#!/bin/bash
# seedcheck.sh [pattern]: which planted bugs their property's check catches
cd "$(dirname "$0")/.."
one() {
    d=$1; id=$(basename $d)
    p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
    t=$(mktemp -d /tmp/seedc.XXXX); cp -r /repo/svgpy $t/
    (cd $t && patch -sp1 < $OLDPWD/$d/patch.diff)
    r=$(SA_REPO=$t SA_EVDIR=$t/ev python3 check.py $p 2>&1 | grep -c "^VIOLATION property=$p")
    echo "$id $p caught=$r"; rm -rf "$t"
}
export -f one
ls -d seeded/*/ | sed 's,/$,,' | grep -E "${1:-.}" | xargs -P 8 -I{} bash -c 'one {}'
