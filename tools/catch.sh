#!/bin/bash
# catch.sh [id...]: run every registered check against each seeded change (scratch copy), print who reports.
cd /verif
ids=${@:-$(ls seeded)}
checks=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")
one() { id=$1; shift; w=$(mktemp -d /tmp/catch.XXXX); mkdir $w/repo $w/v; cp -a /repo/pvgridder $w/repo/; cp -a /verif/pvstatic /verif/check.py /verif/known_findings.txt $w/v/
 (cd $w/repo && patch -p1 -s < /verif/seeded/$id/patch.diff) || echo "PATCH FAIL $id"
 out=""; for c in "$@"; do (cd $w/v && PVG_REPO=$w/repo timeout 900 python3 check.py $c quick >$w/o 2>&1); r=$?; [ $r = 1 ] && out="$out $c"; [ $r -gt 1 ] && out="$out $c:ERR$r"; done
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 case " $out " in *" $p "*) v=CAUGHT;; *) v=MISSED;; esac
 echo "$v $id ($p):$out"; rm -rf "$w"; }
export -f one
printf '%s\n' $ids | xargs -P 8 -I{} bash -c "one {} $checks"
