#!/bin/bash
# seed.sh <id>: confirm /verif/seeded/<id> in a scratch copy: applies, builds, tests pass, demo 0 -> nonzero.
set -u
id=$1; d=/verif/seeded/$id; w=$(mktemp -d /tmp/seed.XXXX)
cp -a /repo $w/repo
cd $w/repo
python=/opt/venv/bin/python
bash $d/demo.sh >$w/o1 2>&1; a=$?
git apply $d/patch.diff || { echo "APPLY FAIL"; rm -rf "$w"; exit 2; }
bash $d/demo.sh >$w/o2 2>&1; b=$?
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=$w/repo xvfb-run -a /opt/venv/bin/python -m pytest -q -n 6 -p no:cacheprovider -W ignore tests -k "not topographic" >$w/o3 2>&1; c=$?
echo "seed $id: clean=$a patched=$b tests=$c  $(tail -1 $w/o3 | cut -c1-100)"
[ $a = 0 ] || tail -3 $w/o1 | cut -c1-300
[ $b != 0 ] && tail -1 $w/o2 | cut -c1-200
rm -rf "$w"
