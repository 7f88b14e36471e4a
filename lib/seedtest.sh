#!/bin/bash
# seedtest.sh ID [PROPERTY]: apply a planted bug to a copy of /repo, run the property's check against the copy (development tool)
d=/verif/seeded/$1; pid=${2:-$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")}
W=/tmp/seedrun-$1; rm -rf "$W"; cp -a /repo "$W"; git -C "$W" apply $d/patch.diff || exit 3
E=/tmp/seedrun-ev-$1
cp -a /verif "$E"; 
VERIF_REPO=$W bash $E/run.sh $pid | tail -4 | cut -c1-300; rc=${PIPESTATUS[0]}
echo "$1 $pid rc=$rc"
rm -rf "$W" "$E"
