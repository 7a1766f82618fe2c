#!/bin/bash
# seedtest.sh ID...: runs each demo on /repo without and with its patch, and the property's quick check with it.
for id in "$@"; do
	d=/verif/seeded/$id
	p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	(cd /repo && bash $d/demo.sh >/tmp/demo.$id.clean 2>&1); a=$?
	git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
	(cd /repo && bash $d/demo.sh >/tmp/demo.$id.bug 2>&1); b=$?
	r="-"
	if [ -z "$NOCHECK" ]; then python3 /verif/check.py $p quick >/tmp/demo.$id.check 2>&1; r=$?; fi
	git -C /repo checkout -q -- .
	echo "$id $p clean=$a bug=$b check=$r $(grep -m1 VIOLATION /tmp/demo.$id.check 2>/dev/null)"
done
