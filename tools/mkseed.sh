#!/bin/bash
# mkseed.sh ID PROP sc|ps "needs" "breaks"   : takes the diff of worktree /tmp/sw as the patch; demo.cc from stdin
set -e
S=/verif/seeded/$1; mkdir -p $S
git -C /tmp/sw diff > $S/patch.diff; git -C /tmp/sw checkout -q -- .
[ -s $S/patch.diff ] || { echo "empty patch"; exit 1; }
cat > $S/demo.cc
K=/verif/tools/demokit
{ cat $K/head.sh; [ -n "$PRE" ] && echo "$PRE"; cat $K/$3.sh; echo 'cd "$T" && timeout ${TMO:-100} ./demo'; } > $S/demo.sh
[ $3 = ps ] && cp $K/{qmp.h,miniqmp.cc,xml_simplewriter.h,basic_xpath_reader.h,xml.cc,qio.h,qio.cc} $S/
python3 - "$@" <<'P'
import json,sys
i,p,k,n,b=sys.argv[1:6]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open("/verif/seeded/%s/meta.json"%i,"w"),indent=1)
P
