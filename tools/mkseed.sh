#!/bin/bash
# mkseed.sh ID PROP NEEDS BREAKS : takes the current /repo diff and demo.cpp from stdin
S=/verif/seeded/$1; mkdir -p $S; R=${R:-/repo}; git -C $R diff > $S/patch.diff; git -C $R checkout -q -- .
cp /verif/tools/demo/demo.sh $S/; [ -n "$5" ] && rm $S/demo.sh; cat > $S/demo.cpp; grep -q exec_demo.hh $S/demo.cpp && cp /verif/tools/demo/exec_demo.hh $S/
python3 - "$@" <<'P' 
P
python3 -c "import json,sys; json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open('$S/meta.json','w'),indent=1)" "$1" "$2" "$3" "$4"
