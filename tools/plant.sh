#!/bin/bash
# plant.sh ID PROPERTY "modules" "needs" "what" : capture /repo's working diff as a planted bug; demo.cpp must be at /tmp/demo.cpp
# (or $DEMO_SH a ready demo.sh)
set -e
D=/verif/seeded/$1; mkdir -p $D
git -C /repo diff > $D/patch.diff; [ -s $D/patch.diff ] || { echo "no diff"; exit 1; }
git -C /repo checkout -q -- .
cp -r /verif/tools/demokit/. $D/
cp /tmp/demo.cpp $D/demo.cpp
cat > $D/demo.sh <<X
#!/bin/bash
. "\$(dirname "\$0")/kit.sh"
${KIT:+export KIT_FLAGS="$KIT"}
kit_build "$3" demo.cpp demo
cd "\$WORK" && OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=${THREADS:-4} ${RUNENV} ./demo
X
python3 - "$2" "$4" "$5" > $D/meta.json <<'P'
import json,sys
print(json.dumps(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),indent=1))
P
