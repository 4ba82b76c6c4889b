#!/bin/sh
# record fix commits not yet listed: fixed.sh PROPERTY [pattern]
cd /verif; git -C /repo log --reverse --format='%h %s' | grep ' fix: ' | grep -e "${2:-.}" | while read h f s; do grep -q "$h" known_findings.txt || echo "fixed: property=$1 $h $s" >> known_findings.txt; done
