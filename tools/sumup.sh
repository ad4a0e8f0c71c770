#!/bin/bash
# run a check verbosely, group identical messages:  sumup.sh P23 [args]
VERIF_VERBOSE=1 bash /verif/check.sh "$@" > /tmp/sum.$1 2>&1
grep "  case\|note" /tmp/sum.$1 | sed -E 's/^  (case|note:?) ([^:]*):/\2 |/' | awk -F'|' '{n=$1; $1=""; m=substr($0,1,230); c[m]++; if(!(m in e)) e[m]=n} END{for(m in c) print c[m], "[" e[m] "]", m}' | sort -rn | head -${TOP:-30}
grep "^P[0-9]" /tmp/sum.$1 | cut -c1-300
