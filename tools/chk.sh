#!/bin/bash
cd /verif; SA_LIST=1 SA_W=${W:-200} timeout ${T:-600} python3-vt -m sa.run "$@" 2>&1 | grep -v "^  holds" | cut -c1-${C:-330} | head -${N:-14}
