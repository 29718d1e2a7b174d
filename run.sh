#!/bin/bash
# developer helper: rebuild the checker and run it
. /opt/vp/env.sh
(cd /verif/symgo && go build -o ../bin/symgo .) && exec /verif/bin/symgo "$@"
