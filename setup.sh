#!/bin/bash
# builds the symbolic executor from its source, offline
. /opt/vp/env.sh
cd "$(dirname "$0")/symgo" && mkdir -p ../bin ../evidence && go build -o ../bin/symgo.tmp$$ . && mv ../bin/symgo.tmp$$ ../bin/symgo
