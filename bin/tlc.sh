#!/bin/bash
# tlc.sh [tlc args] Module.tla
exec java -XX:+UseParallelGC -Xmx${VJ_HEAP:-6g} -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE "$@"
