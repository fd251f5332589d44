#!/bin/bash
# tlc.sh [java opts --] tlc args: TLC with the specification library and the Java interpretations
exec java -XX:+UseParallelGC -XX:ParallelGCThreads=2 ${TLC_JAVA:--Xmx3g} -Xss64m -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:cesr.Overrides \
  -cp /verif/.build/java:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC "$@"
