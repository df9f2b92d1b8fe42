#!/bin/bash
# tlc.sh CLASSDIR tlc-args...   (TLC with the accelerators of java/GFKernel.java)
CD=$1; shift
exec java ${TLC_JAVA_OPTS:--Xmx3g} -XX:+UseParallelGC -XX:ParallelGCThreads=2 -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:m4xverif.GFKernel \
  -Dtlc2.tool.impl.Tool.cdot=false ${TLC_PROPS} \
  -cp "$CD:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" tlc2.TLC "$@"
