#!/bin/sh
# tlc.sh SPEC CFG [args]: TLC with the shared library on its path
d=$(dirname "$1"); m=$(mktemp -d /tmp/tlcmeta.XXXXXX)
cd "$d" && java -XX:+UseParallelGC -Xss16m -DTLA-Library=/verif/spec/lib -Dtlc2.tool.impl.Tool.cdot=true -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir "$m" -config "$2" $3 $4 $5 $6 $(basename "$1")
rc=$?; rm -rf "$m"; exit $rc
