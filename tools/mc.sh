#!/bin/bash
# mc.sh MODEL [TLC args]: run a bounded model by hand
cd "$(dirname "$0")/../spec" && m=$1 && shift
java -Xss512m -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC \
  -metadir /tmp/tlcm.$$ -noGenerateSpecTE -config MC.cfg "$@" $m.tla
rm -rf /tmp/tlcm.$$
