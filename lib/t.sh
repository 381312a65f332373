#!/bin/bash
# dev helper: run TLC on a module
cd /verif/spec; m=$1; shift
java -XX:+UseParallelGC -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -config ${CFG:-$m.cfg} -workers ${W:-8} -deadlock -noGenerateSpecTE -metadir /tmp/m "$@" $m.tla
