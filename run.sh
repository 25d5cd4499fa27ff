#!/bin/bash
# dev helper: run.sh ENTRY [engine args]
e=$1; shift
/verif/engine/target/release/twsym /verif/build/h.ll --entry $e "$@" 2>/tmp/err
