#!/bin/bash
# cc.sh harness.cpp out [extra]: build one harness by hand (ASan/UBSan) against $VERIF_REPO or /repo
R=${VERIF_REPO:-/repo}
s=$1; o=$2; shift 2
g++ -std=c++17 -O1 -g1 -w -ftrivial-auto-var-init=pattern -D_GLIBCXX_ASSERTIONS -include cstdint -fsanitize=address,undefined -fno-sanitize-recover=all -I$R/include -I/verif/lib $s -o $o "$@" -lpthread
