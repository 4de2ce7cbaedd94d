#!/bin/bash
# quick developer build
B=/tmp/ob; mkdir -p $B
cd "$(dirname "$0")"
{ ls subjects/*.cpp; ls *.cpp; } | xargs -P${J:-8} -I{} sh -c 'o='$B'/$(echo {} | tr / _).o; if [ ! -f $o ] || [ {} -nt $o ] || [ engine.h -nt $o -a $(dirname {}) = . ] || [ core.h -nt $o ] || [ subjects.h -nt $o ]; then g++ -std=gnu++17 -O1 -g1 -fno-lifetime-dse -fno-ipa-modref -fno-ipa-pure-const -w -DCPPSORT_DISABLE_DEPRECATION_WARNINGS -I${REPO:-/repo}/include -c {} -o $o || { rm -f $o; echo FAIL {}; }; fi'
g++ -no-pie $B/*.o -o /tmp/simrun -lpthread
