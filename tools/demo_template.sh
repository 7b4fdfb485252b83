#!/bin/bash
# Run in /repo after the build.  Exit 0: behaves as the property says.
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'find "$t" -type f -delete; rmdir "$t"' EXIT
TP=third_party
F="-std=c++14 -O1 -w -DFMT_DEPRECATED_OSTREAM=1 -DFMT_HEADER_ONLY=1 -iquote . -isystem $TP/com_github_robotlocomotion_drake/. -isystem $TP/com_github_pinam45_dynamic_bitset -isystem $TP/com_github_tartanllama_optional -isystem $TP/com_github_progschj_threadpool"
ls $TP/com_github_robotlocomotion_drake/dreal/symbolic/*.cc dreal/symbolic/*.cc dreal/util/logging.cc EXTRA_SOURCES "$here/demo.cc" |
  xargs -P 8 -I{} sh -c 'g++ '"$F"' -c "{}" -o "'"$t"'/$(echo "{}" | tr / _).o" || exit 255'
g++ "$t"/*.o -o "$t/demo" -lpthread
timeout 60 "$t/demo"
