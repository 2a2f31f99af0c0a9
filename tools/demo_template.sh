#!/bin/bash
# Compiles demo.cc against the objects that build.sh made, and runs it.
d=$(cd "$(dirname "$0")" && pwd)
r=$(pwd)
t=$(mktemp -d /tmp/dreal_demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
o="$r/_build/obj"
objs=$(find "$o/third_party/com_github_robotlocomotion_drake/drake_symbolic" \
  "$o/dreal/symbolic/symbolic" "$o/dreal/symbolic/prefix_printer" \
  "$o/dreal/util/nnfizer" "$o/dreal/util/naive_cnfizer" \
  "$o/dreal/util/tseitin_cnfizer" "$o/dreal/util/predicate_abstractor" \
  "$o/dreal/util/if_then_else_eliminator" "$o/dreal/util/logging" \
  "$o/dreal/util/math" "$o/dreal/util/timer" "$o/dreal/util/profiler" \
  "$o/dreal/smt2/sort" "$o/dreal/smt2/term" "$o/dreal/smt2/logic" \
  -name '*.o' 2>/dev/null)
g++ -std=c++14 -O0 -w -fno-strict-aliasing -iquote "$r" -iquote "$r/_build/gen" \
  -isystem "$r/third_party/com_github_robotlocomotion_drake/." \
  -DFMT_DEPRECATED_OSTREAM=1 -DFMT_HEADER_ONLY=1 -DFMT_NO_FMT_STRING_ALIAS=1 \
  -DSPDLOG_FMT_EXTERNAL "$d/demo.cc" $objs -lfmt -lpthread -o "$t/demo" || exit 3
timeout 100 "$t/demo"
