#!/bin/bash
# run.sh PROPERTY [--thorough] [--replay FILE]: build what the property needs from /repo's working tree, then check it.
cd "$(dirname "$0")" || exit 2
prop=$1; shift
case $prop in
  P01|P02|P03|P04|P05|P06|P10|P11) bin=query_checks ;;
  P07|P08) bin=opt_checks ;;
  P09) bin=sym_checks ;;
  P12) bin=ekf_checks ;;
  P13) bin=hist_checks ;;
  P14) bin=conc_checks ;;
  P15) bin=mem_checks ;;
  P16) bin=prim_checks ;;
  *) echo "unknown property $prop"; exit 2 ;;
esac
mkdir -p build/out evidence
if ! make -s -j8 build/$bin >build/out/make.$prop.log 2>&1; then
  tail -40 build/out/make.$prop.log; echo "build of $bin from /repo failed"; exit 2
fi
exec ./build/$bin $prop "$@"
