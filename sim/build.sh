#!/bin/bash
# Builds the simulator from /repo's working tree.  usage: build.sh OUTDIR   (result: OUTDIR/dst)
set -u
SIM=$(cd "$(dirname "$0")" && pwd); REPO=${REPO:-/repo}; OUT=${1:?outdir}; mkdir -p "$OUT/sut" "$OUT/obj"; OUT=$(cd "$OUT" && pwd)
cd "$REPO" || exit 2
[ -f config.h ] || cp "$SIM/config_fallback.h" "$OUT/config.h"
export OUT SIM REPO
OPT=${SIMOPT:--O1}
export SUTF="$OPT -g1 -w -std=gnu11 -fno-pie -fno-omit-frame-pointer -fsanitize=thread -femulated-tls -mllvm -tsan-instrument-func-entry-exit=0 -fno-builtin-malloc -DHAVE_CONFIG_H -DARCUS_SIM=1 -DENABLE_PERSISTENCE=1 -DENABLE_ZK_INTEGRATION=1 -DENABLE_CLUSTER_AWARE=1 -DENABLE_ZK_RECONFIG=1 -DTHREADED=1 -include $SIM/zkdecl.h -I. -Iinclude -I$OUT -I/usr/include/zookeeper -Iengines/default"
cat > "$OUT/redef.txt" <<< "$(for s in $(cat "$SIM/intercept.txt"); do echo "$s sim_$s"; done; echo "__assert_fail sim_assert_fail"; echo "main memcached_main")"
cc1() { # compile one unit
  src=$1
  case "$src" in
    *.cpp) g++ -std=gnu++17 ${CXXO:--O2} -g1 -w -fno-pie -I"$SIM" -I/usr/include/zookeeper -c "$src" -o "$OUT/obj/$(basename "$src" .cpp).o" || { echo "compile failed: $src" >&2; exit 255; } ;;
    *) o=$OUT/sut/$(echo "${src%.c}" | tr / _).o
       clang $SUTF -c "$src" -o "$o.tmp" || { echo "compile failed: $src" >&2; exit 255; }
       extra=; [ "$src" = ascii_scrub.c ] && extra="--redefine-sym memcached_extensions_initialize=scrub_memcached_extensions_initialize"
       objcopy --redefine-syms="$OUT/redef.txt" $extra "$o.tmp" "$o" && rm -f "$o.tmp" ;;
  esac; }
export -f cc1
rm -f "$OUT"/sut/*.o
SUT="memcached.c engines/default/coll_btree.c $SIM/ops.cpp $SIM/model.cpp $(ls "$SIM"/*.cpp | grep -v -e /ops.cpp -e /model.cpp) $(ls engines/default/*.c | grep -v coll_btree.c) thread.c cache.c hash.c mc_util.c topkeys.c stats_prefix.c cmdlog.c lqdetect.c daemon.c sasl_defs.c util.c genhash.c config_parser.c engine_loader.c extension_loggers.c ascii_scrub.c arcus_zk.c arcus_hb.c cluster_config.c sasl_auxprop.c"
printf '%s\n' $SUT | while read f; do [ -f "$f" ] && echo "$f"; done | xargs -P "${JOBS:-8}" -I{} bash -c 'cc1 {}' || exit 2
g++ -static -no-pie -o "$OUT/dst" "$OUT"/obj/*.o "$OUT"/sut/*.o 2>"$OUT/link.log" || { grep -v warning "$OUT/link.log" | head -40; exit 2; }
