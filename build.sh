#!/bin/bash
# Builds the simulator against /repo's current working tree (out of tree).
# usage: [DST_TTL=1] build.sh [repo] [build-dir]      DST_TTL=1: the variant with TTL support
set -e
REPO=${1:-/repo}; V=$(cd "$(dirname "$0")" && pwd); B=${2:-$V/build}
mkdir -p "$B/obj" "$B/lib"
for c in cc:gcc cxx:g++; do
  printf '#!/bin/bash\ncase "$DST_INSTR: $* " in 1:*" -c "*) exec %s "$@" -fsanitize=thread ;; *) exec %s "$@";; esac\n' ${c#*:} ${c#*:} > "$B/${c%:*}.new"
  chmod +x "$B/${c%:*}.new"
  cmp -s "$B/${c%:*}.new" "$B/${c%:*}" || cp "$B/${c%:*}.new" "$B/${c%:*}"
done
JOBS=$(nproc 2>/dev/null || echo 8)
LIBT="cachelib admissionC admissionCpp prefetchC evictionC evictionCPP traceReader profiler dataStructure ds_hash utils cliReaderLib traceAnalyzerLib"
TOOLS="cachesim distUtil traceConv traceFilter tracePrint traceAnalyzer"
# 1. the library, instrumented, in the background; 2. the harness meanwhile
(
  if ! grep -qs DEFAULT_PREALLOC_N_OBJ "$B/lib/build.ninja"; then
    rm -rf "$B/lib/CMakeCache.txt" "$B/lib/CMakeFiles"
    CC="$B/cc" CXX="$B/cxx" CFLAGS="-w" CXXFLAGS="-w -DDEFAULT_PREALLOC_N_OBJ=1000" cmake -S "$REPO" -B "$B/lib" -G Ninja -DCMAKE_BUILD_TYPE=Release \
      -DENABLE_TESTS=OFF ${DST_TTL:+-DSUPPORT_TTL=ON} -DENABLE_GLCACHE=ON -DENABLE_LRB=OFF > "$B/cmake.log" 2>&1 || { tail -20 "$B/cmake.log" >&2; exit 1; }
  fi
  TO=$(ninja -C "$B/lib" -t inputs $(printf 'bin/%s ' $TOOLS) | grep -E "CMakeFiles/($(echo $TOOLS | tr ' ' '|'))\.dir/.*\.o$" | sort -u)
  DST_INSTR=1 ninja -C "$B/lib" $LIBT $TO > "$B/ninja.log" 2>&1 || { grep -E "error|FAILED|undefined" "$B/ninja.log" | head -20 >&2; exit 1; }
) & LP=$!
CF="-std=c++17 -O1 -g -w ${DST_TTL:+-DSUPPORT_TTL=1} -DINCLUDE_PRIV=1 -DENABLE_GLCACHE=1 -I$REPO/libCacheSim/include -I$REPO $(pkg-config --cflags glib-2.0)"
SRC=$(ls "$V"/sim/*.cpp)
printf '%s\n' $SRC | xargs -P "$JOBS" -I{} sh -c 'o='"$B"'/obj/$(basename {} .cpp).o; d='"$B"'/obj/$(basename {} .cpp).d; if [ -f $o ] && [ -f $d ] && [ -z "$(for h in $(sed -e "s/^[^:]*://" -e "s/\\\\//g" $d); do [ $h -nt $o ] && echo y && break; done)" ]; then :; else g++ '"$CF"' -MMD -MF $d -c {} -o $o || exit 255; fi'
wait $LP
# each command-line tool becomes one object whose only global symbol is its entry point
TOBJ=""
for t in $TOOLS; do
  ld -r --force-group-allocation -o "$B/tool_$t.tmp.o" $(ninja -C "$B/lib" -t inputs bin/$t | grep -E "CMakeFiles/$t\.dir/.*\.o$" | sed "s#^#$B/lib/#")
  objcopy --redefine-sym main=tool_${t}_main --keep-global-symbol=tool_${t}_main "$B/tool_$t.tmp.o" "$B/tool_$t.o"; rm -f "$B/tool_$t.tmp.o"; TOBJ="$TOBJ $B/tool_$t.o"
done
WRAPS="g_thread_pool_new g_thread_pool_push g_thread_pool_free g_thread_pool_get_num_threads g_thread_pool_unprocessed g_thread_pool_set_max_threads g_mutex_init g_mutex_clear g_mutex_lock g_mutex_unlock g_mutex_trylock pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock g_cond_init g_cond_clear g_cond_wait g_cond_signal g_cond_broadcast g_cond_wait_until pthread_cond_wait pthread_cond_signal pthread_cond_broadcast pthread_create pthread_join g_thread_new g_thread_join g_thread_yield sched_yield sleep usleep g_usleep nanosleep get_nprocs get_nprocs_conf sysconf g_get_num_processors pthread_setaffinity_np fopen fopen64 fileno open open64 fstat mmap mkdir unlink remove rename abort exit"
W=""; for w in $WRAPS; do W="$W -Wl,--wrap=$w"; done
LIBS=$(for t in $LIBT; do find "$B/lib" -name "lib$t.a"; done)
g++ -o "$B/dst" "$B"/obj/*.o $TOBJ $W -rdynamic -no-pie -Wl,--start-group $LIBS -Wl,--end-group $(pkg-config --libs glib-2.0 gthread-2.0) -lzstd -lxgboost -lm -ldl -lpthread > "$B/link.log" 2>&1 || { head -c 3000 "$B/link.log" >&2; exit 1; }
