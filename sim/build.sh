#!/bin/bash
# Builds the simulator against /repo's current working tree. Prints the path of the binary on stdout.
# Everything lands in /verif/build (git-ignored), keyed by content, so an unchanged tree costs nothing.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
R=${REPO:-/repo}
B=$V/build
mkdir -p "$B/obj"
exec 9>"$B/.lock"; flock 9
S=$V/sim
CC=gcc CXX=g++
HH=$(cd "$S" && cat *.h | sha256sum | cut -c1-16)
RH=$(cd "$R" && find include pwart pwart_syslib sljit/sljit_src sljit/regex_src -type f \( -name '*.c' -o -name '*.h' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)
BH=$(sha256sum "$S/build.sh" | cut -c1-16)
SRC=$(cd "$S" && ls *.cpp)
AH=$(cd "$S" && cat *.cpp *.h build.sh stub/* 2>/dev/null | sha256sum | cut -c1-16)
OUT=$B/sim-$RH-$AH
if [ -x "$OUT" ]; then echo "$OUT"; exit 0; fi
INC="-I$R/include -I$R/sljit/sljit_src -I$R/sljit/regex_src -I$R -I$S"
O=$B/obj
pids=()
# ---- the system under test
T=$O/sut-$RH-$BH
if [ ! -f "$T/done" ]; then
  mkdir -p "$T"
  SF="-O1 -g -w -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-stack-protector -fno-pie -fno-strict-aliasing -fsanitize=thread -DDEBUG_BUILD=0"
  IO="exit abort __assert_fail printf vprintf puts putchar fprintf vfprintf fputs fputc putc perror memcpy memmove memset mmap munmap mprotect madvise posix_madvise pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once sched_yield usleep nanosleep clock_gettime time"
  FIO="fopen fread fwrite fclose fflush ferror feof clearerr fseek ftell fileno stdin stdout stderr"
  mk() { # name prefix source extra-redirects cflags
    local n=$1 p=$2 src=$3 ex=$4 cf=$5
    { for s in malloc calloc realloc free strdup strndup; do echo "$s ${p}_$s"; done
      for s in $IO $FIO; do echo "$s simio_$s"; done
      for s in $ex; do echo "$s ${p}_$s"; done; } > "$T/$n.map"
    $CC $SF $INC $cf -c "$src" -o "$T/$n.raw.o" && objcopy --globalize-symbol=cpu_feature_list --redefine-syms="$T/$n.map" "$T/$n.raw.o" "$T/$n.o"
  }
  mk pwart simpw "$R/pwart/pwart.c" "sljit_generate_code sljit_free_code" "" & pids+=($!)
  mk sljit simsl "$R/sljit/sljit_src/sljitLir.c" "" "" & pids+=($!)
  mk regex simrx "$R/sljit/regex_src/regexJIT.c" "sljit_generate_code sljit_free_code" "" & pids+=($!)
  if [ -d "$S/stub" ]; then mk syslib simsy "$R/pwart_syslib/pwart_syslib.c" "ffi_closure_alloc ffi_closure_free ffi_prep_closure_loc ffi_prep_cif ffi_prep_cif_var" "-I$S/stub -DPWART_SYSLIB_LIBFFI_ENABLED" & pids+=($!)
    mk runner simrn "$R/pwart_syslib/wasiexec.c" "" "-I$S/stub -Dmain=pwart_wasiexec_main" & pids+=($!); fi
fi
# ---- the simulator
for f in $SRC; do
  h=$(cat "$S/$f" "$S/build.sh" | sha256sum | cut -c1-16)
  # only files that read the repository's headers depend on its content
  if grep -q 'sljitLir.h\|regexJIT.h\|pwart.h\|pwart_syslib.h' "$S/$f" "$S"/*.h; then d=$(cat "$R"/include/*.h "$R"/sljit/sljit_src/*.h "$R"/sljit/regex_src/*.h | sha256sum | cut -c1-16); else d=x; fi
  o=$O/${f%.cpp}-$h-$HH-$d.o
  OBJS="$OBJS $o"
  if [ ! -f "$o" ]; then
    { $CXX -std=c++17 -O1 -g -fno-pie -Wall -Wno-unused-function -Wno-format-truncation -DSIM_VARIANT='"instrumented"' $INC -I$S/stub -c "$S/$f" -o "$o.tmp" && mv "$o.tmp" "$o"; } & pids+=($!)
  fi
done
for p in "${pids[@]}"; do wait "$p" || { echo "build failed" >&2; exit 4; }; done
touch "$T/done"
SO="$T/pwart.o $T/sljit.o $T/regex.o"; [ -f "$T/syslib.o" ] && SO="$SO $T/syslib.o $T/runner.o"
$CXX -no-pie $OBJS $SO -lffi -lm -lpthread -o "$OUT.tmp" >&2
mv "$OUT.tmp" "$OUT"
# drop stale outputs
find "$B" -maxdepth 1 -name 'sim-*' -mmin +600 -delete 2>/dev/null || true
ls -dt "$O"/sut-* 2>/dev/null | tail -n +7 | xargs -r rm -rf
find "$O" -maxdepth 1 -name '*.o' -mmin +1440 -delete 2>/dev/null || true
echo "$OUT"
