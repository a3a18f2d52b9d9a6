#!/bin/bash
# build.sh ID [DIR]: builds harness ID against /repo's current working tree.
# Prints the path of the binary. Everything goes to DIR (default /verif/build).
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; B=${2:-$V/build}; REPO=${VERIF_REPO:-/repo}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
mkdir -p "$B/obj" "$B/inc" || exit 1
ln -sfn "$REPO/src" "$B/inc/sharemind" || exit 1
for f in rt kernel main; do
    o=$B/obj/$f.o
    if [ ! -e "$o" ] || [ "$V/sim/$f.cpp" -nt "$o" ] || [ "$V/sim/rt.h" -nt "$o" ] || [ "$V/sim/sim.h" -nt "$o" ]; then
        g++ -std=c++17 -O2 -g -fno-builtin -c "$V/sim/$f.cpp" -o "$o.$$" || exit 1
        mv -f "$o.$$" "$o"
    fi
done
# The shims are only used for headers of SharemindCHeaders, which is absent here;
# /repo's own headers come first.
compile() {
    g++ -std=c++14 -O1 -g -fsanitize=thread -U__SANITIZE_THREAD__ -no-pie -fno-pie \
        -Wno-tsan -fno-omit-frame-pointer \
        -I"$V/sim" -I"$V/harness" -I"$B/inc" -I"$V/shims/include" \
        -c "$V/harness/$ID.cpp" -o "$B/obj/$ID.$$.o" "$@"
}
# A harness may leave out what a defect, repaired here, once kept from compiling.
compile || { grep -q HARNESS_FALLBACK "$V/harness/$ID.cpp" && compile -DHARNESS_FALLBACK; } || exit 1
g++ -no-pie "$B/obj/$ID.$$.o" "$B/obj/rt.o" "$B/obj/kernel.o" "$B/obj/main.o" \
    -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=memchr,--wrap=strlen,--wrap=strcmp -Wl,-z,now -lpthread -ldl -o "$B/$ID.$$" || exit 1
mv -f "$B/$ID.$$" "$B/$ID"
mv -f "$B/obj/$ID.$$.o" "$B/obj/$ID.o"
echo "$B/$ID"
