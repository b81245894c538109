#!/bin/bash
# Builds the simulator from /repo's current working tree into /verif/build.
# Objects are cached by the content of their inputs. usage: build.sh [outdir]
set -e
V=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
B=${1:-$V/build}
mkdir -p "$B/obj"
exec 9>"$B/.lock"
flock 9
HDR=$(cat "$R"/include/*.h "$R"/src/*.h 2>/dev/null | sha1sum | cut -c1-16)
HHDR=$(cat "$V"/sim/*.h | sha1sum | cut -c1-16)
CC="gcc -std=gnu99 -D_GNU_SOURCE -I$R/include -I$R/src -O1 -g -fno-omit-frame-pointer -fsanitize=address -fexceptions -w"
CXX="g++ -std=gnu++17 -I$R/include -O2 -g -fno-omit-frame-pointer -fsanitize=address -Wall -Wno-unused-function"
# the reference model and the simulator's core never dereference what the library returned: not instrumented, for speed
CXXP="g++ -std=gnu++17 -I$R/include -O2 -g -fno-omit-frame-pointer -Wall -Wno-unused-function"
WRAP=""
for f in malloc calloc realloc free strdup strndup asprintf vasprintf regcomp regfree __assert_fail abort \
	lstat stat opendir readdir closedir dirfd fstatat fopen fopen64; do WRAP="$WRAP -Wl,--wrap=$f"; done
objs=()
jobs_list=""
for f in "$R"/src/*.c; do
	h=$(echo "$HDR $CC" | cat - "$f" | sha1sum | cut -c1-20)
	o="$B/obj/$(basename "$f" .c)-$h.o"
	objs+=("$o")
	[ -f "$o" ] || jobs_list+="$CC -c $f -o $o.tmp\$\$ && mv $o.tmp\$\$ $o"$'\n'
done
for f in "$V"/sim/*.cc; do
	x=$CXX
	case $(basename "$f") in model.cc|sim.cc) x=$CXXP;; esac
	h=$(echo "$HDR $HHDR $x" | cat - "$f" | sha1sum | cut -c1-20)
	o="$B/obj/h-$(basename "$f" .cc)-$h.o"
	objs+=("$o")
	[ -f "$o" ] || jobs_list+="$x -c $f -o $o.tmp\$\$ && mv $o.tmp\$\$ $o"$'\n'
done
if [ -n "$jobs_list" ]; then
	printf "%s" "$jobs_list" | xargs -d '\n' -P 8 -I{} bash -c '{}' >"$B/build.log" 2>&1 || { cat "$B/build.log" >&2; exit 3; }
	cat "$B/build.log" >&2
fi
# the YAML library's own allocations: separate seam (faults, but leaks inside it are not the library's)
Y=$(gcc -print-file-name=libyaml.a)
if [ ! -f "$B/libyaml-sim.a" ] || [ "$Y" -nt "$B/libyaml-sim.a" ]; then
	objcopy --redefine-sym malloc=yl_malloc --redefine-sym realloc=yl_realloc --redefine-sym free=yl_free \
		--redefine-sym strdup=yl_strdup "$Y" "$B/libyaml-sim.a.tmp" && mv "$B/libyaml-sim.a.tmp" "$B/libyaml-sim.a" || exit 3
fi
id=$(echo "${objs[@]} $WRAP" | sha1sum | cut -c1-16)
if [ ! -x "$B/sim-$id" ]; then
	g++ -fsanitize=address $WRAP -o "$B/sim-$id.tmp" "${objs[@]}" "$B/libyaml-sim.a" || exit 3
	mv "$B/sim-$id.tmp" "$B/sim-$id"
	ls -t "$B"/sim-* | tail -n +4 | xargs -r rm -f
	ls -t "$B"/obj/*.o | tail -n +400 | xargs -r rm -f
fi
echo "$B/sim-$id"
