#!/bin/bash
# tools/mkseed.sh ID PROPERTY "needs" "breaks"  - the edited tree is /tmp/seedwork (git copy of /repo); demo.c on stdin
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/seedwork diff > $d/patch.diff
cat > $d/demo.c
cat > $d/demo.sh <<'S'
#!/bin/bash
# builds demo.c against the library sources of the current directory (/repo) and runs it
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap '/bin/rm -rf "$t"' EXIT
cc=${CC:-gcc}
$cc -g -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -w -I c/graphLib $FLAGS "$d/demo.c" $(find c/graphLib -name '*.c') -o "$t/demo" || exit 3
cd "$t" && ASAN_OPTIONS=detect_leaks=${LEAKS:-0} timeout 120 ./demo
S
python3 - "$@" > $d/meta.json <<'P'
import sys,json
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
git -C /tmp/seedwork checkout -q -- .
cat $d/patch.diff | head -40
