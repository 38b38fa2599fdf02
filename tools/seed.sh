#!/bin/bash
# seed.sh ID PROPERTY "needs" "what it breaks": stores the diff of the scratch tree /tmp/sw (a copy of /repo's tracked files) as a planted bug
set -e
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/sw diff > $d/patch.diff
test -s $d/patch.diff
python3 - "$2" "$3" "$4" > $d/meta.json <<'P'
import json,sys
print(json.dumps(dict(property=sys.argv[1], needs=sys.argv[2], what_it_breaks=sys.argv[3]), indent=1))
P
git -C /tmp/sw checkout -q -- .
if [ ! -f $d/demo.sh ]; then
cat > $d/demo.sh <<'D'
#!/bin/bash
# builds demo.cpp against /repo's headers and library; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -w -Iinclude -I_build/include -Ilib -I/usr/include/nlohmann "$here/demo.cpp" -o "$t/demo" -L_build/root/lib -lPothos -Wl,-rpath,"$PWD/_build/root/lib" -lpthread || exit 2
cd "$t" && timeout 120 ./demo
D
fi
echo stored $id
