#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks"  -- reads demo.cpp from stdin; the change must be applied in /tmp/seedrepo (a copy of /repo)
set -e
D=/verif/seeded/$1; mkdir -p "$D"
git -C /tmp/seedrepo diff > "$D/patch.diff"
cat > "$D/demo.cpp"
cat > "$D/demo.sh" <<'S'
#!/bin/bash
# run in /repo after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I=-I$PWD/src; for d in bool lra uf parser terms utils variable_order; do I="$I -I$PWD/src/$d"; done
g++ -std=c++20 -O0 -g -w $I "$D/demo.cpp" -o "$T/demo" _build/libyaga.a -lgmpxx -lgmp || exit 0
timeout 200 "$T/demo"
S
chmod +x "$D/demo.sh"
python3 - "$D" "$2" "$3" "$4" <<'P'
import sys,json
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
git -C /tmp/seedrepo checkout -q -- .
wc -l "$D/patch.diff"
