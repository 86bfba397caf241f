#!/bin/bash
# mkseed.sh ID PROPERTY PKG NEEDS WHAT: turn the uncommitted change of the scratch copy /tmp/seed/repo into
# seeded/ID (patch.diff, demo.sh, meta.json; demo_test.go must already be there), after confirming that the
# change builds, passes the stable tests, and that the demonstration passes without it and fails with it.
set -e
id=$1 prop=$2 pkg=$3 needs=$4 what=$5
d=/verif/seeded/$id
race=; test "$prop" = C18 && race="-race "
mkdir -p "$d"
cat > "$d/demo.sh" <<EOS
#!/bin/bash
# places demo_test.go into the package through an overlay and runs it
d=\$(cd "\$(dirname "\$0")" && pwd)
t=\$(mktemp -d)
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$d" > "\$t/ov.json"
timeout 240 go test ${race}-vet=off -count=1 -timeout 200s -overlay "\$t/ov.json" -run '^TestDemo' ./$pkg
r=\$?
rm -r "\$t"
exit \$r
EOS
chmod +x "$d/demo.sh"
python3 - "$d" "$prop" "$needs" "$what" <<'EOP'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
EOP
cd /tmp/seed/repo
git diff > "$d/patch.diff"
test -s "$d/patch.diff"
go build ./... 
(cd /repo && bash "$d/demo.sh" >/tmp/seed/demo0.log 2>&1) || { echo "$id: demo fails on the unchanged tree"; cat /tmp/seed/demo0.log; exit 1; }
if bash "$d/demo.sh" >/tmp/seed/demo1.log 2>&1; then echo "$id: demo passes with the patch"; exit 1; fi
grep -q 'FAIL\|panic\|DATA RACE' /tmp/seed/demo1.log || { cat /tmp/seed/demo1.log; exit 1; }
grep -q 'build failed' /tmp/seed/demo1.log && { cat /tmp/seed/demo1.log; exit 1; }
go test -vet=off -p 1 -count=1 ./... >/tmp/seed/test.log 2>&1 || { echo "$id: tests fail"; grep -E '^(---|FAIL|\s+---)' /tmp/seed/test.log | head -20; exit 1; }
git checkout -q -- .
echo "$id ok"
