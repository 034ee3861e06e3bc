# try.sh ID...: build+tests+demo with and without the change
. /opt/vp/env.sh
for i in "$@"; do
 D=/verif/seeded/$i
 cd /repo; git apply $D/patch.diff || { echo "$i: does not apply"; continue; }
 build >/tmp/b.log 2>&1 || echo "$i: BUILD FAILS"
 bash $D/demo.sh >/tmp/demo.log 2>&1; r1=$?
 t=""; [ -n "$TESTS" ] && { bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/o.json'))
print([x for x in b if x not in o['passed']])"); }
 c=""; if [ -n "$CHECK" ]; then P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])"); c=$(cd /verif; VERIF_SEED=1 bash check.sh $P 2>&1 | tail -4 | cut -c1-250); fi
 git checkout -q -- .
 echo "$i: patched demo=$r1 ($(tail -1 /tmp/demo.log)) failing-tests=$t"; echo "$c"
done
cd /repo; build >/tmp/b.log 2>&1
for i in "$@"; do bash /verif/seeded/$i/demo.sh >/tmp/demo.log 2>&1; echo "$i: clean demo=$?"; done
