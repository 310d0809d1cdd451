# usage: try.sh ID [seconds] : confirm the planted bug and run its property's check on it
for ID in "$@"; do
d=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
bash /opt/vp/build.sh >/tmp/plant/build.log 2>&1
timeout 300 bash $d/demo.sh >/tmp/plant/demo0.log 2>&1; r0=$?
git apply $d/patch.diff || { echo "$ID: no apply"; continue; }
bash /opt/vp/build.sh >/tmp/plant/build.log 2>&1 || echo "$ID: BUILD FAILS"
bash /opt/vp/test.sh /tmp/plant/t.json >/dev/null 2>&1
timeout 300 bash $d/demo.sh >/tmp/plant/demo1.log 2>&1; r1=$?
tests=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/plant/t.json'))
def names(x,k):
    return set(x.get(k,[])) if isinstance(x,dict) else set()
want=names(b,'stable') or names(b,'passed') or names(b,'pass')
got=names(t,'passed') or names(t,'pass')
print(len(want), len(want-got))
P
)
cd /verif; SECONDS_QUICK=${S:-60} bash check.sh $P quick > /tmp/plant/check.log 2>&1; rc=$?
echo "$ID ($P): demo clean=$r0 bug=$r1; tests(want,missing)=$tests; check rc=$rc: $(grep -a -m1 "^VIOLATION" /tmp/plant/check.log | cut -c1-100) | $(grep -a "^$P: .*runs," /tmp/plant/check.log | cut -c1-60)"
tail -1 /tmp/plant/demo1.log | cut -c1-160; [ $r0 = 0 ] || tail -5 /tmp/plant/demo0.log
cd /repo; git checkout -q -- .
done
