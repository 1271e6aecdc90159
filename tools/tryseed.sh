#!/bin/bash
# tryseed.sh ID [notest]: apply a planted change to /repo, run demo, stable tests and the check of its property, undo it.
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
timeout 300 bash $d/demo.sh >/tmp/ts0 2>&1; echo "demo clean: $?"
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
python3 - "$d/patch.diff" <<'P'
import subprocess,sys,re
base="6ed5ba7"; path=None; ok=0; old=0
lines=open(sys.argv[1]).read().splitlines()
for l in lines:
    if l.startswith('--- a/'): path=l[6:]; src=subprocess.run(["git","show",f"{base}:{path}"],capture_output=True,text=True).stdout.splitlines()
    elif l.startswith('-') and not l.startswith('---'): old+=1; ok+= l[1:] in src
print(f"removed lines in original: {ok}/{old}")
P
grep -q "[.][ch]pp" $d/patch.diff && { bash /opt/vp/build.sh >/tmp/tsb 2>&1; trap "git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1" EXIT; }
timeout 300 bash $d/demo.sh >/tmp/ts1 2>&1; echo "demo seeded: $?"; tail -2 /tmp/ts1
if [ "$2" != notest ]; then
  timeout 300 bash /opt/vp/test.sh /tmp/o.json >/tmp/tst 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
ps=set(o.get('passed',[])); st=b['stable']
print("stable tests now failing:", sorted(set(st)-ps)[:5])
P
fi
cd /verif; timeout 900 bash check.sh $p quick >/tmp/tsc 2>&1; echo "check $p: $?"; grep -A1 -m3 "^C../" /tmp/tsc | cut -c1-300
rm -rf /verif/replays/*
