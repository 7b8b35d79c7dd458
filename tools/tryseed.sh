#!/bin/bash
# tryseed.sh ID [PROP...]: (developer tool) confirm a seed in a scratch copy and run checks against it.
# The copy is laid over /repo only in a private mount namespace, so /repo itself is never touched.
ID=$1; shift
V=/verif; S=$V/seeded/$ID
P=${@:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
C=/tmp/seed-$ID; rm -rf "$C"; cp -a /repo "$C"
git -C "$C" apply "$S/patch.diff" || exit 3
unshare -m bash -c "
mount --bind $C /repo || exit 3
bash /opt/vp/build.sh > $C/b.log 2>&1 || { tail -20 $C/b.log; exit 3; }
cd /repo; bash $S/demo.sh > $C/d.log 2>&1; echo demo-with-patch rc=\$?
[ -n \"\$NOTEST\" ] || { bash /opt/vp/test.sh $C/t.json > $C/t.log 2>&1; python3 -c \"import json;print('tests',{k:(v if isinstance(v,int) else len(v)) for k,v in json.load(open('$C/t.json')).items()})\"; }
for p in $P; do python3 $V/run.py \$p --no-evidence 2>&1 | tail -4; done
"
(cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; bash $S/demo.sh >/tmp/d0.log 2>&1; echo demo-clean rc=$?)
rm -rf "$C"
