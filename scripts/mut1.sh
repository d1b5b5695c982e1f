# usage: mut1.sh NAME CHECK : applies a mutant to /tmp/mr and runs the check
cd /verif && rm -rf /tmp/mr && mkdir /tmp/mr && cp -a /repo /tmp/mr/repo && python3 - "$1" <<'PY'
import sys
sys.path.insert(0,'/verif/scripts')
import mutate
m=[m for m in mutate.parse('/verif/scripts/mutants.txt') if m['name']==sys.argv[1]][0]
for f,old,new in m['edits']:
    p='/tmp/mr/repo/'+f; s=open(p).read()
    if old.strip()=='': s+=new
    elif old in s: s=s.replace(old,new,1)
    else: s=s.replace(old.rstrip('\n'),new.rstrip('\n'),1)
    open(p,'w').write(s)
PY
mkdir -p /tmp/mr/v; WWR_REPO=/tmp/mr/repo WWR_VERIF=/tmp/mr/v timeout ${T:-300} ./bin/wwrstatic $2
