import os, subprocess, json, sys, shutil
SEED='/verif/seeded'
BUGS={}
def bug(id, prop, needs, breaks, edits, demo, flags='', cc='gcc', ext='c', run='timeout 120 "$w/demo"', file='zzzjson.h'):
    BUGS[id]=dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,flags=flags,cc=cc,ext=ext,run=run,file=file)
def sh(c,**k):
    p=subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k); return p.returncode,p.stdout.decode('utf-8','replace')
def clean():
    sh('git -C /repo checkout -- .')
    assert sh('git -C /repo status --short')[1].strip()=='' 
def apply_edits(b):
    p='/repo/'+b['file']; raw=open(p,'rb').read(); crlf=b'\r\n' in raw
    t=raw.replace(b'\r\n',b'\n').decode('utf-8')
    for e in b['edits']:
        old,new=e[0],e[1]; cnt=e[2] if len(e)>2 else 1
        assert t.count(old)==cnt, (b['id'],t.count(old),old)
        t=t.replace(old,new)
    o=t.encode('utf-8')
    if crlf:o=o.replace(b'\n',b'\r\n')
    open(p,'wb').write(o)
def make(b):
    d=SEED+'/'+b['id']; os.makedirs(d,exist_ok=True)
    clean()
    ext=b['ext']
    if ext!='sh':
        open(d+'/demo.'+ext,'w').write(b['demo'])
        open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0: the property held in this demonstration; nonzero: it did not
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 99
trap 'rm -rf "$w"' EXIT
%s -w -I"$PWD" %s -o "$w/demo" "$d/demo.%s" -lm -lpthread || exit 98
%s
'''%(b['cc'],b['flags'],ext,b['run']))
    else:
        open(d+'/demo.sh','w').write(b['demo'])
    json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1,ensure_ascii=False)
    rc0,o0=sh('bash %s/demo.sh'%d,cwd='/repo')
    try:
        apply_edits(b)
        rc,diff=sh('git -C /repo diff --binary > %s/patch.diff'%d)
        rc1,o1=sh('bash %s/demo.sh'%d,cwd='/repo')
        rt,ot=sh('bash /opt/vp/test.sh /tmp/bugs-out.json')
        try: r=json.load(open('/tmp/bugs-out.json'))
        except Exception: r={'passed':[],'failed':['?']}
        base=json.load(open('/opt/vp/BASELINE.json'))
        st=base.get('stable') or base.get('passed') or base
        lost=[x for x in st if x not in set(r['passed'])] if isinstance(st,list) else None
    finally:
        clean()
    ok= rc0==0 and rc1!=0 and not lost
    print(b['id'],b['prop'],'demo clean',rc0,'patched',rc1,'lost tests',lost if lost is None else lost[:5],'OK' if ok else 'BAD')
    if rc0!=0: print(o0[-800:])
    if rc1 in(98,99): print(o1[-800:])
    return ok
def check(b,prop=None):
    clean()
    try:
        rc,o=sh('git -C /repo apply %s/%s/patch.diff'%(SEED,b['id'])); assert rc==0,o
        rc,o=sh('timeout 900 python3 /verif/run.py check %s'%(prop or b['prop']),cwd='/verif',env=dict(os.environ,VERIF_SEED=os.environ.get('VS','1'),VERIF_TIER='quick'))
    finally: clean()
    v=[l for l in o.splitlines() if 'VIOLATION' in l]
    print(b['id'],prop or b['prop'],'rc',rc,(v or o.splitlines()[-3:])[:2])
    return rc
