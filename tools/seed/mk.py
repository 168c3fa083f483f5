#!/usr/bin/env python3
"""mk.py ID PROP file old new needs breaks  (repeat file/old/new via python api)"""
import subprocess, os, json, sys, shutil
R = os.environ.get('SEEDREPO','/repo')
SK = open('/tmp/seed/common.h').read()
def seed(id, prop, edits, demo, needs, breaks, sh=None, extra=None, kern=False):
    if kern:
        sh=open('/tmp/seed/k/demo.sh').read(); extra={n:open('/tmp/seed/k/'+n).read() for n in ('kshim.h','kdemo.h')}
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    assert subprocess.run(['git','-C',R,'status','--porcelain'],capture_output=True,text=True).stdout=='' , 'repo dirty'
    try:
        for f,old,new in edits:
            p=R+'/'+f; s=open(p).read(); assert s.count(old)==1,(id,f,s.count(old))
            open(p,'w').write(s.replace(old,new))
        diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
        open(d+'/patch.diff','w').write(diff)
    finally:
        subprocess.run(['git','-C',R,'checkout','-q','--','.'])
    open(d+'/demo.sh','w').write(sh or open('/tmp/seed/demo.sh').read())
    if demo: 
        open(d+'/demo.c','w').write(demo)
        if not kern: open(d+'/common.h','w').write(SK)
    for n,c in (extra or {}).items(): open(d+'/'+n,'w').write(c)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
