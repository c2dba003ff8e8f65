#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough      run one check
   run.py --replay FILE                re-run a recorded violation
Builds the property's check programs from /repo's working tree, explores, filters listed known findings,
writes evidence/<id>.json.  Exit 0 held, 1 violation, 2 no answer (build or harness failure)."""
import sys, os, re, subprocess, hashlib, json, time, concurrent.futures as cf, shutil, tempfile
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,V)
REPO=os.environ.get('VERIF_REPO','/repo')
BUILD=os.path.join(V,'build'); CACHE=os.path.join(BUILD,'bin')
import checks
CXX='g++'
FLAGS=['-std=c++17','-O2','-w','-DTHLS_FW_UINT_ON_MASKED_UINT=1','-I'+REPO+'/include','-I'+V+'/harness']
LIBS=['-lmpfr','-lgmp']

def sh(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,**k)

def build(unit):
    """as build_, without the library's internal helpers (HP_DETAIL) where the tree does not have them"""
    r=build_(unit)
    if r[0] or '-DHP_DETAIL' not in unit.get('defs',[]): return r
    r2=build_(dict(unit,defs=[x for x in unit['defs'] if x!='-DHP_DETAIL']))
    return r2 if r2[0] else r

def build_(unit):
    """unit: dict(name, text|file, defs=[], std=None). returns (exe, err)"""
    os.makedirs(CACHE,exist_ok=True)
    flags=[f for f in FLAGS]
    if unit.get('std'): flags=['-std='+unit['std'] if f.startswith('-std') else f for f in flags]
    if unit.get('opt'): flags=[unit['opt'] if f=='-O2' else f for f in flags]
    flags+=unit.get('defs',[])+unit.get('flags',[]); cxx=unit.get('cxx',CXX)
    d=tempfile.mkdtemp(prefix='u',dir=BUILD)
    try:
        if 'text' in unit:
            src=os.path.join(d,'unit.cpp'); open(src,'w').write(unit['text'])
        else: src=os.path.join(V,'harness',unit['file'])
        pp=sh([cxx]+flags+['-E','-P',src])
        if pp.returncode: return None,pp.stderr.decode(errors='replace')[-3000:]
        main=os.path.join(V,'harness','mc_main.cpp')
        h=hashlib.sha256(pp.stdout+open(main,'rb').read()+open(os.path.join(V,'harness','mc.hpp'),'rb').read()+' '.join(f for f in [cxx]+flags if not f.startswith('-I')).encode()).hexdigest()[:32]
        exe=os.path.join(CACHE,h)
        if os.path.exists(exe): return exe,None
        o=os.path.join(d,'unit.o')
        r=sh([cxx]+flags+['-c',src,'-o',o])
        if r.returncode: return None,r.stderr.decode(errors='replace')[:3000]
        mo=main_obj()
        r=sh([cxx,o,mo,'-o',exe+'.tmp%d'%os.getpid()]+unit.get('flags',[])+LIBS)
        if r.returncode: return None,r.stderr.decode(errors='replace')[:3000]
        os.rename(exe+'.tmp%d'%os.getpid(),exe)
        return exe,None
    finally: shutil.rmtree(d,ignore_errors=True)

def programs(u):
    """one-line programs: those listed as accepted must compile, those listed as rejected must not.  Returns (violations, error)"""
    d=tempfile.mkdtemp(prefix='p',dir=BUILD)
    try:
        src=os.path.join(d,'programs.cpp'); lines=u['pre']+[l for _,l in u['accept']+u['reject']]
        open(src,'w').write('\n'.join(lines)+'\n')
        cmd=[CXX,'-std='+u['std'],'-w','-fsyntax-only','-fmax-errors=0','-I'+REPO+'/include']
        open(os.path.join(d,'none.cpp'),'w').write('\n'.join(u['pre'])+'\n')
        r=sh(cmd+[os.path.join(d,'none.cpp')])
        if r.returncode: return [],r.stderr.decode(errors='replace')[:1500]
        err=sh(cmd+[src]).stderr.decode(errors='replace')
        bad=set(int(m) for m in re.findall(r'programs\.cpp:(\d+):',err)); n=len(u['pre'])+1; v=[]
        for i,(k,l) in enumerate(u['accept']+u['reject']):
            want=i<len(u['accept'])
            if want==((n+i) in bad): v.append(dict(unit=u['name'],space='programs',point=str(i),key=u['name']+':'+k,detail=('does not compile: ' if want else 'is accepted: ')+l))
        return v,None
    finally: shutil.rmtree(d,ignore_errors=True)

def without_uncompilable(u):
    """The unit does not compile.  If that is so for some of its spaces only, the operation rejects those formats although it takes
    others: returns (reduced unit, the rejected spaces).  If it is so for all of them nothing can be said: (None, [])"""
    if 'lines' not in u: return None,[]
    flags=[f for f in FLAGS if not f.startswith('-O')]
    if u.get('std'): flags=['-std='+u['std'] if f.startswith('-std') else f for f in flags]
    cmd=[u.get('cxx',CXX)]+flags+u.get('defs',[])+u.get('flags',[])+['-fsyntax-only','-ferror-limit=0' if u.get('cxx',CXX)=='clang++' else '-fmax-errors=0']; base=u['head'].count('\n')+1
    d=tempfile.mkdtemp(prefix='w',dir=BUILD); src=os.path.join(d,'unit.cpp'); keep=[l for l in u['lines'] if l.strip()]; dropped=[]
    try:
        def errors(ls):
            open(src,'w').write(u['head']+'\n'.join(ls)+'\n}\n'); r=sh(cmd+[src])
            return r.returncode,set(int(m) for m in re.findall(r'unit\.cpp:(\d+):',r.stderr.decode(errors='replace')))
        if errors([])[0]: return None,[]      # the headers themselves, or what the harness uses of them
        for _ in range(6):
            rc,at=errors(keep)
            if rc==0: break
            bad=[]; n=base
            for i,l in enumerate(keep):
                if any(n+j in at for j in range(l.count('\n')+1)): bad.append(i)
                n+=l.count('\n')+1
            if not bad: return None,[]
            dropped+=[keep[i] for i in bad]; keep=[l for i,l in enumerate(keep) if i not in bad]
            if not keep: return None,[]
        else: return None,[]
        # a dropped line must fail on its own, twice
        dropped=[l for l in dropped if errors([l])[1] and errors([l])[1]]
        return dict(u,text=u['head']+'\n'.join(keep)+'\n}\n'),dropped
    finally: shutil.rmtree(d,ignore_errors=True)

_mo=None
def main_obj():
    global _mo
    if _mo: return _mo
    main=os.path.join(V,'harness','mc_main.cpp')
    h=hashlib.sha256(open(main,'rb').read()+open(os.path.join(V,'harness','mc.hpp'),'rb').read()).hexdigest()[:24]
    o=os.path.join(CACHE,'main-'+h+'.o')
    if not os.path.exists(o):
        os.makedirs(CACHE,exist_ok=True)
        t=o+'.tmp%d.o'%os.getpid()
        r=sh([CXX,'-std=c++17','-O2','-c',main,'-o',t])
        if r.returncode: raise SystemExit('engine does not compile: '+r.stderr.decode()[:2000])
        os.rename(t,o)
    _mo=o; return o

def load_known():
    """known_findings.txt:  'finding: property=<id> key=<exact key or prefix*> <text>' | 'fixed: property=.. <commit> ..'"""
    out=[]
    p=os.path.join(V,'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l=l.rstrip('\n')
            if l.startswith('finding: '):
                f=l.split(' ',3); out.append((f[1].split('=',1)[1], f[2].split('=',1)[1], f[3] if len(f)>3 else ''))
    return out

def trim_cache():
    try:
        fs=sorted((os.path.getmtime(os.path.join(CACHE,f)),f) for f in os.listdir(CACHE))
        tot=sum(os.path.getsize(os.path.join(CACHE,f)) for _,f in fs)
        while tot>1500e6 and fs:
            _,f=fs.pop(0); p=os.path.join(CACHE,f); tot-=os.path.getsize(p); os.unlink(p)
    except OSError: pass

def run(pid,tier):
    t0=time.time(); chk=checks.CHECKS[pid]; units=[u for u in chk['units'](tier)]
    os.makedirs(BUILD,exist_ok=True); os.makedirs(os.path.join(V,'evidence'),exist_ok=True); trim_cache()
    main_obj()
    progs=[u for u in units if 'accept' in u]; units=[u for u in units if 'accept' not in u]
    with cf.ThreadPoolExecutor(8) as ex: pv=list(ex.map(programs,progs))
    with cf.ThreadPoolExecutor(8) as ex: built=list(ex.map(build,units))
    uncomp=[]; capped=[]
    for u,b in zip(units,built):
        if not b[0] and u.get('optional'): print('not built, not explored (this compiler or standard does not take it): '+u['name']); capped.append(u['name'])
    keep=[i for i,u in enumerate(units) if built[i][0] or not u.get('optional')]; units=[units[i] for i in keep]; built=[built[i] for i in keep]
    for i,u in enumerate(units):
        if built[i][0] or len(uncomp)>20: continue
        r,bad=without_uncompilable(u)
        if r and bad:
            b=build(r)
            if b[0]:
                for l in bad: uncomp.append(dict(unit=u['name'],space='compile',point=l,key=u['name']+':does-not-compile:'+l.strip()[:120],detail='does not compile: '+l.strip()+' although other spaces of this unit do: '+' '.join(built[i][1][:200].split())))
                units[i]=r; built[i]=b
    broken=[(u['name'],err) for u,(e,err) in zip(units,built) if not e]
    for k,(n,err) in enumerate(broken): print('BUILD FAILED for unit %s of %s:\n%s'%(n,pid,err[:1200 if k==0 else 0]))
    pairs=[(u,b) for u,b in zip(units,built) if b[0]]   # what does build is still explored; without a violation the answer is then 2
    tb=time.time()-t0
    limit=float(os.environ.get('VERIF_LIMIT', 780 if tier=='quick' else 6*3600))
    known=load_known(); viol=uncomp; hits={}; samples=[]; spaces=[]; tot=dict(ev=0,st=0,cov=0,pts=0,ref=0); notrep=[]
    for u,(v,err) in zip(progs,pv):
        if err: print('BUILD FAILED for unit %s of %s:\n%s'%(u['name'],pid,err)); broken.append((u['name'],err)); continue
        n=len(u['accept'])+len(u['reject']); viol+=v; tot['ev']+=n; tot['st']+=n; tot['cov']+=2; tot['pts']+=n; spaces.append(dict(space=u['name'],points=n,of=n,calls=n,states=n,outcomes=2)); samples.append('%s: %d one-line programs that must compile, %d that must not'%(u['name'],len(u['accept']),len(u['reject'])))
    for u,(exe,_) in pairs:
        if viol and os.environ.get('VERIF_STOP'): break   # development only: first violation is enough
        left=limit-(time.time()-t0)
        cmd=[exe,'--workers','8','--limit',str(max(5,left))]+(['--thorough'] if tier=='thorough' else [])
        r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,cwd=BUILD)
        got=False
        for l in r.stdout.decode(errors='replace').split('\n'):
            f=l.split('\t')
            if f[0]=='V' and len(f)>=4: viol.append(dict(unit=u['name'],space=f[1],point=f[2],key=f[3],detail=f[4] if len(f)>4 else ''))
            elif f[0]=='N': notrep.append(l)
            elif f[0]=='S': samples.append(f[2] if len(f)>2 else l)
            elif f[0]=='C': capped.append(f[1])
            elif f[0]=='P':
                kv=dict(x.split('=',1) for x in f[2:] if '=' in x)
                d=int(kv['points'].split('/')[0]); ev=int(kv['evals'])
                spaces.append(dict(space=f[1],points=d,of=int(kv['points'].split('/')[1]),calls=ev,states=int(kv['states']),outcomes=int(kv['cover'])))
                if f[1].startswith('reference'): tot['ref']+=ev
                else: tot['ev']+=ev; tot['st']+=int(kv['states']); tot['cov']+=int(kv['cover']); tot['pts']+=d
                if 'INCOMPLETE' in l: capped.append(f[1])
            elif f[0]=='T': got=True
        if not got or r.returncode not in (0,1):
            print('HARNESS FAILED: unit %s ended with %d'%(u['name'],r.returncode)); broken.append((u['name'],'run'))
    new=[]
    for v in viol:
        m=None
        for (p,k,txt) in known:
            if p==pid and (v['key']==k or (k.endswith('*') and v['key'].startswith(k[:-1]))): m=(k,txt); break
        if m: hits.setdefault(m,0); hits[m]+=1
        else: new.append(v)
    for (k,txt),n in sorted(hits.items()): print('KNOWN-FINDING: property=%s %s (%d explored inputs)'%(pid,txt,n))
    rp=None
    if new:
        rd=os.path.join(BUILD,'replays'); os.makedirs(rd,exist_ok=True); rp=os.path.join(rd,pid+'.json')
        json.dump(dict(property=pid,tier=tier,violations=new[:50]),open(rp,'w'),indent=1)
    wall=time.time()-t0
    cov=dict(states=tot['st'],transitions=tot['ev'],traces_validated_against_impl=tot['pts'],distinct_outcomes=tot['cov'],
        exhaustive=not capped, samples=samples[:12] or [s['space'] for s in spaces[:3]],
        spaces=spaces, spaces_incomplete=capped, build_s=round(tb,1), programs_built=len(units))
    if tot['ref']: cov['reference_model_vs_second_model']=tot['ref']
    json.dump(dict(property=pid,tier=tier,seed=int(os.environ.get('VERIF_SEED','1') or 1),level=chk['level'],coverage=cov,
        assumptions=chk.get('assumptions',[]),wall_s=round(wall,2),violations=len(new)),open(os.path.join(V,'evidence',pid+'.json'),'w'),indent=1)
    print('%s %s: %d spaces, states=%d transitions=%d paths=%d outcomes=%d reference-validations=%d %s build=%.1fs wall=%.1fs'%(pid,tier,len(spaces),tot['st'],tot['ev'],tot['pts'],tot['cov'],tot['ref'],
        'exhaustive within bounds' if not capped else 'CAPPED, not exhaustive: %s'%'; '.join(capped[:5]),tb,wall))
    for l in notrep[:5]: print('not reproduced, not reported: '+l[:300])
    if new:
        for v in new[:5]: print('  %s | %s'%(v['key'],v['detail'][:400]))
        print('VIOLATION property=%s replay=%s'%(pid,rp)); return 1
    return 2 if broken else 0

def replay(path):
    d=json.load(open(path)); pid=d['property']; bad=0
    units={u['name']:u for u in checks.CHECKS[pid]['units'](d['tier'])}
    for v in d['violations'][:10]:
        if 'accept' in units[v['unit']]:
            b=v['key'] in [x['key'] for x in programs(units[v['unit']])[0]]; print('%s: %s'%(v['key'],'reproduced: '+v['detail'] if b else 'does not fail now')); bad|=b; continue
        if v['space']=='compile':
            b=v['point'] in without_uncompilable(units[v['unit']])[1]; print('%s: %s'%(v['key'],'reproduced: '+v['detail'] if b else 'does not fail now')); bad|=b; continue
        exe,err=build(units[v['unit']])
        if not exe:
            r,_=without_uncompilable(units[v['unit']])
            if r: exe,err=build(r)
        if not exe: print(err); return 2
        r=subprocess.run([exe,'--replay',v['space'],v['point'],'--key',v['key']]+(['--thorough'] if d['tier']=='thorough' else []),stdout=subprocess.PIPE,stderr=subprocess.DEVNULL)
        print('%s: %s'%(v['key'],'reproduced: '+v['detail'] if r.returncode==1 else 'does not fail now')); bad|= r.returncode==1
    return 1 if bad else 0

if __name__=='__main__':
    if sys.argv[1]=='--replay': sys.exit(replay(sys.argv[2]))
    if sys.argv[1]=='--list': print('\n'.join(checks.CHECKS)); sys.exit(0)
    sys.exit(run(sys.argv[1],sys.argv[2] if len(sys.argv)>2 else 'quick'))
