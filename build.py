#!/usr/bin/env python3
"""Builds the gsKLShell module from /repo's current working tree, plus the checkers.

Objects are cached under /verif/build by the *content* of every file of /repo
and /verif they were compiled from (taken from the compiler's dependency
output), never by time stamps. The G+Smo core (not part of /repo) is taken from
/repo/_build/lib when present, otherwise it is built into /verif/build/core."""
import os,sys,hashlib,subprocess,glob,json,fcntl
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.abspath(__file__)); R='/repo'; B=V+'/build'; DEV=[]
if os.environ.get('GSKL_DEV'): # development only: check a scratch copy D/gsKLShell, built in D/build
    D=os.environ['GSKL_DEV']; R=D+'/gsKLShell'; B=D+'/build'; DEV=['-I'+D]
CORE='/opt/gismo-core'
class BuildError(Exception): pass
def die(m): raise BuildError(m)
def core_dir():
    b='/repo/_build'
    if os.path.exists(b+'/lib/libgismo.so') and os.path.exists(b+'/gsCore/gsConfig.h'): return b
    c=B+'/core'
    if not os.path.exists(c+'/lib/libgismo.so'):
        env=dict(os.environ,CC='gcc',CXX='g++')
        subprocess.check_call(['cmake','-S',CORE,'-B',c,'-G','Ninja','-DCMAKE_BUILD_TYPE=RelWithDebInfo','-DCMAKE_C_COMPILER=gcc','-DCMAKE_CXX_COMPILER=g++',
          '-DCMAKE_CXX_STANDARD=11','-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2','-DTARGET_ARCHITECTURE=generic','-DGISMO_OPTIONAL=gsKLShell',
          '-DGISMO_BUILD_EXAMPLES=OFF','-DGISMO_BUILD_UNITTESTS=OFF','-DNOSNIPPETS=ON'],env=env,stdout=subprocess.DEVNULL)
        subprocess.check_call(['ninja','-C',c,'gismo'],stdout=subprocess.DEVNULL)
    return c
def flags(core,std):
    return DEV+['-DgsKLShell_DATA="/opt/gismo-core/optional/gsKLShell/filedata/"','-I'+CORE+'/src','-I'+CORE+'/external','-I'+core,'-I'+CORE+'/optional','-I'+V+'/src',
            '-w','-O2','-std='+std,'-fPIC']
def h(path):
    try: return hashlib.sha256(open(path,'rb').read()).hexdigest()
    except OSError: return None
def compile(src,core,std='c++11',defs=(),omp=False):
    tag=src.replace('/','_').strip('_')+''.join('_'+d.replace('=','-') for d in defs)+('_omp' if omp else '')
    obj=B+'/obj/'+tag+'.o'; meta=obj+'.json'; dep=obj+'.d'
    fl=flags(core,std)+['-D'+d for d in defs]+(['-fopenmp'] if omp else [])
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m=json.load(open(meta))
            if m['flags']==fl and all(h(f)==x for f,x in m['deps'].items()): return obj,False
        except Exception: pass
    for f in (obj,meta):
        if os.path.exists(f): os.unlink(f)
    r=subprocess.run(['g++']+fl+['-MD','-MF',dep,'-c',src,'-o',obj],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: die('compilation of %s failed:\n%s'%(src,r.stdout[-4000:]))
    toks=open(dep).read().replace('\\\n',' ').split()[1:]
    deps={}
    for t in set(toks):
        rp=os.path.realpath(t)
        if rp.startswith(R+'/') or rp.startswith(V+'/'):
            if not rp.startswith(R+'/_build'): deps[rp]=h(rp)
    json.dump({'flags':fl,'deps':deps},open(meta,'w'))
    return obj,True
ASM={'gsThinShellAssembler_.cpp':'asm','gsThinShellAssemblerDWR_.cpp':'dwr'}
def sources(groups):
    return [(f,'c++11',()) for f in sorted(glob.glob(R+'/src/*_.cpp')) if ASM.get(os.path.basename(f),'mat') in groups]
def build(name,groups,defs=()):
    os.makedirs(B+'/obj',exist_ok=True); os.makedirs(B+'/bin',exist_ok=True)
    lk=open(B+'/lock','w'); fcntl.flock(lk,fcntl.LOCK_EX)
    try:
        core=core_dir(); omp='omp' in groups # the module compiled for parallel evaluation
        jobs=[(V+'/src/'+name+'.cpp','c++14',tuple(defs))]+sources(groups)
        # slowest first
        jobs.sort(key=lambda j: -(3 if 'ThinShell' in j[0] else 2 if j[0].endswith(name+'.cpp') else 1))
        with ThreadPoolExecutor(8) as ex:
            res=list(ex.map(lambda j: compile(j[0],core,j[1],j[2],omp),jobs))
        exe=B+'/bin/'+name
        # the objects the program was linked from, by content: an interrupted build cannot leave an older program in place
        sig=hashlib.sha256(' '.join(sorted(o+':'+h(o) for o,_ in res)).encode()).hexdigest()
        try: old=open(exe+'.sig').read()
        except OSError: old=None
        if old!=sig or not os.path.exists(exe):
            lib=core+'/lib'
            cmd=['g++','-o',exe+'.tmp']+[o for o,_ in res]+['-L'+lib,'-lgismo','-Wl,-rpath,'+lib,'-lz','-lpthread']+(['-fopenmp'] if omp else [])
            r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            if r.returncode: die('link failed:\n'+r.stdout[-4000:])
            # every module symbol must come from the objects just compiled, never from a prebuilt library
            u=subprocess.run(['nm','-D','-u','-C',exe+'.tmp'],stdout=subprocess.PIPE,text=True).stdout
            stale=[l for l in u.splitlines() if any(k in l for k in ('gismo::gsThinShell','gismo::gsMaterialMatrix','gismo::gsShellStress','gismo::gsFunctionSum'))]
            if stale: die('module symbols not built from source:\n'+'\n'.join(stale[:10]))
            os.rename(exe+'.tmp',exe); open(exe+'.sig','w').write(sig)
        return exe
    finally:
        fcntl.flock(lk,fcntl.LOCK_UN)
if __name__=='__main__':
    print(build(sys.argv[1],sys.argv[2:]))
