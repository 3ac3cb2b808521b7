#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay FILE] [--only SUBSTR] [-v]"""
import sys,os,json,subprocess,time
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,V)
import build
from run_map import H
def main():
    a=sys.argv[1:]; pid=a.pop(0)
    tier=os.environ.get('VERIF_TIER','quick'); extra=[]
    while a:
        x=a.pop(0)
        if x=='--tier': tier=a.pop(0)
        elif x=='--replay':
            f=a.pop(0); d=json.load(open(f)); tier=d.get('tier',tier); extra+=['--replay',d['key'],'-v']
        else: extra.append(x)
    src,groups=H[pid]
    os.makedirs(V+'/evidence',exist_ok=True); os.makedirs(V+'/replays',exist_ok=True)
    t=time.time()
    try: exe=build.build(src,groups)
    except build.BuildError as e: print('BUILD-FAILED',e); sys.exit(2)
    print('build %.1fs'%(time.time()-t),flush=True)
    env=dict(os.environ,OMP_NUM_THREADS='1')
    ev=[] if '--replay' in extra or '--only' in extra else ['--evidence',V+'/evidence/%s.json'%pid]
    r=subprocess.run([exe,'--id',pid,'--tier',tier,'--known',V+'/known_findings.txt','--outdir',V+'/replays',
        '--jobs',str(os.cpu_count() or 8)]+ev+extra,env=env)
    sys.exit(r.returncode)
main()
