#!/usr/bin/env python3
"""Development tool: mutrun.py tests MUTANTS OUT | mutrun.py sim SURVIVORS OUT SCALE
Measures which small source changes the repository's tests and the checks notice. No check uses it."""
import json, os, subprocess, sys, threading, queue, shutil
ENV = dict(os.environ)
for l in subprocess.check_output(['bash','-c','. /verif/env.sh; env'],text=True).splitlines():
    if '=' in l:
        k,v=l.split('=',1); ENV[k]=v
BASE=os.environ.get('MUTBASE','/repo')
N=int(os.environ.get('MUTW','8'))
def apply(m, d):
    src=open(BASE+'/'+m['file'],'rb').read()
    new=src[:m['off']]+m['text'].encode()+src[m['end']:]
    open(f"{d}/{m['file']}",'wb').write(new)
def restore(m,d): shutil.copy(BASE+'/'+m['file'], f"{d}/{m['file']}")
def run(cmd,cwd,t,env=ENV):
    try:
        p=subprocess.run(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
        return p.returncode,p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 124,''
def worker(i,q,out,lock,mode,extra):
    d=f'/tmp/mut/w{i}'
    subprocess.run(['rm','-rf',d]); subprocess.run(['cp','-a',BASE,d])
    e=dict(ENV); e['GOMAXPROCS']='2'
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        apply(m,d)
        try:
            if mode=='tests':
                rc,o=run(['go','build','./...'],d,120,e)
                if rc: m['res']='nobuild'
                else:
                    rc,o=run(['go','test','-tags','debug','-vet=off','-failfast','-count=1','-timeout','60s','./...'],d,150,e)
                    m['res']='killed' if rc else 'survived'
                    if not rc:
                        rc,o=run(['go','test','-race','-tags','debug','-vet=off','-failfast','-count=1','-timeout','100s','./...'],d,250,e)
                        m['res']='killed' if rc else 'survived'
            else:
                e2=dict(e); e2['VERIF_SRC']=d; e2['VERIF_BUILD']=f'/tmp/mut/b{i}'
                rc,o=run(['/verif/build.sh','race'],'/verif',300,e2)
                if rc: m['sim']={'build':o[-300:]}
                else:
                    m['sim']={}
                    e2['GODEBUG']='clobberfree=1'; e2['GOMAXPROCS']='1'
                    for p,n in extra:
                        if any('timeout 124' not in x for x in m['sim'].values()): break
                        b='simrun_race' if p.endswith('r') else 'simrun'
                        rc,o=run([f'/tmp/mut/b{i}/{b}','work','-prop',p[:3],'-seed','77','-n',str(n)],'/tmp',60,e2)
                        v=[l for l in o.splitlines() if l.startswith('V ')]
                        if v: m['sim'][p]=json.loads(v[0][2:])['violation']['class']
                        elif rc: m['sim'][p]='crash/timeout %d'%rc+(' harness' if 'panic: harness' in o else '')
        finally: restore(m,d)
        with lock:
            out.write(json.dumps(m)+'\n'); out.flush()
def main():
    mode,inp,outp=sys.argv[1:4]
    ms=[json.loads(l) for l in open(inp)]
    if mode=='sim': ms=[m for m in ms if m.get('res','survived')=='survived']
    done=set()
    if os.path.exists(outp): done={json.loads(l)['id'] for l in open(outp)}
    q=queue.Queue()
    for m in ms:
        if m['id'] not in done: q.put(m)
    S=float(sys.argv[4]) if len(sys.argv)>4 else 1
    extra=[(p,int(n*S)) for p,n in [('C01',6000),('C02',6000),('C03',4000),('C04',5000),('C05',2500),('C06',2500),('C07',3000),('C08',2500),('C09',2500),('C10',2500),('C11',300),('C12',5000),('C13',2500),('C14',60),('C06r',200)]]
    os.makedirs('/tmp/mut',exist_ok=True)
    out=open(outp,'a'); lock=threading.Lock()
    ts=[threading.Thread(target=worker,args=(i,q,out,lock,mode,extra)) for i in range(N)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
