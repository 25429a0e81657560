#!/usr/bin/env python3
"""Mutation campaign: small random changes of library files in scratch copies of /repo, judged by the checks.
usage: mutate.py OUT.jsonl SEED WORKERS PER_FILE FILE:PROP,PROP,... ...
Survivors are candidates for blind spots (or equivalent changes); nothing here is used by the checks."""
import sys,os,re,random,subprocess,json,hashlib,threading,queue,shutil
OUT,SEED,NW,PER=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),int(sys.argv[4]); specs=[a.split(':') for a in sys.argv[5:]]
V=os.environ.get('MV','/verif'); BASE='/tmp/mut'
RUNS=os.environ.get('RUNS','2500'); SECS=os.environ.get('SECS','25'); JOBS=os.environ.get('JOBS','3')
SKIP=re.compile(r'^\s*(//|\*|/\*|#|printf|fprintf|assert|DEBUG_ASSERT|ERROR|WARN|INFO|DEBUG|VERBOSE|VVERBOSE|static_assert|snprintf\(cache->cache_name|"|return;|case |break;|goto |\}|\{)')
OPS=[(r'(?<![<>=!\-+*/&|])<(?![<=])','<='),(r'<=','<'),(r'(?<![<>=!\-])>(?![>=])','>='),(r'>=','>'),(r'==','!='),(r'!=','=='),(r' \+ ',' - '),(r' - ',' + '),(r'\+=','-='),(r'-=','+='),(r'\+\+','--'),(r'--','++'),(r'&&','||'),(r'\|\|','&&'),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\b1\b','2'),(r'\b0\b','1'),(r'\b1\b','0'),(r'\bif \((.*)\) \{$',r'if (!(\1)) {'),(r'\bif \((.*)\) \{$',r'if (1) {'),(r'\bif \((.*)\) \{$',r'if (0) {'),(r' % ',' / '),(r' \* ',' / '),(r' / ',' * '),(r'->prev\b','->next'),(r'->next\b','->prev'),(r'head','tail'),(r'tail','head'),(r'\bcontinue;','break;'),(r'\bMAX\(','MIN('),(r'\bMIN\(','MAX(')]
DEL=re.compile(r'^\s*[\w\->\.\[\]\(\)\*:]+\s*(=|\+=|-=|\+\+|--|\().*;\s*$')
def cands(path):
    L=open(path).read().split('\n'); out=[]; infun=0; blk=False
    for i,l in enumerate(L):
        if '/*' in l and '*/' not in l: blk=True
        if blk:
            if '*/' in l: blk=False
            continue
        if SKIP.match(l) or not l.startswith(' ') or '::' in l and 'std' in l: continue
        code=l.split('//')[0]
        if '"' in code: continue
        for a,b in OPS:
            for m in re.finditer(a,code):
                n=code[:m.start()]+m.expand(b)+code[m.end():]
                if n!=code: out.append((i,l,n))
        if DEL.match(code) and not re.match(r'^\s*(return|const|int|long|double|float|bool|char|auto|uint\w+|int\w+|size_t|\w+_t)\b[ \*]+\w',code): out.append((i,l,'/*deleted*/;'))
    return out
def sh(c,t=900,env=None):
    e=dict(os.environ); e.update(env or {})
    try: p=subprocess.run(c,shell=True,capture_output=True,text=True,timeout=t,env=e,errors='replace'); return p.returncode,p.stdout+p.stderr
    except subprocess.TimeoutExpired: return 124,'timeout'
q=queue.Queue(); rng=random.Random(SEED)
for f,props in specs:
    c=cands('/repo/'+f); seen=set(); rng.shuffle(c); n=0
    for m in c:
        if (m[0],m[2]) in seen: continue
        seen.add((m[0],m[2])); q.put((f,props.split(','),m)); n+=1
        if n>=PER: break
items=list(q.queue); rng.shuffle(items); q=queue.Queue(); [q.put(x) for x in items]
lock=threading.Lock(); done=0; total=len(items)
def worker(k):
    global done
    W=f'{BASE}/w{k}'; R=W+'/repo'; B=W+'/b'
    if not os.path.isdir(R): os.makedirs(W,exist_ok=True); sh(f'git clone -q /repo {R}')
    sh(f'cd {R} && git checkout -q . && git fetch -q && git reset -q --hard origin/HEAD')
    rc,o=sh(f'cd {V} && ./build.sh {R} {B}')
    if rc: print('clean build failed',o[:500]); return
    while True:
        try: f,props,(i,old,new)=q.get_nowait()
        except queue.Empty: return
        p=R+'/'+f; s=open(p).read(); L=s.split('\n'); L[i]=new; open(p,'w').write('\n'.join(L))
        ref=sh(f"cd {B}/lib && find . -name '{os.path.basename(f)}.o' | head -1")[1].strip()
        def md():
            try: return hashlib.md5(subprocess.run(['objcopy','-O','binary','--only-section=.text*',f'{B}/lib/{ref}','/dev/stdout'],capture_output=True).stdout+open(f'{B}/lib/{ref}','rb').read()).hexdigest()
            except Exception: return 'x'
        h0=md() if ref else None
        rc,o=sh(f'cd {V} && ./build.sh {R} {B}'); res=None
        if rc: res='nobuild'
        elif ref and md()==h0: res='equal'
        else:
            for pr in props:
                sh(f'mkdir -p {W}/v/out {W}/v/evidence; cp {V}/known_findings.txt {W}/v/')
                rc,o=sh(f'{B}/dst run {pr} --tier quick --seed 1 --runs {RUNS} --secs {SECS} --jobs {JOBS}',env={'DST_VERIF':W+'/v'},t=300)
                if rc==1: res='caught '+pr; break
                if rc!=0: res=f'error {pr} rc={rc} '+o[-300:]; break
        if res is None: res='SURVIVED'
        open(p,'w').write(s)
        with lock:
            done+=1
            open(OUT,'a').write(json.dumps({'f':f,'line':i+1,'old':old.strip(),'new':new.strip(),'res':res})+'\n')
            if done%20==0: print(done,'/',total,flush=True)
T=[threading.Thread(target=worker,args=(k,)) for k in range(NW)]
[t.start() for t in T]; [t.join() for t in T]
