#!/usr/bin/env python3
"""Sensitivity campaign: small mutations of /repo's sources, in scratch copies, run against the checks.

  mutate.py list                         number of candidate mutations
  mutate.py run LANES PERCENT OUT.jsonl [RUNS]  try a sample of them

Every mutation that compiles and passes /repo's own tests is run against the checks, in an order that
starts with the cheap ones, until one reports a violation. Survivors are for a person to read."""
import os, re, sys, json, random, subprocess, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
SRC='/repo/src'
CHECKS=['C12','C07','C06','C03','C02','C15','C14','C11','C05','C10','C08','C09','C13','C01','C04','C18','C16','C17']
def body(text):
    """line numbers outside doc comments and test modules"""
    out=[];lines=text.split('\n')
    for i,l in enumerate(lines):
        if '#[cfg(test)]' in l: break
        if l.strip().startswith('//'): continue
        out.append(i)
    return out
RULES=[(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),
 (r' \+ ',' - '),(r' - ',' + '),(r' && ',' || '),(r' \|\| ',' && '),(r' & ',' | '),(r' \| ',' & '),(r' << ',' >> '),(r' >> ',' << '),
 (r' % ',' / '),(r' \^ ',' | '),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'if !','if '),(r'(\s|\()!self',r'\1self'),
 (r'\bOk\(0\)','Ok(1)'),(r'\bSome\(',None),(r'\.take\(\)','.clone()'),(r'to_be_bytes','to_le_bytes'),(r'add_for_decoding','add_for_encoding'),
 (r'Finite\(0\)','Unknown'),(r'\.is_required','.is_none'),(r'from_be','from_le'),(r'V4','V6'),(r'V6','V4'),(r'Ipv4','Ipv6')]
def mutations():
    out=[]
    for d,_,fs in os.walk(SRC):
        for f in sorted(fs):
            if not f.endswith('.rs'): continue
            p=os.path.join(d,f);t=open(p).read();L=t.split('\n')
            for i in body(t):
                l=L[i]
                code=l.split('//')[0]
                if not code.strip() or code.strip().startswith('use ') or code.strip().startswith('#['): continue
                for a,b in RULES:
                    if b is None: continue
                    for m in re.finditer(a,code):
                        n=code[:m.start()]+re.sub(a,b,m.group(0))+code[m.end():]
                        if n!=code: out.append((p,i,n))
                for m in re.finditer(r'\b(0x[0-9a-fA-F_]+|0b[01_]+|\d+)\b',code):
                    s=m.group(0).replace('_','')
                    try: v=int(s,0)
                    except ValueError: continue
                    for w in {v+1,max(v-1,0)}-{v}:
                        if v>255 and w==v+1: continue
                        out.append((p,i,code[:m.start()]+(hex(w) if s.startswith('0x') else bin(w) if s.startswith('0b') else str(w))+code[m.end():]))
                s=code.strip()
                if re.match(r'^(track!|bytecodec_try|track_assert|self\.|\*self|offset|let _)',s) and s.endswith(';'):
                    out.append((p,i,'();'))
                if re.match(r'^\s*(\+|&&|\|\|) .*$',code) and not s.endswith('{'):
                    out.append((p,i,''+(';' if s.endswith(';') else '')))
    seen=set();r=[]
    for m in out:
        k=(m[0],m[1],m[2])
        if k not in seen: seen.add(k);r.append(m)
    return r
def sh(cmd,cwd,env,timeout):
    try:
        p=subprocess.Popen(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,start_new_session=True)
        o,_=p.communicate(timeout=timeout)
        return p.returncode,o
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid,9)
        except OSError: pass
        p.wait()
        return -1,'timeout'
class Lane:
    def __init__(s,k):
        s.d=f'/tmp/mut/{k}'
        shutil.rmtree(s.d,ignore_errors=True);os.makedirs(s.d)
        subprocess.run(['rsync','-a','--exclude','target','--exclude','.git','/repo/',s.d+'/repo/'],check=False) if shutil.which('rsync') else shutil.copytree('/repo',s.d+'/repo',ignore=shutil.ignore_patterns('target','.git'))
        os.makedirs(s.d+'/verif/target');shutil.copytree('/verif/sim',s.d+'/verif/sim');shutil.copy('/verif/KNOWN_FINDINGS.txt',s.d+'/verif/')
        c=open(s.d+'/verif/sim/Cargo.toml').read().replace('path = "/repo"',f'path = "{s.d}/repo"').replace('debug = 1','debug = 0')
        open(s.d+'/verif/sim/Cargo.toml','w').write(c)
        s.env=dict(os.environ,CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='1',VERIF_FAST='1',VERIF_CAP='100')
        s.build()
    def tests(s): return sh(['cargo','test','--offline','--lib','--','--test-threads','4'],s.d+'/repo',s.env,120)
    def build(s):
        e=dict(s.env,CARGO_TARGET_DIR=s.d+'/verif/target')
        return sh(['cargo','build','--release','--offline','-j','3','--manifest-path','sim/Cargo.toml'],s.d+'/verif',e,600)
    def run(s,m,runs):
        p,i,n=m;q=s.d+'/repo'+p[len('/repo'):]
        t=open(p).read();L=t.split('\n');old=L[i];L[i]=n
        try:
            open(q,'w').write('\n'.join(L))
            rc,o=s.tests()
            if rc!=0: return 'nocompile' if 'could not compile' in o else 'tests',''
            rc,o=s.build()
            if rc!=0: return 'simbuild',o[-400:]
            e=dict(s.env,VERIF_RUNS=str(runs))
            bad=''
            for c in CHECKS:
                e['VERIF_RUNS']=str(max(runs//4,1) if c in('C17','C01','C04','C16') else runs)
                rc,o=sh([s.d+'/verif/target/release/stunsim','check',c,'quick'],s.d+'/verif',e,200)
                if rc==1 and 'VIOLATION' in o:
                    w=[x for x in o.split('\n') if 'violates' in x or 'fixed scenario' in x]
                    return 'caught',c+' '+(w[0][:250] if w else '')
                if rc!=0: bad+=f'{c}:rc{rc} {o[-200:]}'
            return 'SURVIVED',bad
        finally:
            open(q,'w').write(t)
def main():
    M=mutations()
    if sys.argv[1]=='list': print(len(M));return
    lanes=int(sys.argv[2]);pct=float(sys.argv[3]);out=sys.argv[4];runs=int(sys.argv[5]) if len(sys.argv)>5 else 8000
    done=set()
    if os.path.exists(out):
        for l in open(out): j=json.loads(l);done.add((j['file'],j['line'],j['new']))
    rnd=random.Random(5)
    S=[m for m in M if rnd.random()*100<pct and (m[0],m[1],m[2]) not in done]
    rnd.shuffle(S)
    q=Queue()
    for k in range(lanes): q.put(k)
    pool={}
    f=open(out,'a')
    def one(m):
        k=q.get()
        try:
            if k not in pool: pool[k]=Lane(k)
            r,w=pool[k].run(m,runs)
            f.write(json.dumps(dict(file=m[0],line=m[1],old=open(m[0]).read().split('\n')[m[1]],new=m[2],result=r,why=w))+'\n');f.flush()
        finally: q.put(k)
    with ThreadPoolExecutor(lanes) as ex: list(ex.map(one,S))
main()
