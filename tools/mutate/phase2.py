import json,os,subprocess,sys
from multiprocessing import Pool
M=json.load(open('/tmp/mut/mutants2.json'))
A={'archiveiterator':'C01 C03','bufferedreaders':'C10 C09 C01','capture_http':'C19 C25','recordloader':'C01 C16','recordbuilder':'C26 C06','digestverifyingreader':'C07',
'recompressor':'C15','statusandheaders':'C12 C13 C14','utils':'C07 C06 C25','checker':'C07','warcwriter':'C04 C05','cli':'C17 C18','timeutils':'C23','limitreader':'C08','indexer':'C17','extractor':'C18'}
RES=sys.argv[1]; JOBS=sys.argv[3]
def one(a):
    i,checks=a
    m=M[i]
    d='/tmp/mut/x%d'%os.getpid()
    if not os.path.exists(d): subprocess.check_call(['cp','-a','/tmp/mut/base2',d])
    p='%s/warcio/%s.py'%(d,m['file']); o=open('/tmp/mut/base2/warcio/%s.py'%m['file'],'rb').read()
    open(p,'wb').write(o[:m['a']]+m['rep'].encode()+o[m['b']:])
    env=dict(os.environ,VERIF_REPO=d,VERIF_JOBS=JOBS,PYTHONDONTWRITEBYTECODE='1')
    killed=None; log=[]
    for c in checks.split():
        try:
            r=subprocess.run(['./check',c,'quick'],cwd='/tmp/mut/verif2',env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=900).returncode
        except subprocess.TimeoutExpired: r=99
        log.append((c,r))
        if r==1: killed=c; break
    open(p,'wb').write(o)
    return i,killed,log
if __name__=='__main__':
    done=set()
    if os.path.exists(RES): done={json.loads(l)['i'] for l in open(RES)}
    if len(sys.argv)>4: todo=[tuple(x) for x in json.load(open(sys.argv[4]))]
    else:
        R={}
        for l in open('/tmp/mut/tests.jsonl'):
            d=json.loads(l); R[d['i']]=d['rc']
        todo=[(i,A[M[i]['file']]) for i in sorted(R) if R[i]==0 and M[i]['rep'] is not None]
    todo=[t for t in todo if t[0] not in done]
    with Pool(int(sys.argv[2])) as P, open(RES,'a') as f:
        for i,k,log in P.imap_unordered(one,todo):
            f.write(json.dumps(dict(i=i,k=k,log=log))+'\n'); f.flush()
