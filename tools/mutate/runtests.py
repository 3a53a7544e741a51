import json,os,subprocess,sys,shutil
from multiprocessing import Pool
M=json.load(open('/tmp/mut/mutants.json'))
RES='/tmp/mut/tests.jsonl'
done=set()
if os.path.exists(RES):
    done={json.loads(l)['i'] for l in open(RES)}
def one(i):
    m=M[i]
    if m['rep'] is None: return i,98
    wid=os.getpid()
    d='/tmp/mut/w%d'%wid
    if not os.path.exists(d): subprocess.check_call(['cp','-a','/tmp/mut/base',d])
    p='%s/warcio/%s.py'%(d,m['file']); o=open('/repo/warcio/%s.py'%m['file'],'rb').read()
    open(p,'wb').write(o[:m['a']]+m['rep'].encode()+o[m['b']:])
    env=dict(os.environ,TZ='UTC',PYTHONDONTWRITEBYTECODE='1',PYTHONPATH=d,AWS_EC2_METADATA_DISABLED='true')
    try:
        r=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-x','-p','no:cacheprovider','--no-cov','--timeout=30','--deselect','test/test_s3.py','--deselect','test/test_capture_http.py::TestCaptureHttpBin::test_post_chunked','--deselect','test/test_capture_http.py::TestCaptureHttpBin::test_remote'],cwd=d,env=env,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,timeout=180)
        rc=r.returncode
    except subprocess.TimeoutExpired: rc=99
    open(p,'wb').write(o)
    return i,rc
if __name__=='__main__':
    todo=[i for i in range(len(M)) if i not in done]
    with Pool(int(sys.argv[1])) as P, open(RES,'a') as f:
        for i,rc in P.imap_unordered(one,todo):
            f.write(json.dumps(dict(i=i,rc=rc))+'\n'); f.flush()
