import ast, sys, os, json, copy
# paths below are those of a scratch directory /tmp/mut
SRC='/repo/warcio'
files=['archiveiterator','bufferedreaders','capture_http','checker','cli','digestverifyingreader','extractor','indexer','limitreader','recompressor','recordbuilder','recordloader','statusandheaders','timeutils','utils','warcwriter']
out=[]
class Seg:
    def __init__(s,src):
        s.src=src; s.lines=src.splitlines(True); s.b=src.encode()
        s.off=[0]
        for l in s.lines: s.off.append(s.off[-1]+len(l.encode()))
    def span(s,n): return s.off[n.lineno-1]+n.col_offset, s.off[n.end_lineno-1]+n.end_col_offset
    def text(s,n): a,b=s.span(n); return s.b[a:b].decode()
    def rep(s,a,b,new): return (s.b[:a]+new.encode()+s.b[b:]).decode()
for f in files:
    p=os.path.join(SRC,f+'.py'); src=open(p).read(); S=Seg(src); tree=ast.parse(src)
    seen=set()
    def add(n,new,desc,span=None):
        a,b=span or S.span(n)
        m=S.rep(a,b,new)
        if m==src or m in seen: return
        try: compile(m,p,'exec')
        except Exception: return
        seen.add(m)
        out.append(dict(file=f,line=n.lineno,desc=desc,old=S.b[a:b].decode()[:80],new=new[:80],a=a,b=b,rep=new))
    for n in ast.walk(tree):
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            l,r=S.text(n.left),S.text(n.comparators[0]); o=type(n.ops[0])
            alt={ast.Lt:['<=','>='],ast.LtE:['<','>'],ast.Gt:['>=','<='],ast.GtE:['>','<'],ast.Eq:['!='],ast.NotEq:['=='],ast.Is:['is not'],ast.IsNot:['is'],ast.In:['not in'],ast.NotIn:['in']}[o]
            for x in alt: add(n,'(%s %s %s)'%(l,x,r),'cmp')
        elif isinstance(n,ast.BoolOp):
            x='or' if isinstance(n.op,ast.And) else 'and'
            add(n,'('+(' %s '%x).join('(%s)'%S.text(v) for v in n.values)+')','bool')
            for i in range(len(n.values)):
                rest=[S.text(v) for j,v in enumerate(n.values) if j!=i]
                add(n,'('+(' and ' if isinstance(n.op,ast.And) else ' or ').join(rest)+')','drop%d'%i)
        elif isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not):
            add(n,'('+S.text(n.operand)+')','not')
        elif isinstance(n,(ast.If,ast.While,ast.IfExp)):
            t=n.test
            for x in ('True','False'):
                if isinstance(n,ast.While) and x=='True': continue
                add(t,x,'cond')
            add(t,'(not (%s))'%S.text(t),'negcond')
        elif isinstance(n,ast.Constant) and isinstance(n.value,int) and not isinstance(n.value,bool):
            add(n,str(n.value+1),'const'); 
            if n.value>0: add(n,str(n.value-1),'const')
        elif isinstance(n,ast.Constant) and isinstance(n.value,bool):
            add(n,str(not n.value),'const')
        elif isinstance(n,ast.Constant) and isinstance(n.value,(str,bytes)) and n.value and len(n.value)<40 and n.lineno==n.end_lineno:
            v=n.value
            add(n,repr(v[:-1] if len(v)>1 else v[:0]),'str')
            if isinstance(v,str) and v.lower()!=v: add(n,repr(v.lower()),'strlow')
        elif isinstance(n,ast.BinOp):
            alt={ast.Add:'-',ast.Sub:'+',ast.Mult:'+'}.get(type(n.op))
            if alt: add(n,'(%s %s %s)'%(S.text(n.left),alt,S.text(n.right)),'bin')
            if isinstance(n.op,(ast.Add,ast.Sub)): add(n,'(%s)'%S.text(n.left),'bindrop')
        elif isinstance(n,ast.AugAssign):
            alt={ast.Add:'-=',ast.Sub:'+='}.get(type(n.op))
            if alt: add(n,'%s %s %s'%(S.text(n.target),alt,S.text(n.value)),'aug')
            add(n,'%s = %s'%(S.text(n.target),S.text(n.value)),'augset')
        elif isinstance(n,ast.Call):
            fn=S.text(n.func)
            if fn=='min': add(n.func,'max','minmax')
            if fn=='max': add(n.func,'min','minmax')
            if isinstance(n.func,ast.Attribute) and n.func.attr in ('lower','upper','strip','rstrip','lstrip'):
                add(n,S.text(n.func.value),'dropcall')
            if isinstance(n.func,ast.Attribute) and n.func.attr=='rsplit': add(n,S.text(n.func.value)+'.split'+S.text(n)[len(fn):],'rsplit')
            if isinstance(n.func,ast.Attribute) and n.func.attr=='split': add(n,S.text(n.func.value)+'.rsplit'+S.text(n)[len(fn):],'split')
            if isinstance(n.func,ast.Attribute) and n.func.attr=='rstrip': add(n,S.text(n.func.value)+'.strip'+S.text(n)[len(fn):],'rstrip')
            for k in n.keywords:
                a=S.span(k)[0]; b=S.span(k)[1]
                # drop keyword
                t=S.b[:a].decode().rstrip()
                if t.endswith(','):
                    a2=len(t[:-1].encode())
                    add(n,'','dropkw',(a2,b))
        elif isinstance(n,ast.Slice):
            pass
        elif isinstance(n,(ast.Expr,ast.Assign,ast.AugAssign,ast.Delete,ast.Raise,ast.Break,ast.Continue)) :
            pass
        if isinstance(n,(ast.Expr,ast.Assign,ast.AugAssign,ast.Delete,ast.Raise,ast.Break,ast.Continue,ast.Return)):
            if isinstance(n,ast.Expr) and isinstance(n.value,(ast.Constant,ast.Yield)): continue
            add(n,'pass','del')
        if isinstance(n,ast.Return) and n.value is not None and not isinstance(n.value,ast.Constant):
            add(n.value,'None','retnone')
json.dump(out,open('/tmp/mut/mutants.json','w'))
import collections
print(len(out),collections.Counter(m['file'] for m in out))
