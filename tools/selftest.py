"""engine self-test: small programs, claims that random runs refute; the engine must prove none of them.
usage: python3-vt tools/selftest.py   (not part of the registered checks)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc.session import *
import shutil, tempfile, atexit, numpy as np
D = tempfile.mkdtemp()
atexit.register(shutil.rmtree, D)
os.makedirs(D + '/pymcmcstat')
open(D + '/pymcmcstat/__init__.py', 'w').close()
BODY={
'nested_def_rebind':'''
    a = 0.
    def g():
        return a
    a = 2.
    m[:] = g()
''',
'while_break':'''
    k = 0
    while k < len(x):
        if x[k, 0] < 0:
            break
        k += 1
    m[:] = k
''',
'while_else':'''
    k = 0
    while k < len(x):
        if x[k, 0] < 0:
            break
        k += 1
    else:
        k = -1
    m[:] = k
''',
'continue_skip':'''
    for j in range(p):
        if x[0, j] > 1:
            continue
        m[j] = 1
''',
'inner_accum':'''
    for j in range(p):
        s = 0
        for i in range(len(x)):
            if x[i, j] > 0:
                s += 1
        m[j] = s
''',
'carry':'''
    s = 0
    for j in range(p):
        for i in range(len(x)):
            if x[i, j] < 0:
                s += 1
        m[j] = s
''',
'flag':'''
    f = False
    for i in range(len(x)):
        f = f or x[i, 0] < 0
    m[:] = 1 if f else 0
''',
'lastval':'''
    for i in range(len(x)):
        v = x[i, 0]
    m[:] = v
''',
'view_col':'''
    y = x[:, 0]
    y[:] = 3.
    m[:] = x[0, 0]
''',
'reshape_alias':'''
    y = x.reshape(x.size)
    y[0] = -1.
    m[0] = x[0, 0]
''',
'flatten_copy':'''
    y = x.flatten()
    y[0] = -1.
    m[0] = x[0, 0]
''',
'ravel_alias':'''
    y = x.ravel()
    y[0] = -1.
    m[0] = x[0, 0]
''',
'T_alias':'''
    y = x.T
    y[0, 0] = -1.
    m[0] = x[0, 0]
''',
'asarray_alias':'''
    y = np.asarray(m)
    y[0] = -1.
''',
'array_copy':'''
    y = np.array(m)
    y[0] = -1.
''',
'aug_list':'''
    a = [1.]
    b = a
    b += [2.]
    m[:] = len(a)
''',
'dict_default':'''
    d = {}
    for j in range(3):
        d.setdefault('k', []).append(j)
    m[:] = len(d['k'])
''',
'str_key':'''
    d = dict(a=1., b=2.)
    for k in d:
        d[k] = d[k] - 1.
    m[:] = d['a'] * d['b']
''',
'any_all':'''
    m[:] = 1. if np.any(x < 0) else (5. if np.all(x > 0) else 7.)
''',
'where':'''
    m = np.where(x[0, :] > 0, 0., 1.)
''',
'int_arr':'''
    y = np.zeros(3, dtype=int)
    y[0] = 1.7
    m[:] = y[0]
''',
'list_slice':'''
    L = [1., 2., 3.]
    M = L[:]
    M[0] = 0.
    m[:] = L[0]
''',
'bool_idx':'''
    y = x[:, 0]
    m[:] = len(y[y > 0])
''',
'sort_in':'''
    y = x[:, 0]
    y.sort()
    m[:] = x[0, 0]
''',
'finally_ret':'''
    def g(a):
        try:
            return 1
        finally:
            m[0] = 5.
    m[:] = g(1)
''',
'ternary_shadow':'''
    j = 7
    z = [j for j in range(2)]
    m[:] = j
''',
'isclose_none':'''
    a = None
    m[:] = 1 if a is None else 0
''',
'ge_branch':'''
    for j in range(p):
        if x[0, j] >= 0:
            m[j] = x[0, j]
        elif x[0, j] > -2:
            m[j] = -x[0, j]
        else:
            m[j] = 0
''',
'inner_return':'''
    def first(j):
        for i in range(len(x)):
            if x[i, j] < 0:
                return i + 1
        return -1
    for j in range(p):
        m[j] = first(j)
''','inner_try':'''
    for j in range(p):
        try:
            for i in range(len(x)):
                if x[i, j] < 0:
                    raise ValueError('a')
                m[j] = m[j] + 1
        except ValueError:
            m[j] = -m[j]
''','forelse':'''
    for j in range(p):
        for i in range(len(x)):
            if x[i, j] < 0:
                m[j] = 5
                break
        else:
            m[j] = 7
''','two_breaks':'''
    for j in range(p):
        for i in range(len(x)):
            if x[i, j] < 0:
                m[j] = 1
                break
            if x[i, j] > 3:
                m[j] = 2
                break
''','carry':'''
    k = 0
    for j in range(p):
        for i in range(len(x)):
            if x[i, j] < 0:
                k = k + 1
                break
        m[j] = k
''','inner_continue':'''
    for j in range(p):
        for i in range(len(x)):
            if x[i, j] < 0:
                continue
            m[j] += x[i, j]
''','outer_break':'''
    for j in range(p):
        s = 0.
        for i in range(len(x)):
            s = s + x[i, j]
        if s < 0:
            break
        m[j] = s
''','while_inner':'''
    for j in range(p):
        i = 0
        while i < len(x) and x[i, j] > 0:
            i += 1
        m[j] = i
''','last_var':'''
    i = -1
    for j in range(p):
        for i in range(len(x)):
            if x[i, j] < 0:
                break
        m[j] = i
''','flag':'''
    for j in range(p):
        found = False
        for i in range(len(x)):
            if found is False and x[i, j] < 0:
                found = True
                m[j] = i
        if not found:
            m[j] = -2
''','listapp':'''
    L = []
    for j in range(p):
        for i in range(len(x)):
            if x[i, j] < 0:
                L.append(i + 1.)
                break
        else:
            L.append(0.)
    m = np.array(L)
''','cond_append':'''
    L = []
    for j in range(p):
        if x[0, j] > 0:
            L.append(1.)
        else:
            L.append(-1.)
    m = np.array(L)
''','skip_cond':'''
    for j in range(p):
        if x[0, j] > 1:
            continue
        for i in range(len(x)):
            if x[i, j] < 0:
                m[j] = 3
                break
        if m[j] == 3:
            continue
        m[j] = 4
''','prev':'''
    for j in range(p):
        if j > 0 and x[0, j] > 0:
            m[j] = m[j-1] + 1
''','dup':'''
    for j in range(p):
        m[0] = m[0] + x[0, j]
        m[j] = m[j] - 1
''','gen':'''
    for j in range(p):
        if any(x[i, j] < 0 for i in range(len(x))):
            m[j] = 1
        elif all(v > 1 for v in x[:, j]):
            m[j] = 2
''','alias':'''
    y = x
    y[0, :] = 5.
    for j in range(p):
        m[j] = x[0, j]
''','view':'''
    v = x[:, 0]
    v[0] = 9.
    for j in range(p):
        m[j] = x[0, j]
''','rowview':'''
    r = x[0]
    r += 10
    for j in range(p):
        m[j] = x[0, j] - 8
''','copyout':'''
    y = x.copy()
    y[0, :] = -1.
    m = x[0, :] * 1
''','aug_alias':'''
    a = m
    for j in range(p):
        a[j] += 2.
''','rebind':'''
    a = m
    a = a + 3.
    m[0] = m[0] + 1
''','closure':'''
    fs = []
    for j in range(3):
        fs.append(lambda: j)
    for j in range(p):
        m[j] = fs[0]()
''','defarg':'''
    def g(a, acc=[]):
        acc.append(a)
        return len(acc)
    for j in range(2):
        m[0] = g(j)
''','maskassign':'''
    m[x[0, :] > 1] = 6.
''','fancy':'''
    idx = np.array([0, 0])
    m[idx] += 1.
''','neg':'''
    m[-1] = 4.
''','sliceneg':'''
    m[:-1] = 4.
''','reverse':'''
    m = x[0, ::-1]
''','listmul':'''
    L = [[0.]] * 3
    L[0].append(1.)
    m[:] = len(L[2])
''','dictalias':'''
    d = dict(a=m)
    e = dict(d)
    e['a'][0] = 7.
''','swap':'''
    a, b = 1., 2.
    a, b = b, a
    m[:] = a
''','tryelse':'''
    for j in range(p):
        try:
            if x[0, j] < 0:
                raise KeyError('q')
        except KeyError:
            m[j] = 1
        else:
            m[j] = 2
        finally:
            m[j] += 1
''','intdiv':'''
    for j in range(p):
        m[j] = (j - 3) // 2
''','mod':'''
    for j in range(p):
        m[j] = (j - 3) % 3
''','chain':'''
    for j in range(p):
        if 0 < x[0, j] < 2:
            m[j] = 1
''','shortcircuit':'''
    for j in range(p):
        m[j] = x[0, j] and 3.
''','orval':'''
    for j in range(p):
        m[j] = x[0, j] or 3.
''','minmax':'''
    for j in range(p):
        m[j] = min(max(x[0, j], 0), len(x))
''','cumul':'''
    m = np.cumsum(x[0, :])
''','argmax':'''
    m[:] = np.argmax(x[:, 0])
''','intcast':'''
    for j in range(p):
        m[j] = int(x[0, j] - .5)
''','floor':'''
    m = np.floor(x[0, :] - .5)
''','zipshort':'''
    for j, a in zip(range(p), [1., 2.]):
        m[j] = a
''','walrusless':'''
    it = iter([3., 4.])
    m[0] = next(it)
    m[0] = next(it)
'''}
CL={'z':lambda S,m,x,j,n:S.eq(S.item(m,j),0),'ge':lambda S,m,x,j,n:S.item(m,j)>=0,'le':lambda S,m,x,j,n:S.item(m,j)<=0,'nz':lambda S,m,x,j,n:S.not_(S.eq(S.item(m,j),0)),
 'len':lambda S,m,x,j,n:S.item(m,j)<=n,'ltn':lambda S,m,x,j,n:S.item(m,j)<n,'one':lambda S,m,x,j,n:S.eq(S.item(m,j),1),'ifpos':lambda S,m,x,j,n:S.implies(S.item(x,0,j)>0,S.eq(S.item(m,j),0)),'ifneg':lambda S,m,x,j,n:S.implies(S.item(x,0,j)<0,S.item(m,j)>=1),
 'five':lambda S,m,x,j,n:S.or_(S.eq(S.item(m,j),5),S.eq(S.item(m,j),7)),'neg1':lambda S,m,x,j,n:S.item(m,j)>=-1,'neg2':lambda S,m,x,j,n:S.item(m,j)>=-2, 'first':lambda S,m,x,j,n:S.eq(S.item(m,j),S.item(x,0,j))}
class CS:
    eq=staticmethod(lambda a,b:abs(a-b)<1e-9); item=staticmethod(lambda a,*i:a[i if len(i)>1 else i[0]]); not_=staticmethod(lambda a:not a); or_=staticmethod(lambda *a:any(a)); implies=staticmethod(lambda a,b:(not a) or b)
rs=np.random.RandomState(0)
tot=0
for k,b in BODY.items():
    code='import numpy as np\ndef f(x):\n    p = x.shape[1]\n    m = np.zeros([p])\n'+b.strip('\n')+'\n    return m\n'
    open(D + '/pymcmcstat/mini.py','w').write(code)
    ns={}; exec(code,ns)
    false=set()
    for _ in range(600):
        n,p=rs.randint(1,5),rs.randint(1,4)
        x=rs.choice([-2.,-1.,0.,1.,2.,4.,.5],size=(n,p),p=[.05,.1,.05,.2,.2,.2,.2])
        m=ns['f'](x.copy())
        for q,c in CL.items():
            if not all(c(CS,m,x,j,n) for j in range(p)): false.add(q)
    P=Program(D); line=[]
    for q,cl in CL.items():
        def c(S):
            n,p=S.int('n',1),S.int('p',1)
            x=S.arr('x',(n,p)); x0=S.snap(x)
            m=S.call('pymcmcstat.mini:f',x)
            for j in S.some('j',p): S.ensure('c',cl(S,m,x0,j,n))
        s=SymS(P); r=s.run(c)
        pr=not r['error'] and not r['fails']
        st=r['error'][:40] if r['error'] else 'proved' if pr else 'not'
        if q in false and pr: line.append('!!! UNSOUND '+q); tot+=1
        elif q not in false: line.append('%s(true):%s'%(q,st))
        elif r['error']: line.append('err:'+st)
    print(k,line,flush=True)
print('unsound',tot)
