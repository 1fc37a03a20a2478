import sys
sys.path.insert(0, '/verif')
from hv import ast as A
def show(n, d=0):
    t = n.get('type', {}).get('qualType', '')
    extra = {k: v for k, v in n.items() if k in ('name', 'opcode', 'castKind', 'value', 'isArrow', 'valueCategory', 'ctorType', 'isPostfix','anyInit','baseInit','hadMultipleCandidates','list','elidable')}
    for k in ('anyInit',):
        if k in extra: extra[k] = extra[k].get('name')
    ref = n.get('referencedDecl', {})
    print('  ' * d + n.get('kind', '?'), repr(t), extra, ref.get('name', ''), ref.get('kind', ''), n.get('referencedMemberDecl',''))
    for c in n.get('inner', ()):
        if isinstance(c, dict): show(c, d + 1)
if __name__ == '__main__':
    import pickle, os
    pk = '/tmp/w/prog.pkl'
    if os.path.exists(pk): p = pickle.load(open(pk, 'rb'))
    else:
        p = A.load(workdir='/tmp/w/ast'); pickle.dump(p, open(pk, 'wb'))
    q = sys.argv[1]
    if '::' in q:
        c, m = q.split('::')
        for x in (p.cinfo[c]['ctors'] if m == c else p.cinfo[c]['methods'][m]): show(x)
    else:
        for x in p.functions[q]: show(x)
