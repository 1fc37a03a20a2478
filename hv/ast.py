"""Front end: mechanically extracts every declaration of /repo's headers from clang's AST (JSON dump) on each run.

Nothing is dropped from the function bodies that are verified; what is not represented is: source locations other than
line numbers, comments, attributes.  Declarations outside namespace happyml that live in /repo (portable_bytes.hpp) come
from a second dump with another filter.
"""
import json, os, subprocess, sys, hashlib, gc
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('HV_REPO', '/repo')
CLANG = ['clang++', '-std=c++17', '-w', '-DNDEBUG', '-include', '/opt/vp/compat/msvc_compat.hpp',
         '-I%s/src/ml' % REPO, '-I%s/src/lang/statements' % REPO, '-I/opt/vp/compat']
DEFAULT_HEADERS = ['src/util/tensor_utils.hpp', 'src/util/dataset_utils.hpp', 'src/ml/happyml_dsl.hpp',
                   'src/lang/interpreter.hpp', 'src/lang/happyml_script_init.hpp',
                   'src/types/trie.hpp', 'src/util/tensor_stats.hpp', 'src/util/text_embedder.hpp',
                   'src/types/tensor_impls/identity_tensor.hpp', 'src/types/tensor_impls/tensor_from_function.hpp',
                   'src/types/tensor_views/column_flatten_tensor_view.hpp', 'src/types/tensor_views/diagonal_tensor_view.hpp',
                   'src/types/tensor_views/dot_product_tensor_view.hpp', 'src/types/tensor_views/log2_tensor_view.hpp',
                   'src/types/tensor_views/noop_tensor_view.hpp', 'src/types/tensor_views/outer_product_tensor_view.hpp']
DROP = {'loc', 'mangledName', 'isUsed', 'isReferenced', 'definitionData', 'previousDecl'}


class ExtractError(Exception):
    pass


def _dump(tu_text, filt, workdir, tag):
    src = os.path.join(workdir, 'tu_%s.cpp' % tag)
    with open(src, 'w') as f:
        f.write(tu_text)
    p = subprocess.run(CLANG + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, src],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ExtractError('clang failed: ' + p.stderr.decode(errors='replace')[:2000])
    return p.stdout.decode('utf-8', errors='replace')


def _objs(text):
    dec = json.JSONDecoder()
    i, n = 0, len(text)
    out = []
    while True:
        while i < n and text[i] != '{':
            j = text.find('\n', i)
            if j < 0:
                return out
            i = j + 1 if text[i] != '{' else i
        if i >= n:
            return out
        o, i = dec.raw_decode(text, i)
        out.append(o)


class Program:
    def __init__(self, roots, globals_roots):
        self.by_id = {}
        self.classes = {}      # name -> node (definition)
        self.functions = {}    # simple name -> [FunctionDecl]
        self.typedefs = {}
        self.enums = {}
        self.enum_const = {}   # id -> int
        self.enum_by_name = {}
        self.gvars = {}
        self.parent_class = {}  # method node id -> class name
        self.class_by_id = {}
        self._line = 0
        for r in roots:
            self._walk(r, None)
        for r in globals_roots:
            self._walk(r, None)
        self._classes_done()

    def _loc(self, n):
        pass

    def _walk(self, root, cls):
        # iterative walk with explicit class context
        stack = [(root, cls)]
        while stack:
            n, cls = stack.pop()
            k = n.get('kind')
            if not k:
                continue
            loc = n.get('loc') or {}
            if 'id' in n:
                self.by_id.setdefault(n['id'], n)
            ncls = cls
            if k == 'CXXRecordDecl' or k == 'ClassTemplateSpecializationDecl':
                if n.get('completeDefinition') and n.get('name'):
                    self.classes.setdefault(n['name'], n)
                    self.class_by_id[n['id']] = n
                ncls = n.get('name') or n.get('id')
                if not n.get('name') and n.get('completeDefinition'):
                    self.classes.setdefault(n['id'], n)
            elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                if k == 'FunctionDecl':
                    self.functions.setdefault(n.get('name'), []).append(n)
                if cls and k != 'FunctionDecl':
                    self.parent_class[n['id']] = cls
                # still walk the body: lambdas define records/methods there
            elif k in ('TypedefDecl', 'TypeAliasDecl'):
                t = n.get('type', {})
                self.typedefs[n.get('name')] = t.get('desugaredQualType') or t.get('qualType')
            elif k == 'EnumDecl':
                self._enum(n)
            elif k == 'VarDecl' and cls is None:
                self.gvars[n['id']] = n
            for c in n.get('inner', ()):
                if isinstance(c, dict):
                    stack.append((c, ncls))

    def _enum(self, n):
        v = -1
        self.enums[n.get('name')] = n
        for c in n.get('inner', ()):
            if c.get('kind') == 'EnumConstantDecl':
                val = None
                for e in c.get('inner', ()):
                    x = e
                    while x is not None:
                        if 'value' in x:
                            val = int(x['value'])
                            break
                        x = (x.get('inner') or [None])[0]
                v = val if val is not None else v + 1
                self.enum_const[c['id']] = v
                self.enum_by_name[c['name']] = v

    def _classes_done(self):
        self.cinfo = {}
        for name, n in self.classes.items():
            fields, methods, ctors, statics = [], {}, [], {}
            for c in n.get('inner', ()):
                k = c.get('kind')
                if k == 'FieldDecl':
                    fields.append(c)
                elif k == 'CXXMethodDecl' or k == 'CXXConversionDecl':
                    methods.setdefault(c.get('name'), []).append(c)
                elif k == 'CXXConstructorDecl':
                    ctors.append(c)
                elif k == 'VarDecl':
                    statics[c.get('name')] = c
            bases = [b['type'].get('desugaredQualType') or b['type']['qualType'] for b in n.get('bases', ())]
            bases = [b.split('::')[-1] if '<' not in b else b for b in bases]
            self.cinfo[name] = dict(fields=fields, methods=methods, ctors=ctors, bases=bases, node=n, statics=statics)

    def body(self, fn):
        for c in fn.get('inner', ()):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                return c
        return None

    def params(self, fn):
        return [c for c in fn.get('inner', ()) if c.get('kind') == 'ParmVarDecl']

    def mro(self, cls):
        out, seen = [], set()
        def go(c):
            if c in seen or c not in self.cinfo:
                return
            seen.add(c)
            out.append(c)
            for b in self.cinfo[c]['bases']:
                go(b)
        go(cls)
        return out

    def is_a(self, cls, base):
        return base in self.mro(cls)


def load(headers=None, workdir=None):
    headers = headers or DEFAULT_HEADERS
    workdir = workdir or '/tmp'
    os.makedirs(workdir, exist_ok=True)
    tu = ''.join('#include "%s/%s"\n' % (REPO, h) for h in headers)
    with ThreadPoolExecutor(3) as ex:
        a = ex.submit(_dump, tu, 'happyml', workdir, 'a')
        b = ex.submit(_dump, tu, 'ortable', workdir, 'b')
        c = ex.submit(_dump, tu, 'asString', workdir, 'c')
        ta, tb, tc = a.result(), b.result(), c.result()
    gc.disable()
    prog = Program(_objs(ta), _objs(tb) + _objs(tc))
    gc.enable()
    gc.freeze()
    return prog
