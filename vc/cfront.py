"""Front end: clang's AST of /repo's current sources (dumped on every run)."""
import json
import re
import os
import subprocess
import hashlib
import tempfile
import shutil

REPO = os.environ.get('VERIF_REPO', '/repo')
CPP = REPO + '/src/vmecpp/cpp'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIMS = VERIF + '/shims'
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
FLAGS = ['-std=c++20', '-w', '-I' + CPP, '-I' + SHIMS, '-include', 'verif_eigen_span.h', '-I/usr/include/eigen3',
         '-I/usr/include/hdf5/serial']


class FrontError(Exception):
    pass


FUNC_KINDS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl')


def with_anonymous(src, flags=()):
    """translation unit of a source whose file-local functions live outside namespace vmecpp: the unnamed namespace is
    given a name (inline namespace vmecpp_local), so that the AST dump selects it; nothing else changes"""
    txt = open(os.path.join(CPP, src)).read()
    txt = re.sub(r'(?m)^namespace\s*\{', 'inline namespace vmecpp_local {', txt)
    return TU('#line 1 "%s"\n' % src + txt, 'vmecpp', True, list(flags) + ['-I' + os.path.dirname(os.path.join(CPP, src))])


class TU:
    """one translation unit: functions by qualified name and by id"""

    def __init__(self, source, filt='vmecpp', is_text=False, flags=()):
        self.source = source
        tmp = None
        if is_text:
            tmp = tempfile.mkdtemp(prefix='vcfront')
            path = os.path.join(tmp, 'tu.cc')
            with open(path, 'w') as f:
                f.write(source)
        else:
            path = source if source.startswith('/') else os.path.join(CPP, source)
        cmd = [CLANG] + FLAGS + list(flags) + ['-fsyntax-only', '-Xclang', '-ast-dump=json']
        if filt:
            cmd += ['-Xclang', '-ast-dump-filter=' + filt]
        cmd.append(path)
        try:
            r = subprocess.run(cmd, capture_output=True)
        finally:
            if tmp:
                shutil.rmtree(tmp)
        if r.returncode != 0:
            raise FrontError('clang failed on %s: %s' % (path, r.stderr.decode()[:2000]))
        self.docs = []
        txt = r.stdout.decode()
        dec = json.JSONDecoder()
        i = 0
        n = len(txt)
        while i < n:
            while i < n and txt[i] in ' \n\r\t':
                i += 1
            if i >= n:
                break
            if txt[i] != '{':
                # "Dumping xyz:" lines
                j = txt.find('\n', i)
                i = n if j < 0 else j + 1
                continue
            d, i = dec.raw_decode(txt, i)
            self.docs.append(d)
        self.by_id = {}
        self.funcs = {}        # name -> list of nodes with body
        self.by_mangled = {}
        self.parent = {}
        self.records = {}      # record name -> node
        self.consts = {}
        self.enums = {}
        self.aliases = {}
        for d in self.docs:
            self._index(d, None)

    def _index(self, n, parent):
        if not isinstance(n, dict) or 'kind' not in n:
            return
        k = n['kind']
        if 'id' in n:
            if n['id'] in self.by_id and k in FUNC_KINDS and self.by_id[n['id']].get('inner'):
                pass
            self.by_id[n['id']] = n
            if parent is not None:
                self.parent[n['id']] = parent
        if k in FUNC_KINDS:
            body = [c for c in n.get('inner', []) if c.get('kind') == 'CompoundStmt']
            if body:
                self.funcs.setdefault(n.get('name', ''), []).append(n)
                if 'mangledName' in n:
                    self.by_mangled[n['mangledName']] = n
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and n.get('completeDefinition'):
            self.records[n.get('name', '')] = n
        if k in ('TypeAliasDecl', 'TypedefDecl'):
            self.aliases[n.get('name', '')] = qtype(n)
        if k == 'EnumDecl':
            self._enum(n)
        if k in ('CompoundStmt',):
            # still index nested decls (lambdas, locals are found during execution)
            return
        for c in n.get('inner', []):
            self._index(c, n)

    def _enum(self, n):
        nxt = 0
        for c in n.get('inner', []):
            if c.get('kind') == 'EnumConstantDecl':
                val = None
                for x in c.get('inner', []):
                    if 'value' in x:
                        val = int(x['value'])
                if val is None:
                    val = nxt
                self.enums[c['id']] = val
                self.enums[(n.get('name'), c['name'])] = val
                nxt = val + 1

    def find(self, name, cls=None, nparams=None, pred=None):
        out = []
        for f in self.funcs.get(name, []):
            if nparams is not None and len(params(f)) != nparams:
                continue
            if cls is not None:
                o = self.owner(f)
                if o != cls:
                    continue
            if pred and not pred(f):
                continue
            if is_dependent(f):
                continue
            out.append(f)
        # unique by mangled name
        seen = {}
        for f in out:
            seen.setdefault(f.get('mangledName', f['id']), f)
        return list(seen.values())

    def owner(self, f):
        p = self.parent.get(f['id'])
        if p is not None and p.get('kind') in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            return p.get('name')
        pid = f.get('parentDeclContextId')
        if pid and pid in self.by_id:
            return self.by_id[pid].get('name')
        prev = f.get('previousDecl')
        if prev and prev in self.by_id:
            pp = self.parent.get(prev)
            if pp is not None:
                return pp.get('name')
        return None

    def resolve(self, ref):
        """definition for a referenced decl {'id','name',..}"""
        n = self.by_id.get(ref['id'])
        if n is None:
            return None
        if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
            return n
        m = n.get('mangledName')
        if m and m in self.by_mangled:
            return self.by_mangled[m]
        return None


def is_dependent(f):
    return '<dependent type>' in json.dumps(f)[:200000] and 'CXXDependentScope' in json.dumps(f)


def params(f):
    return [c for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl']


def body(f):
    for c in f.get('inner', []):
        if c.get('kind') == 'CompoundStmt':
            return c
    return None


def qtype(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


def line_of(n):
    r = n.get('range', {}).get('begin', {})
    for k in ('expansionLoc',):
        if k in r:
            r = r[k]
    return r.get('line')
