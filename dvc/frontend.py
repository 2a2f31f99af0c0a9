"""Front end: clang's AST (JSON) of the real /repo sources, loaded on every run.

Nothing is copied by hand: each translation unit is parsed by clang-18 with the
flags of the repository's own build, and the declarations below namespace
`dreal` (template instantiations and lambdas included) are indexed by clang's
mangled names, so that calls across translation units can be followed.
"""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import tempfile

REPO = os.environ.get('DVC_REPO', '/repo')
DRAKE = 'third_party/com_github_robotlocomotion_drake'
SYM = DRAKE + '/dreal/symbolic/'
FLAGS = ['-std=c++14', '-fno-strict-aliasing', '-iquote', REPO, '-iquote',
         REPO + '/_build/gen', '-isystem', REPO + '/' + DRAKE + '/.',
         '-DFMT_DEPRECATED_OSTREAM=1', '-DFMT_HEADER_ONLY=1',
         '-DFMT_NO_FMT_STRING_ALIAS=1', '-DSPDLOG_FMT_EXTERNAL', '-w']


class FrontEndError(Exception):
    pass


def dump(src, extra=(), filt='dreal'):
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    cmd = ['clang++-18'] if os.path.exists('/usr/bin/clang++-18') else ['clang++']
    cmd = cmd + FLAGS + list(extra) + ['-fsyntax-only', '-Xclang',
                                       '-ast-dump=json', '-Xclang',
                                       '-ast-dump-filter=' + filt, path]
    with tempfile.TemporaryFile() as err:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=err, timeout=300)
        if r.returncode != 0:
            err.seek(0)
            raise FrontEndError('clang failed on %s: %s' % (
                src, err.read().decode(errors='replace')[:2000]))
    return r.stdout.decode(errors='replace')


def parse_concat(s):
    d = json.JSONDecoder()
    i, n, out = 0, len(s), []
    ws = re.compile(r'\s*')
    i = ws.match(s, 0).end()
    while i < n:
        o, i = d.raw_decode(s, i)
        out.append(o)
        i = ws.match(s, i).end()
    return out


FUNC = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl',
        'CXXDestructorDecl', 'CXXConversionDecl')


class TU:
    """One translation unit."""

    def __init__(self, src, text):
        self.src = src
        self.decl = {}       # id -> node
        self.qual = {}       # id -> qualified name
        self.parent = {}     # id -> parent node
        self.mangled = {}    # mangled -> definition in this TU
        self.cur_file = None
        self.cur_line = None
        roots = parse_concat(text)
        for r in roots:
            self._walk(r, [], None)

    def _loc(self, node):
        """clang prints file/line only when they change: replay that."""
        def one(l):
            if not isinstance(l, dict):
                return
            if 'spellingLoc' in l or 'expansionLoc' in l:
                one(l.get('spellingLoc'))
                one(l.get('expansionLoc'))
                return
            if 'file' in l:
                self.cur_file = l['file']
            if 'line' in l:
                self.cur_line = l['line']
        one(node.get('loc'))
        r = node.get('range')
        if isinstance(r, dict):
            one(r.get('begin'))
            node['_line'] = self.cur_line
            node['_file'] = self.cur_file
            one(r.get('end'))

    def _walk(self, n, path, parent):
        if not isinstance(n, dict) or 'kind' not in n:
            return
        self._loc(n)
        k = n['kind']
        nid = n.get('id')
        n['_tu'] = self
        isdecl = k.endswith('Decl')
        sub = path
        if isdecl and nid:
            # first full sighting wins, definitions override
            old = self.decl.get(nid)
            if old is None or len(n.get('inner', [])) >= len(old.get('inner', [])):
                self.decl[nid] = n
            nm = n.get('name', '')
            base = path
            if n.get('parentDeclContextId') and parent is not None and \
                    n['parentDeclContextId'] != parent.get('id'):
                q = self.qual.get(n['parentDeclContextId'])
                if q is not None:
                    base = [q]
            elif parent is None and n.get('parentDeclContextId'):
                q = self.qual.get(n['parentDeclContextId'])
                if q is not None:
                    base = [q]
            if k == 'NamespaceDecl' and not nm:
                nm = '(anon)'
            if k == 'CXXRecordDecl' or k == 'ClassTemplateSpecializationDecl':
                nm = nm or '(record)'
            full = '::'.join([b for b in base if b] + [nm]) if nm else '::'.join(base)
            self.qual[nid] = full
            self.parent[nid] = parent
            n['_q'] = full
            if k in ('NamespaceDecl', 'CXXRecordDecl', 'EnumDecl',
                     'ClassTemplateSpecializationDecl',
                     'ClassTemplatePartialSpecializationDecl'):
                sub = [full]
            elif k in FUNC:
                sub = [full]
        for c in n.get('inner', ()):
            self._walk(c, sub, n if isdecl else parent)


def body_of(fn):
    for c in fn.get('inner', ()):
        if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
            return c
    return None


class Program:
    def __init__(self, sources, extra=()):
        self.sources = list(sources)
        with cf.ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(lambda s: dump(s, extra), self.sources))
        self.tus = [TU(s, t) for s, t in zip(self.sources, texts)]
        self.defs = {}        # mangled -> definition node
        self.byname = {}      # qualified -> [definition nodes]
        self.enums = {}       # qualified enum constant -> int ; also bare
        self.records = {}     # qualified record -> record node (definition)
        for tu in self.tus:
            for nid, n in tu.decl.items():
                k = n['kind']
                if k in FUNC and self._dependent(tu, n):
                    continue
                if k in FUNC and (body_of(n) is not None):
                    m = n.get('mangledName') or nid
                    key = m
                    n['_key'] = key
                    tu.mangled[m] = n
                    if key not in self.defs:
                        self.defs[key] = n
                        self.byname.setdefault(tu.qual[nid], []).append(n)
                    elif '(anon)' in tu.qual[nid] and self.defs[key]['_tu'] is not tu:
                        # another file has a function of the same name of its own
                        self.byname.setdefault(tu.qual[nid], []).append(n)
                elif k == 'EnumDecl':
                    val = -1
                    for c in n.get('inner', ()):
                        if c.get('kind') == 'EnumConstantDecl':
                            v = None
                            for g in c.get('inner', ()):
                                if g.get('kind') == 'ConstantExpr' and 'value' in g:
                                    v = int(g['value'])
                                elif 'value' in g:
                                    try:
                                        v = int(g['value'])
                                    except ValueError:
                                        pass
                            val = val + 1 if v is None else v
                            c['_value'] = val
                            self.enums[tu.qual[nid] + '::' + c['name']] = val
                elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and n.get('completeDefinition'):
                    q = tu.qual[nid]
                    n['_q'] = q
                    if k == 'ClassTemplateSpecializationDecl':
                        self.records.setdefault(q, []).append(n)
                    else:
                        self.records.setdefault(q, []).insert(0, n)

    def _dependent(self, tu, n):
        """True for uninstantiated templates."""
        if 'mangledName' in n:
            return False
        return n['kind'] != 'CXXConstructorDecl' or True

    def find(self, qual, sig=None):
        out = self.byname.get(qual, [])
        if sig is not None:
            out = [n for n in out if re.search(sig, n['type']['qualType'])]
        return out

    def resolve(self, tu, nid):
        """Definition (or at least declaration) for a referenced decl id."""
        n = tu.decl.get(nid)
        if n is None:
            return None
        if n['kind'] in FUNC:
            if body_of(n) is not None:
                return n
            m = n.get('mangledName')
            if m and m in tu.mangled:
                return tu.mangled[m]
            if m and m in self.defs:
                return self.defs[m]
        return n
