"""Front end: clang AST of the current /repo headers -> indexed declarations.

Nothing here knows about any particular header.  The translation unit is written
to a temporary directory outside /repo; /repo is only read through -I.
"""
import json, os, re, subprocess, tempfile, hashlib

CLANG = '/usr/bin/clang++-18'
REPO = os.environ.get('DSPV_REPO', '/repo')


class FrontError(Exception):
    pass


def norm_type(s):
    s = s.replace('DSP::', '').replace('DSP_drv::', '')
    s = re.sub(r'\b(class|struct|union|typename) ', '', s)
    s = re.sub(r'\s+', ' ', s).strip()
    s = re.sub(r'\s*([<>,*&\[\]()])\s*', r'\1', s)
    return s


INTS = {'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False), 'long': (64, True),
        'unsigned long': (64, False), 'short': (16, True), 'unsigned short': (16, False),
        'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
        'long long': (64, True), 'unsigned long long': (64, False), 'ptrdiff_t': (64, True),
        'size_t': (64, False), 'int8_t': (8, True), 'int16_t': (16, True), 'int32_t': (32, True),
        'uint8_t': (8, False), 'uint16_t': (16, False), 'uint32_t': (32, False),
        'std::ptrdiff_t': (64, True), 'int_type': (32, True), 'std::streamsize': (64, True)}
FLOATS = {'float', 'double', 'long double'}

_tcache = {}


def parse_type(s):
    """-> ('int',bits,signed) ('float',name) ('bool',) ('void',) ('ptr',T) ('ref',T) ('arr',T,text) ('rec',name)"""
    if s in _tcache:
        return _tcache[s]
    t = _parse_type(norm_type(s))
    _tcache[s] = t
    return t


def _strip_cv(s):
    while True:
        o = s
        for q in ('const ', 'volatile ', 'constexpr '):
            if s.startswith(q):
                s = s[len(q):]
        for q in (' const', ' volatile', ' noexcept', ' __restrict'):
            if s.endswith(q):
                s = s[:-len(q)]
        for q in ('*const', '&const'):
            if s.endswith(q):
                s = s[:-len('const')]
        s = s.strip()
        if s == o:
            return s


def _split_depth(s):
    """position of a top-level '(' or -1"""
    d = 0
    for i, c in enumerate(s):
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif c == '(' and d == 0:
            return i
    return -1


def _parse_type(s):
    s = _strip_cv(s)
    if s.endswith(']'):
        # outermost extent is the first [..] after the base
        d = 0
        i = 0
        while i < len(s):
            if s[i] == '<':
                d += 1
            elif s[i] == '>':
                d -= 1
            elif s[i] == '[' and d == 0:
                break
            i += 1
        j = s.index(']', i)
        return ('arr', _parse_type(s[:i] + s[j + 1:]), s[i + 1:j])
    if s.endswith('&&'):
        return ('ref', _parse_type(s[:-2]))
    if s.endswith('&'):
        return ('ref', _parse_type(s[:-1]))
    if s.endswith('*'):
        return ('ptr', _parse_type(s[:-1]))
    if _split_depth(s) >= 0:
        return ('fn', s)
    if s in INTS:
        b, sg = INTS[s]
        return ('int', b, sg)
    if s in FLOATS:
        return ('float', s)
    if s == 'bool':
        return ('bool',)
    if s == 'void':
        return ('void',)
    if s == 'std::nullptr_t':
        return ('ptr', ('void',))
    return ('rec', s)


def qt(node):
    t = node.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''


class Record:
    def __init__(self, name, node, pattern=None, params=None, args=None):
        self.name, self.node, self.pattern = name, node, pattern
        self.params, self.args = params or [], args or []
        self.fields, self.methods, self.ctors, self.statics, self.bases = [], {}, [], {}, []
        for b in node.get('bases', []):
            self.bases.append(norm_type(b['type'].get('desugaredQualType') or b['type']['qualType']))
        for c in node.get('inner', []):
            k = c.get('kind')
            if k == 'FieldDecl':
                self.fields.append(c)
            elif k == 'CXXMethodDecl':
                self.methods.setdefault(c['name'], []).append(c)
            elif k == 'CXXConstructorDecl':
                self.ctors.append(c)
            elif k == 'CXXDestructorDecl':
                self.methods.setdefault('~', []).append(c)
            elif k == 'CXXConversionDecl':
                self.methods.setdefault('operator conv', []).append(c)
            elif k == 'VarDecl':
                self.statics[c['name']] = c
        self.fieldnames = [f['name'] for f in self.fields if 'name' in f]


class TU:
    def __init__(self, text, extra=(), repo=None):
        self.text = text
        repo = repo or REPO
        with tempfile.TemporaryDirectory(prefix='dspv') as d:
            src = os.path.join(d, 'tu.cc')
            with open(src, 'w') as f:
                f.write(text)
            cmd = [CLANG, '-I' + repo, '-std=c++17', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json',
                   '-Xclang', '-ast-dump-filter=DSP', *extra, src]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise FrontError('clang failed:\n' + r.stderr[:4000])
        self.docs = []
        dec = json.JSONDecoder()
        s = r.stdout
        i = 0
        n = len(s)
        while True:
            while i < n and s[i] != '{':
                # skip "Dumping xyz:" headers
                j = s.find('\n', i)
                if j < 0:
                    i = n
                    break
                if s[i] in ' \n\r\t':
                    i += 1
                else:
                    i = j + 1
            if i >= n:
                break
            d, i = dec.raw_decode(s, i)
            self.docs.append(d)
        self.decl = {}
        self.records = {}
        self.functions = {}
        self.parent_record = {}
        self.qual = {}
        for d in self.docs:
            ns = []
            self._index(d, ns, None, None)
        self.ast_hash = hashlib.sha256(r.stdout.encode()).hexdigest()[:16]

    # -- indexing
    def _add(self, node):
        i = node.get('id')
        if i is None:
            return
        o = self.decl.get(i)
        if o is None or len(node.get('inner', [])) > len(o.get('inner', [])):
            self.decl[i] = node

    def _index(self, node, ns, rec, tmpl):
        k = node.get('kind')
        if k is None:
            return
        if k.endswith('Decl'):
            self._add(node)
        if k == 'NamespaceDecl':
            ns2 = ns + [node.get('name', '')]
            for c in node.get('inner', []):
                self._index(c, ns2, None, None)
            return
        if k == 'ClassTemplateDecl':
            pat = None
            params = []
            for c in node.get('inner', []):
                if c.get('kind') in ('NonTypeTemplateParmDecl', 'TemplateTypeParmDecl'):
                    params.append(c)
                if c.get('kind') == 'CXXRecordDecl' and pat is None:
                    pat = c
            self._add(pat)
            self.decl.setdefault(('pattern', node.get('name')), (pat, params))
            for c in node.get('inner', []):
                if c.get('kind') == 'CXXRecordDecl':
                    continue
                if c.get('kind') in ('ClassTemplateSpecializationDecl',):
                    self._index(c, ns, rec, (pat, params))
            return
        if k in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl'):
            name = node.get('name')
            if not node.get('completeDefinition'):
                return
            args = []
            if k == 'ClassTemplateSpecializationDecl':
                p = tmpl or self.decl.get(('pattern', name)) or (None, [])
                for c in node.get('inner', []):
                    if c.get('kind') == 'TemplateArgument':
                        if 'value' in c:
                            args.append(c['value'])
                        elif 'type' in c:
                            args.append(norm_type(c['type'].get('desugaredQualType') or c['type']['qualType']))
                        else:
                            args.append('?')
                pn = []
                for i, a in enumerate(args):
                    if i < len(p[1]) and qt(p[1][i]) == 'bool' and not isinstance(a, str):
                        pn.append('true' if a else 'false')
                    else:
                        pn.append(str(a))
                full = norm_type('%s<%s>' % (name, ','.join(pn)))
                r = Record(full, node, p[0], p[1], args)
            else:
                full = name or node['id']
                r = Record(full, node)
            if rec is not None and name:
                full2 = rec + '::' + full
                r.name = full2
                self.records[full2] = r
            else:
                if full in self.records and len(self.records[full].node.get('inner', [])) >= len(node.get('inner', [])):
                    return
                self.records[full] = r
            r.simple = name
            self.decl[node['id']] = node
            self.records['#' + node['id']] = r
            for c in node.get('inner', []):
                if c.get('kind', '').endswith('Decl'):
                    self._index(c, ns, r.name, None)
                    if 'id' in c:
                        self.parent_record[c['id']] = r
                if c.get('kind') == 'FunctionTemplateDecl':
                    for cc in c.get('inner', []):
                        if 'id' in cc:
                            self.parent_record[cc['id']] = r
            return
        if k == 'ClassTemplatePartialSpecializationDecl':
            return
        if k == 'FunctionTemplateDecl':
            for c in node.get('inner', []):
                if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    if any(x.get('kind') == 'TemplateArgument' for x in c.get('inner', [])):
                        self._index(c, ns, rec, None)
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            q = '::'.join([x for x in ns if x not in ('DSP', 'DSP_drv')] + ([rec] if rec else []) + [node.get('name', '')])
            self.qual[node['id']] = q
            self.functions.setdefault(q, []).append(node)
            self._walk(node)
            return
        self._walk(node)

    def _walk(self, node):
        for c in node.get('inner', []):
            if not isinstance(c, dict):
                continue
            k = c.get('kind')
            if k and k.endswith('Decl'):
                self._add(c)
                if k == 'CXXRecordDecl' and c.get('completeDefinition'):
                    self._index(c, [], None, None)
            self._walk(c)

    # -- lookup
    def record(self, name):
        n = norm_type(name)
        r = self.records.get(n)
        if r is None:
            # default template arguments may be omitted in printed names
            base = n.split('<')[0]
            c = [v for k, v in self.records.items() if not k.startswith('#') and k.split('<')[0] == base and
                 k.startswith(n[:-1])]
            if len(c) == 1:
                r = c[0]
        return r

    def body(self, fn):
        for c in fn.get('inner', []):
            if c.get('kind') == 'CompoundStmt':
                return c
        return None

    def params(self, fn):
        return [c for c in fn.get('inner', []) if c.get('kind') == 'ParmVarDecl']

    def find(self, q, pred=None):
        """functions by qualified name (DSP:: dropped) having a body"""
        c = [f for f in self.functions.get(q, []) if pred is None or pred(f)]
        d = [f for f in c if self.body(f) is not None]
        return d or c

    def method(self, rec, name, nparams=None, pred=None):
        r = self.record(rec) if isinstance(rec, str) else rec
        if r is None:
            raise FrontError('record %s not found' % rec)
        if name == 'ctor':
            ms = list(r.ctors)
        else:
            ms = list(r.methods.get(name, []))
        for c in r.node.get('inner', []):
            if c.get('kind') == 'FunctionTemplateDecl' and (c.get('name') == name or (name == 'ctor' and c.get('name') == r.simple)):
                for cc in c.get('inner', []):
                    if cc.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl') and any(
                            x.get('kind') == 'TemplateArgument' for x in cc.get('inner', [])):
                        ms.append(cc)
        ms = [m for m in ms if self.body(m) is not None or m.get('inner')]
        if nparams is not None:
            ms = [m for m in ms if len(self.params(m)) == nparams]
        if pred:
            ms = [m for m in ms if pred(m)]
        ms = [m for m in ms if not m.get('isImplicit')]
        if len(ms) != 1:
            raise FrontError('method %s::%s/%s: %d candidates' % (r.name, name, nparams, len(ms)))
        return ms[0]
