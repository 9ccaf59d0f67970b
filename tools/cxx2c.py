#!/usr/bin/env python3
"""Mechanical C++ -> C extraction of the functions of /repo for CBMC.

The input is clang's own typed AST of the unmodified .cpp file (-ast-dump=json), so every overload,
implicit conversion, macro and default argument is already resolved by a real C++ front end.  The
output is C text, one C function per C++ function, statement for statement:

  reference T&           -> pointer T*            (uses dereferenced, bindings take the address)
  method C::f(...)       -> function C__f(self, ...)
  base class sub-object  -> first member __base   (vptr, when the class is polymorphic, is `void *__vptr`)
  static/reinterpret/const_cast -> C cast of the same type; implicit conversions are made explicit
  new / delete           -> malloc (never NULL) / free; constructors of the type are called explicitly
  enum E                 -> its underlying integer type; bool -> _Bool; nullptr -> ((T)0)

What the extraction DROPS (and nothing else):
  * expression statements that only write to std::cerr / std::cout / std::clog
  * destructor calls of automatic objects; access control; attributes; `volatile`-free by construction
  * virtual dispatch: a call goes to the statically named method (pure virtual: extern, no body)
Unsupported constructs make the function "unsupported": it is emitted without a body and listed.
"""
import json, os, re, subprocess, sys, hashlib

CLANG = 'clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(os.path.dirname(HERE), 'stubs')


class Unsupported(Exception):
    pass


def ast(path, repo='/repo', extra=()):
    cmd = [CLANG, '-std=gnu++17', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-nostdinc++',
           '-I' + STUBS, '-I' + os.path.join(repo, 'include'), '-I/usr/include/libxml2', '-DBIN_WRITE_PLUGIN',
           '-DU_SHOW_CPLUSPLUS_API=0', *extra, path]
    if re.search(r'__asm__\s*\(op', open(path, errors='replace').read()):
        # the two rotate instructions of the SHA-1 code are written as inline asm; replace each expansion by a call
        pre = [a for a in cmd if a not in ('-fsyntax-only', '-Xclang', '-ast-dump=json')]
        q = subprocess.run(pre + ['-E'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        txt = q.stdout.decode(errors='replace')
        txt = rewrite_asm(txt)
        import tempfile
        with tempfile.TemporaryDirectory() as td:
            fn = os.path.join(td, 'pre.ii')
            # preprocessed input with line markers: reported positions stay those of the original file
            open(fn, 'w').write('extern "C" unsigned int __verif_rol(unsigned int,int); extern "C" unsigned int __verif_ror(unsigned int,int);\n' + txt)
            cmd[-1] = fn
            p = subprocess.run(cmd + ['-x', 'c++-cpp-output'][:0], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise Unsupported('clang rejects the preprocessed %s: %s' % (path, p.stderr.decode(errors='replace')[:600]))
        return json.loads(p.stdout)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise Unsupported('clang rejects %s with the extraction headers: %s' % (path, p.stderr.decode(errors='replace')[:600]))
    return json.loads(p.stdout)


def rewrite_asm(txt):
    out = ''
    key = re.compile(r'\(\{ unsigned int __res; __asm__\("(rol|ror)" " %1,%0":"=r" \(__res\):"i" \(')

    def par(i):          # txt[i] is just after '(' ; return index of the matching ')'
        d = 1
        while d:
            if t[i] == '(':
                d += 1
            elif t[i] == ')':
                d -= 1
            i += 1
        return i - 1
    t = txt
    while True:
        m = None
        for m in key.finditer(t):
            pass
        if m is None:
            return t
        # last occurrence is innermost-or-latest: rewrite it
        a = m.end()
        e1 = par(a)
        n = t[a:e1]
        m2 = re.compile(r'\s*, "0" \(').match(t, e1 + 1)
        b = m2.end()
        e2 = par(b)
        x = t[b:e2]
        m3 = re.compile(r'\); __res; \}\)').match(t, e2 + 1)
        t = t[:m.start()] + '__verif_%s((%s),(%s))' % (m.group(1), x, n) + t[m3.end():]


ID = r'[A-Za-z_]\w*'
SYS_STRUCTS = {'stat', 'tm', 'timespec', 'timeval', '_IO_FILE', 'dirent', '__dirstream', '__va_list_tag'}


class Unit:
    """All translation units merged."""

    def __init__(self, repo='/repo'):
        self.repo = os.path.realpath(repo)
        self.records = {}      # name -> dict(fields, bases, poly)
        self.rec_order = []
        self.enums = {}        # name -> (underlying, [(const,val)])
        self.enum_order = []
        self.typedefs = {}
        self.funcs = {}        # mangled -> dict(name, cname, decl, body unit...)
        self.globals = {}      # name -> dict
        self.glob_order = []
        self.dropped = {}      # function -> count of dropped stream statements
        self.unsupported = {}
        self.cnames = {}       # base -> [mangled]
        self.sysfuncs = set()

    # ---------------------------------------------------------------- loading
    def load(self, path):
        d = ast(path, self.repo)
        tu = TU(self, path, d)
        tu.collect()

    def finish_names(self):
        for m, f in self.funcs.items():
            self.cnames.setdefault(f['base'], [])
            if m not in self.cnames[f['base']]:
                self.cnames[f['base']].append(m)
        for base, ms in self.cnames.items():
            if len(ms) == 1:
                self.funcs[ms[0]]['cname'] = base
            else:
                for m in ms:
                    f = self.funcs[m]
                    suf = '_'.join(re.sub(r'\W+', '_', re.sub(r'\*|&', 'p', t.replace('const ', '').replace('pklib_xml::', '').replace(' ', ''))) for t in f['ptypes_src']) or 'void'
                    f['cname'] = base + '__' + suf


def ctype(s):
    """C++ type string -> C type string (still in abstract-declarator form)."""
    s = s.replace('pklib_xml::', '')
    s = re.sub(r'\bbool\b', '_Bool', s)
    s = re.sub(r'\b(class|enum) ', '', s)
    s = s.replace('&', '*')
    s = s.replace('::', '__')
    s = re.sub(r'\)\s*const\b', ')', s)
    if 'unnamed' in s or 'anonymous' in s or 'lambda' in s or '<' in s:
        if 'basic_ostream' in s:
            s = re.sub(r'(std__)?basic_ostream<[^>]*>', 'std_ostream', s)
        else:
            raise Unsupported('type ' + s)
    s = re.sub(r'\bstd__(ostream)\b', r'std_ostream', s)
    s = re.sub(r'\bstd__', '', s)
    for n in SYS_STRUCTS:
        s = re.sub(r'(?<!struct )\b%s\b' % n, 'struct ' + n, s)
    s = s.replace('struct struct', 'struct').replace('struct _IO_FILE', 'FILE')
    s = re.sub(r'struct __va_list_tag \*(?!\*)', 'va_list', s)
    s = re.sub(r'struct __va_list_tag\[1\]', 'va_list', s)
    s = s.replace('__builtin_va_list', 'va_list')
    return s


def qt(t, sugar=False):
    if t is None:
        raise Unsupported('no type')
    s = t.get('desugaredQualType') or t['qualType']
    if t['qualType'] in ('va_list', '__builtin_va_list', '__gnuc_va_list'):
        s = 'va_list'
    return s


def is_ref(s):
    return s.rstrip().endswith('&') or re.search(r'\(&\)', s) is not None


def decl(cty, name):
    cty = cty.strip()
    m = re.search(r'\(\*+\s*(const)?\)', cty)          # function / array pointer
    if m:
        i = m.end() - 1
        return cty[:i] + ' ' + name + cty[i:]
    m = re.match(r'^(.*?)((\[[^\]]*\])+)$', cty)
    if m:
        return m.group(1) + ' ' + name + m.group(2)
    return cty + ' ' + name


def split_params(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '(<[':
            d += 1
        if c in ')>]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def fn_type(s):
    """'R (P1, P2) const' -> (R, [P...], variadic); also for pointer-to-function 'R (*)(P..)'."""
    s = s.strip()
    s = re.sub(r'\)\s*(const|noexcept|\s)*$', ')', s)
    d = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == ')':
            d += 1
        if s[i] == '(':
            d -= 1
            if d == 0:
                break
    ps = split_params(s[i + 1:-1])
    var = bool(ps) and ps[-1] == '...'
    if var:
        ps = ps[:-1]
    if ps == ['void']:
        ps = []
    r = s[:i].strip()
    if r.endswith('(*)'):
        r = r[:-3].strip()
    return r, ps, var


class TU:
    def __init__(self, U, path, root):
        self.U, self.path, self.root = U, path, root
        self.byid = {}
        self.locate()

    def locate(self):
        """resolve clang's delta-encoded file/line on the nodes of the repository"""
        st = {'file': None, 'line': None}

        def one(l):
            if not l:
                return None
            if 'spellingLoc' in l or 'expansionLoc' in l:
                one(l.get('spellingLoc'))
                return one(l.get('expansionLoc'))
            if 'file' in l:
                st['file'] = l['file']
            if 'line' in l:
                st['line'] = l['line']
            if 'presumedFile' in l:
                st['pfile'] = l['presumedFile']
            if 'presumedLine' in l:
                st['pline'] = l['presumedLine']
            if 'offset' not in l:
                return None
            if st['file'] and st['file'].endswith('pre.ii'):
                return (st.get('pfile'), st.get('pline'))
            return (st['file'], st['line'])

        stack = [self.root]
        # document order == depth-first, loc, range.begin, range.end, then inner

        def walk(n):
            if not isinstance(n, dict):
                return
            a = one(n.get('loc')) if n.get('loc') else None
            r = n.get('range') or {}
            b = one(r.get('begin')) if r.get('begin') else None
            if r.get('end'):
                one(r['end'])
            n['_pos'] = b or a
            n['_dpos'] = a or b
            if 'id' in n and n.get('kind', '').endswith('Decl'):
                self.byid[n['id']] = n
            if n.get('kind') == 'LabelStmt' and 'declId' in n:
                self.byid[n['declId']] = n
            for c in n.get('inner', ()):
                walk(c)
        sys.setrecursionlimit(100000)
        walk(self.root)

    def in_repo(self, n):
        p = n.get('_dpos')
        return bool(p and p[0] and os.path.realpath(p[0]).startswith(self.U.repo + '/'))

    # ------------------------------------------------------------ collection
    def collect(self):
        self.scope(self.root, [])

    def scope(self, n, ns):
        last = None
        for c in n.get('inner', ()):
            k = c.get('kind')
            if k in ('NamespaceDecl',):
                self.scope(c, ns)
            elif k == 'LinkageSpecDecl':
                self.scope(c, ns)
            elif not self.in_repo(c):
                continue
            elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
                self.func(c, None)
            elif k == 'CXXRecordDecl':
                if 'name' not in c:
                    last = c
                self.record(c, '')
            elif k == 'EnumDecl':
                if 'name' not in c:
                    last = c
                else:
                    self.enum(c, '')
            elif k == 'TypedefDecl':
                if last is not None and qt(c['type']).split('::')[-1] == c['name']:
                    last['name'] = c['name']
                    (self.record if last['kind'] == 'CXXRecordDecl' else self.enum)(last, '')
                else:
                    self.typedef(c)
                last = None
            elif k == 'VarDecl':
                self.globalvar(c)

    def typedef(self, c):
        self.U.typedefs[c['name']] = c['type']

    def enum(self, c, pre):
        if 'name' not in c:
            name = '__anon_enum_' + c['id']
        else:
            name = pre + c['name']
        vals = []
        nxt = 0
        for e in c.get('inner', ()):
            if e['kind'] != 'EnumConstantDecl':
                continue
            v = None
            for x in e.get('inner', ()):
                v = self.const_of(x)
                if v is not None:
                    break
            if v is None:
                v = nxt
            vals.append((e['name'], v))
            nxt = v + 1
        und = 'int' if any(v < 0 for _, v in vals) else 'unsigned int'
        if vals and name not in self.U.enums:
            self.U.enums[name] = (und, vals)

    def const_of(self, x):
        if x.get('kind') == 'ConstantExpr' and 'value' in x:
            return int(x['value'])
        return None

    def record(self, c, pre):
        if not c.get('completeDefinition'):
            return
        if 'name' not in c:
            return
        name = pre + c['name']
        fields = []
        for m in c.get('inner', ()):
            k = m.get('kind')
            if k == 'FieldDecl':
                fields.append((m.get('name', ''), qt(m['type'])))
            elif k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
                self.func(m, name)
            elif k == 'CXXRecordDecl' and not m.get('isImplicit'):
                self.record(m, name + '__')
            elif k == 'EnumDecl':
                self.enum(m, name + '__')
            elif k == 'VarDecl':
                self.globalvar(m, name + '__')
        dd = c.get('definitionData', {})
        bases = [ctype(qt(b['type'])) for b in c.get('bases', [])]
        if name not in self.U.records:
            self.U.records[name] = dict(fields=fields, bases=bases, poly=bool(dd.get('isPolymorphic')), pos=c['_dpos'],
                                        ispod=bool(dd.get('isPOD')), union=c.get('tagUsed') == 'union')
            self.U.rec_order.append(name)

    def owner(self, c):
        """class name of a method declared or defined out of line"""
        p = c.get('parentDeclContextId')
        prev = c.get('previousDecl')
        seen = self.byid.get(prev) if prev else None
        if seen is not None and seen.get('_owner'):
            return seen['_owner']
        if p and p in self.byid:
            return self.byid[p].get('name')
        return None

    def func(self, c, owner):
        if c.get('isImplicit'):
            return
        k = c['kind']
        if k != 'FunctionDecl':
            owner = owner or self.owner(c)
            if owner is None:
                return
        c['_owner'] = owner
        m = c.get('mangledName') or c['name']
        name = c['name']
        if k == 'CXXConstructorDecl':
            base = owner + '__ctor'
        elif k == 'CXXDestructorDecl':
            base = owner + '__dtor'
        elif owner:
            base = owner + '__' + re.sub(r'\W+', '_op', name)
        else:
            base = re.sub(r'\W+', '_op', name)
        if name.startswith('operator') and not owner:
            base = 'operator_' + hashlib.md5(m.encode()).hexdigest()[:6]
        static = c.get('storageClass') == 'static'
        if k == 'FunctionDecl' and static:
            m = m + '@' + os.path.basename(self.path)
        c['_m'] = m
        parms = [p for p in c.get('inner', ()) if p['kind'] == 'ParmVarDecl']
        body = None
        for x in c.get('inner', ()):
            if x['kind'] == 'CompoundStmt':
                body = x
        inits = [x for x in c.get('inner', ()) if x['kind'] == 'CXXCtorInitializer']
        f = self.U.funcs.get(m)
        if f is None:
            f = self.U.funcs[m] = dict(base=base, kind=k, owner=owner, body=None, static=static, m=m,
                                       name=name, virtual=bool(c.get('virtual')), pure=bool(c.get('pure')), variadic=False)
        if static:
            f['static'] = True
        if c.get('virtual'):
            f['virtual'] = True
        ty = qt(c['type'])
        r, ps, var = fn_type(c['type']['qualType'])
        try:
            r2 = self.ret_type(c)
        except Unsupported:
            r2 = r
        f['ret'] = r2
        f['ptypes'] = [qt(p['type']) for p in parms]
        f['ptypes_src'] = [p['type']['qualType'] for p in parms]
        f['variadic'] = var or bool(c.get('variadic'))
        if 'defaults' not in f or any(self.default_of(p) is not None for p in parms):
            f['defaults'] = [(self, self.default_of(p)) if self.default_of(p) is not None else None for p in parms]
        if body is not None and f['body'] is None:
            f['body'] = body
            f['tu'] = self
            f['params'] = [(p.get('name') or '__p%d' % i, qt(p['type']), p['id']) for i, p in enumerate(parms)]
            f['inits'] = inits
            f['pos'] = c['_dpos']
            f['endline'] = None

    def ret_type(self, c):
        """desugared return type: clang only prints the sugared function type; resolve typedef names"""
        r, ps, var = fn_type(c['type']['qualType'])
        return self.resolve(r)

    def resolve(self, s):
        def sub(m):
            w = m.group(0)
            t = self.U.typedefs.get(w)
            if t is not None:
                d = qt(t)
                if re.search(r'[\(\[]', d):
                    return w      # leave array / function typedefs alone
                return d
            return w
        return re.sub(ID, sub, s)

    def default_of(self, p):
        for x in p.get('inner', ()):
            if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator')):
                return x
        return None

    def globalvar(self, c, pre=''):
        name = pre + c.get('name', '')
        if 'previousDecl' in c and c['previousDecl'] in self.byid and self.byid[c['previousDecl']].get('_gname'):
            name = self.byid[c['previousDecl']]['_gname']
        c['_gname'] = name
        init = None
        for x in c.get('inner', ()):
            if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator')):
                init = x
        g = self.U.globals.get(name)
        if g is None:
            g = self.U.globals[name] = dict(type=qt(c['type']), init=None, tu=self, ext=True)
        if init is not None:
            g['init'] = init
            g['tu'] = self
            g['type'] = qt(c['type'])
        if c.get('storageClass') != 'extern':
            g['ext'] = False
        g.setdefault('file', os.path.basename(self.path))


# ==================================================================== emission
class Emit:
    def __init__(self, U, contracts=None, lines=True):
        self.U = U
        self.contracts = contracts or {}
        self.lines = lines
        self.need_funcs = []
        self.done = {}
        self.need_globals = []
        self.need_records = []
        self.ext_funcs = {}      # name -> prototype for extern repo functions without a body
        self.cur = None
        self.loops = {}          # cname -> list of loops (line, kind, locals in scope)
        self.localnames = {}     # cname -> set of local names
        self.dropped = {}
        self.unsupported = {}
        self.mk = 0

    # -------------------------------------------------------------- helpers
    def T(self, s):
        s = self.cur_tu.resolve_types(s) if hasattr(self, 'cur_tu') and hasattr(self.cur_tu, 'resolve_types') else s
        c = ctype(s)
        c = self.rec(c)
        return c

    def rec(self, c):
        def sub(m):
            w = m.group(0)
            if w in self.U.records:
                self.want_rec(w)
                return 'struct ' + w
            # nested records
            if w in self.U.enums:
                return w
            t = self.U.typedefs.get(w)
            if t is not None and w not in ('int8_t',):
                self.want_typedef(w)
                return w
            return w
        c = re.sub(r'(?<!struct )\b' + ID + r'\b', sub, c)
        return c.replace('struct struct', 'struct')

    def want_rec(self, w):
        if w not in self.need_records:
            self.need_records.append(w)

    def want_typedef(self, w):
        self._tds = getattr(self, '_tds', [])
        if w not in self._tds:
            self._tds.append(w)

    def want(self, f):
        m = f['m']
        if m not in self.done:
            self.done[m] = None
            self.need_funcs.append(f)
        return f['cname']

    def func_of(self, d):
        """function record for a referencedDecl-like dict"""
        full = self.tu.byid.get(d['id'])
        if full is None:
            return None, None
        m = full.get('_m')
        if m and m in self.U.funcs:
            return self.U.funcs[m], full
        return None, full

    # -------------------------------------------------------------- functions
    def proto(self, f, names=True):
        ps = []
        save = getattr(self, 'tu', None)
        if not f['static'] and f['owner']:
            self.want_rec(f['owner'])
            ps.append('struct %s *self' % f['owner'])
        pl = f.get('params') or [('p%d' % i, t, None) for i, t in enumerate(f['ptypes'])]
        for n, t, _ in pl:
            ps.append(decl(self.T(t), self.ident(n)))
        if f['variadic']:
            ps.append('...')
        if f['kind'] in ('CXXConstructorDecl', 'CXXDestructorDecl'):
            r = 'void'
        else:
            r = self.T(f['ret'])
        return decl(r, '%s(%s)' % (f['cname'], ', '.join(ps) or 'void'))

    def ident(self, n):
        return n + '_' if n in ('self', 'restrict', 'register_', '_Bool') else n

    def function(self, f):
        self.tu = f.get('tu')
        self.cur = f['cname']
        self.curf = f
        self.refs = {}
        self.loops[self.cur] = []
        self.localnames[self.cur] = set(n for n, _, _ in f.get('params', []))
        out = []
        for n, t, i in f.get('params', []):
            if is_ref(t):
                self.refs[i] = True
        body = self.compound(f['body'], 0)
        pre = ''
        if f['kind'] == 'CXXConstructorDecl':
            pre = self.ctor_inits(f)
        con = self.contracts.get(self.cur)
        ctext = ''
        if con and con.get('clauses'):
            ctext = '\n' + '\n'.join(self.bind(con['clauses'], f))
        text = '#ifndef VH_REPL_%s\n' % self.cur + self.line(f['body']) + self.proto(f) + ctext + '\n{\n' + pre + body + '}\n#endif\n'
        return text

    def bind(self, clauses, f):
        names = [n for n, _, _ in f.get('params', [])]

        def sub(m):
            i = int(m.group(1))
            if i == 0:
                return 'self'
            if i > len(names):
                raise Unsupported('contract of %s needs parameter %d' % (f['cname'], i))
            return self.ident(names[i - 1])
        return [re.sub(r'\$(\d+)', sub, c) for c in clauses]

    def ctor_inits(self, f):
        s = ''
        for x in f['inits']:
            inner = x.get('inner', [])
            ex = inner[0] if inner else None
            if 'anyInit' in x:
                fld = x['anyInit']['name']
                if ex is None:
                    continue
                if ex['kind'] == 'CXXConstructExpr':
                    t = ctype(qt(ex['type']))
                    s += self.construct_into('&self->%s' % fld, ex, t)
                else:
                    s += 'self->%s = %s;\n' % (fld, self.expr(ex))
            elif 'baseInit' in x:
                t = ctype(qt(x['baseInit']))
                if ex is not None and ex['kind'] == 'CXXConstructExpr':
                    s += self.construct_into('&self->__base', ex, t)
            else:
                raise Unsupported('ctor init')
        return s

    def construct_into(self, ptr, ex, t):
        """call the constructor of ex for the object at ptr; '' when trivial"""
        args = ex.get('inner', [])
        rec = self.U.records.get(t)
        cands = [g for g in self.U.funcs.values() if g['owner'] == t and g['kind'] == 'CXXConstructorDecl']
        want = fn_type(ex['ctorType']['qualType'])[1] if 'ctorType' in ex else None
        cands2 = [g for g in cands if want is not None and [self.norm(p) for p in g['ptypes_src']] == [self.norm(p) for p in want]]
        if not cands2:
            if len(args) == 1 and not cands:
                return '*(%s) = %s;\n' % (ptr, self.expr(args[0]))
            if len(args) == 1 and want and ctype(want[0]).replace('const', '').replace('*', '').strip() == t:
                return '*(%s) = %s;\n' % (ptr, self.expr(args[0]))
            return ''
        g = cands2[0]
        return '%s(%s);\n' % (self.want(g), ', '.join([ptr] + self.args(args, g['ptypes'], g)))

    def norm(self, s):
        return re.sub(r'\s+', '', s.replace('pklib_xml::', ''))

    def line(self, n):
        p = n.get('_pos')
        if not self.lines or not p or not p[0]:
            return ''
        return '\n#line %d "%s"\n' % (p[1] or 0, p[0])

    # -------------------------------------------------------------- statements
    def compound(self, n, ind):
        return ''.join(self.stmt(c) for c in n.get('inner', ()))

    def block(self, n):
        if n.get('kind') == 'CompoundStmt':
            return '{\n' + self.compound(n, 0) + '}\n'
        return '{\n' + self.stmt(n) + '}\n'

    def stmt(self, n):
        k = n.get('kind')
        if k == 'CompoundStmt':
            return '{\n' + self.compound(n, 0) + '}\n'
        L = self.line(n)
        if k == 'NullStmt':
            return ';\n'
        if k == 'DeclStmt':
            return L + ''.join(self.localdecl(d) for d in n['inner'])
        if k == 'ReturnStmt':
            inner = n.get('inner', [])
            if not inner:
                return L + 'return;\n'
            if is_ref(self.curf['ret']):
                return L + 'return %s;\n' % self.addr(inner[0])
            return L + 'return %s;\n' % self.expr(inner[0])
        if k == 'IfStmt':
            inner = list(n['inner'])
            pre = ''
            if n.get('hasInit') or n.get('hasVar'):
                pre = self.stmt(inner.pop(0))
            s = L + 'if (%s) ' % self.cond(inner[0]) + self.block(inner[1])
            if n.get('hasElse'):
                s += 'else ' + self.block(inner[2])
            return ('{\n' + pre + s + '}\n') if pre else s
        if k == 'WhileStmt':
            inner = n['inner']
            if n.get('hasVar'):
                raise Unsupported('while with declaration')
            lid = self.newloop(n)
            return L + self.loop_pre(lid) + 'while (%s)%s ' % (self.cond(inner[0]), self.loop_contract(lid)) + self.block(inner[1])
        if k == 'DoStmt':
            inner = n['inner']
            # do { ... } while(0) is not a loop
            c0 = self.strip(inner[1])
            if c0['kind'] in ('IntegerLiteral', 'CXXBoolLiteralExpr') and str(c0.get('value')) in ('0', 'False', 'false'):
                if not self.has_break(inner[0]):
                    return self.block(inner[0])
            lid = self.newloop(n)
            return L + self.loop_pre(lid) + 'do ' + self.block(inner[0]) + 'while (%s)%s;\n' % (self.cond(inner[1]), self.loop_contract(lid))
        if k == 'ForStmt':
            init, cv, cnd, inc, body = n['inner']
            if cv.get('kind'):
                raise Unsupported('for with condition variable')
            s = '{\n' + (self.stmt(init) if init.get('kind') else '')
            lid = self.newloop(n)
            c = self.cond(cnd) if cnd.get('kind') else '1'
            i = self.expr(inc) if inc.get('kind') else ''
            s += L + self.loop_pre(lid) + 'for (; %s; %s)%s ' % (c, i, self.loop_contract(lid)) + self.block(body) + '}\n'
            return s
        if k == 'BreakStmt':
            return L + 'break;\n'
        if k == 'ContinueStmt':
            return L + 'continue;\n'
        if k == 'SwitchStmt':
            inner = n['inner']
            if n.get('hasInit') or n.get('hasVar'):
                raise Unsupported('switch with declaration')
            return L + 'switch (%s) ' % self.expr(inner[0]) + self.block(inner[1])
        if k == 'CaseStmt':
            inner = n['inner']
            return 'case %s: ;\n' % self.expr(inner[0]) + self.stmt(inner[-1])
        if k == 'DefaultStmt':
            return 'default: ;\n' + self.stmt(n['inner'][0])
        if k == 'GotoStmt':
            return L + 'goto %s;\n' % self.tu.byid.get(n.get('targetLabelDeclId'), {}).get('name', 'L')
        if k == 'LabelStmt':
            return '%s: ;\n' % n['name'] + self.stmt(n['inner'][0])
        if k == 'AttributedStmt':
            return self.stmt(n['inner'][-1])
        # expression statement
        if self.is_stream(n):
            root = self.stream_root(n)
            if root in ('cerr', 'cout', 'clog'):
                self.dropped[self.cur] = self.dropped.get(self.cur, 0) + 1
                return '/* stream output dropped */;\n'
            return L + self.stream_stmt(n)
        return L + self.expr(n) + ';\n'

    def has_break(self, n):
        k = n.get('kind')
        if k in ('BreakStmt', 'ContinueStmt'):
            return True
        if k in ('WhileStmt', 'DoStmt', 'ForStmt'):
            return False
        if k == 'SwitchStmt':
            return self.has_continue(n)
        return any(self.has_break(c) for c in n.get('inner', ()) if isinstance(c, dict))

    def has_continue(self, n):
        k = n.get('kind')
        if k == 'ContinueStmt':
            return True
        if k in ('WhileStmt', 'DoStmt', 'ForStmt'):
            return False
        return any(self.has_continue(c) for c in n.get('inner', ()) if isinstance(c, dict))

    def newloop(self, n):
        l = self.loops[self.cur]
        l.append(dict(line=(n.get('_pos') or (None, 0))[1], kind=n['kind'], node=n))
        return len(l)

    def loop_contract(self, i):
        con = self.contracts.get(self.cur)
        if con and i in con.get('loops', {}):
            c = con['loops'][i]
            self.mk += 1
            if any('$LOCALS' in x for x in c):
                loc = self.assigned_locals(self.loops[self.cur][i - 1]['node'])
                c = [x.replace('$LOCALS', ', '.join(loc)).replace(', )', ')').replace('(, ', '(') for x in c]
            return '\n#ifdef VH_LC_%s\n' % self.cur + '\n'.join(self.bind(c, self.curf)) + '\n#endif\n'
        return ''

    def assigned_locals(self, loop):
        """locals declared outside the loop which it assigns directly"""
        inside, names = set(), []
        params = set(n for n, _, _ in self.curf.get('params', []))

        def decls(n):
            if n.get('kind') == 'VarDecl':
                inside.add(n['id'])
            for c in n.get('inner', ()):
                if isinstance(c, dict):
                    decls(c)

        def walk(n):
            k = n.get('kind')
            if (k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('opcode', '').endswith('=') and n.get('opcode') not in ('==', '!=', '<=', '>=')) or \
               (k == 'UnaryOperator' and n.get('opcode') in ('++', '--')):
                l = self.strip(n['inner'][0])
                if l.get('kind') == 'DeclRefExpr':
                    d = l.get('referencedDecl', {})
                    if d.get('kind') == 'VarDecl' and d.get('id') not in inside and self.ident(d['name']) not in names and d['name'] not in params:
                        names.append(self.ident(d['name']))
            for c in n.get('inner', ()):
                if isinstance(c, dict):
                    walk(c)
        decls(loop)
        walk(loop)
        return names

    def loop_pre(self, i):
        con = self.contracts.get(self.cur)
        if con and i in con.get('ghosts', {}):
            return '\n'.join(self.bind(con['ghosts'][i], self.curf)) + '\n'
        return ''

    def localdecl(self, d):
        k = d['kind']
        if k in ('TypedefDecl', 'UsingDecl', 'UsingDirectiveDecl', 'EmptyDecl', 'TypeAliasDecl'):
            return ''
        if k == 'CXXRecordDecl':
            raise Unsupported('local record')
        if k != 'VarDecl':
            raise Unsupported('local ' + k)
        name = self.ident(d['name'])
        self.localnames[self.cur].add(name)
        t = qt(d['type'])
        init = None
        for x in d.get('inner', ()):
            if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups')):
                init = x
        if is_ref(t):
            self.refs[d['id']] = True
            return '%s = %s;\n' % (decl(self.T(t), name), self.addr(init))
        st = 'static ' if d.get('storageClass') == 'static' else ''
        ct = self.T(t)
        # C forbids uninitialised const use in some forms; const on locals is irrelevant to behaviour
        if init is None:
            return st + decl(ct, name) + ';\n'
        i0 = self.strip_temps(init)
        if i0['kind'] == 'CXXConstructExpr' and ctype(t) in self.U.records or (i0['kind'] == 'CXXConstructExpr'):
            return decl(ct, name) + ';\n' + self.construct_into('&' + name, i0, ctype(t).replace('const ', ''))
        if st and not self.is_const(i0):
            return '%s%s; static _Bool %s__once; if (!%s__once) { %s__once = 1; %s = %s; }\n' % (
                st, decl(ct, name), name, name, name, name, self.init(i0))
        return st + decl(ct, name) + ' = ' + self.init(i0) + ';\n'

    def is_const(self, n):
        k = n.get('kind', '')
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXNewExpr', 'CXXThisExpr', 'CXXOperatorCallExpr'):
            return False
        if k == 'DeclRefExpr' and n['referencedDecl']['kind'] in ('VarDecl', 'ParmVarDecl'):
            return 'const' in qt(n['type'])
        return all(self.is_const(c) for c in n.get('inner', ()) if isinstance(c, dict))

    def init(self, n):
        if n['kind'] == 'InitListExpr':
            xs = n.get('inner') or []
            rt = ctype(qt(n['type'])).replace('const ', '')
            if rt in self.U.records:
                fl = self.U.records[rt]['fields']
                return '{' + ', '.join(self.addr(x) if i < len(fl) and is_ref(fl[i][1]) else self.init(x) for i, x in enumerate(xs)) + '}'
            if n.get('array_filler'):
                xs = [x for x in n['array_filler'] if x.get('kind') not in ('ImplicitValueInitExpr',)] if not xs else xs
            return '{' + (', '.join(self.init(x) for x in xs) or '0') + '}'
        if n['kind'] == 'ImplicitValueInitExpr':
            return '{0}' if re.search(r'\[|^(const )?(struct )?[A-Z]\w+$', ctype(qt(n['type']))) and ctype(qt(n['type'])).replace('const ', '') in self.U.records else '0'
        if n['kind'] in ('ExprWithCleanups', 'ConstantExpr', 'MaterializeTemporaryExpr') and n.get('inner'):
            return self.init(n['inner'][0])
        return self.expr(n)

    # -------------------------------------------------------------- streams
    def is_stream(self, n):
        if n.get('kind') in ('ExprWithCleanups', 'ParenExpr', 'MaterializeTemporaryExpr'):
            return self.is_stream(n['inner'][0])
        t = n.get('type', {}).get('qualType', '')
        t2 = n.get('type', {}).get('desugaredQualType', '')
        return 'basic_ostream' in t or 'ostream' in t.split('::')[-1].split(' ')[0] or 'basic_ostream' in t2

    def stream_root(self, n):
        while True:
            k = n.get('kind')
            if k == 'CXXOperatorCallExpr':
                n = n['inner'][1]
            elif k in ('ExprWithCleanups', 'ParenExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr'):
                n = n['inner'][0]
            elif k == 'CXXMemberCallExpr':
                n = n['inner'][0]['inner'][0]
            elif k == 'DeclRefExpr':
                return n['referencedDecl']['name']
            elif k == 'CallExpr':
                return '?'
            else:
                return '?'

    def stream_stmt(self, n):
        """os << a << b;   ->   os_put_X(os,a); os_put_Y(os,b);"""
        ops = []
        while True:
            k = n.get('kind')
            if k in ('ExprWithCleanups', 'ParenExpr', 'MaterializeTemporaryExpr'):
                n = n['inner'][0]
            elif k == 'ImplicitCastExpr' and self.is_stream(n['inner'][0]):
                n = n['inner'][0]
            elif k == 'CXXOperatorCallExpr':
                ops.append(n['inner'][2])
                n = n['inner'][1]
            else:
                break
        if n['kind'] in ('DeclRefExpr', 'MemberExpr', 'UnaryOperator'):
            os_ = self.addr(n)
        else:
            raise Unsupported('stream expression')
        s = ''
        for a in reversed(ops):
            t = qt(a['type'])
            a0 = self.strip(a)
            if a0.get('kind') == 'DeclRefExpr' and a0['referencedDecl'].get('kind') == 'FunctionDecl':
                s += 'os_manip(%s,"%s");\n' % (os_, a0['referencedDecl']['name'])
                continue
            c = ctype(t).replace('const ', '').strip()
            if c in ('char *',) or re.match(r'char\[', c) or c == 'char const *':
                s += 'os_put_str(%s,%s);\n' % (os_, self.expr(a))
            elif c == 'char':
                s += 'os_put_char(%s,%s);\n' % (os_, self.expr(a))
            elif c in ('double', 'float'):
                s += 'os_put_double(%s,%s);\n' % (os_, self.expr(a))
            elif c in ('int', 'short', 'long', 'long long', '_Bool'):
                s += 'os_put_int(%s,%s);\n' % (os_, self.expr(a))
            elif c in ('unsigned char', 'signed char'):
                s += 'os_put_char(%s,(char)(%s));\n' % (os_, self.expr(a))
            elif c in ('unsigned int', 'unsigned long', 'unsigned short', 'unsigned long long') or c in self.U.enums:
                s += 'os_put_uint(%s,%s);\n' % (os_, self.expr(a))
            elif c in ('_Setw', '_Setfill', '_Setprec'):
                s += 'os_manip(%s,"%s");\n' % (os_, c)
            else:
                raise Unsupported('stream operand ' + c)
        return s

    # -------------------------------------------------------------- expressions
    def strip(self, n):
        while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'ConstantExpr', 'MaterializeTemporaryExpr',
                                'CXXBindTemporaryExpr') and n.get('inner'):
            n = n['inner'][0]
        return n

    def strip_temps(self, n):
        while n.get('kind') in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr') and n.get('inner'):
            n = n['inner'][0]
        if n.get('kind') == 'CXXConstructExpr' and n.get('elidable') and n.get('inner'):
            return self.strip_temps(n['inner'][0])
        return n

    def cond(self, n):
        return self.expr(n)

    def addr(self, n):
        """pointer to the lvalue n (used to bind references)"""
        n0 = n
        while n0.get('kind') in ('ParenExpr', 'ExprWithCleanups') or (n0.get('kind') == 'ImplicitCastExpr' and n0.get('castKind') == 'NoOp'):
            n0 = n0['inner'][0]
        if n0.get('kind') == 'MaterializeTemporaryExpr':
            t = self.T(qt(n0['type']))
            return '(&(%s){%s})' % (t, self.expr(n0['inner'][0]))
        e = self.expr(n0)
        m = re.match(r'^\(\*(' + ID + r')\)$', e)
        if m:
            return m.group(1)
        return '(&%s)' % e

    def args(self, args, ptypes, f=None):
        out = []
        for i, a in enumerate(args):
            if a.get('kind') == 'CXXDefaultArgExpr':
                d = f['defaults'][i] if f and f.get('defaults') and i < len(f['defaults']) else None
                if d is None:
                    raise Unsupported('default argument')
                save = self.tu
                self.tu = d[0]
                out.append(self.expr(d[1]))
                self.tu = save
                continue
            if i < len(ptypes) and is_ref(ptypes[i]):
                out.append(self.addr(a))
            else:
                out.append(self.expr(a))
        return out

    def expr(self, n):
        k = n.get('kind')
        m = getattr(self, 'e_' + str(k), None)
        if m is None:
            raise Unsupported('expression ' + str(k))
        return m(n)

    def e_ParenExpr(self, n):
        return '(%s)' % self.expr(n['inner'][0])

    def e_ExprWithCleanups(self, n):
        return self.expr(n['inner'][0])

    e_MaterializeTemporaryExpr = e_ExprWithCleanups
    e_CXXBindTemporaryExpr = e_ExprWithCleanups
    e_SubstNonTypeTemplateParmExpr = e_ExprWithCleanups

    def e_ConstantExpr(self, n):
        if 'value' in n and re.match(r'^-?\d+$', str(n['value'])):
            return '(%s)' % n['value']
        return self.expr(n['inner'][0])

    def e_IntegerLiteral(self, n):
        t = qt(n['type'])
        suf = {'unsigned int': 'u', 'long': 'l', 'unsigned long': 'ul', 'long long': 'll', 'unsigned long long': 'ull'}.get(t, '')
        return n['value'] + suf

    def e_FloatingLiteral(self, n):
        v = n['value']
        if not re.search(r'[.eE]', v):
            v += '.0'
        return v + ('f' if qt(n['type']) == 'float' else '')

    def e_CharacterLiteral(self, n):
        v = n['value']
        if qt(n['type']) == 'char' and v > 127 and v < 256:
            v -= 256
        return '((char)%d)' % v

    def e_CXXBoolLiteralExpr(self, n):
        return '1' if n['value'] else '0'

    def e_CXXNullPtrLiteralExpr(self, n):
        return '((void*)0)'

    def e_SourceLocExpr(self, n):
        return '0' if 'char' not in qt(n['type']) else '"src"'

    def e_StmtExpr(self, n):
        return '({ %s })' % self.compound(n['inner'][0], 0)

    def e_GNUNullExpr(self, n):
        return '0'

    def e_StringLiteral(self, n):
        return n['value']

    def e_PredefinedExpr(self, n):
        return self.expr(n['inner'][0]) if n.get('inner') else '"%s"' % self.cur

    def e_CXXThisExpr(self, n):
        return 'self'

    def e_ImplicitValueInitExpr(self, n):
        return '0'

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        k = d['kind']
        if k == 'EnumConstantDecl':
            self.note_enum(d)
            return d['name']
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            f, full = self.func_of(d)
            if f is not None:
                return self.want(f)
            return d['name']
        if k in ('VarDecl', 'ParmVarDecl'):
            if d['id'] in self.refs:
                return '(*%s)' % self.ident(d['name'])
            full = self.tu.byid.get(d['id'])
            if full is not None and full.get('_gname') and full['_gname'] in self.U.globals:
                g = full['_gname']
                if g not in self.need_globals:
                    self.need_globals.append(g)
                return g
            return self.ident(d['name'])
        raise Unsupported('reference to ' + k)

    def note_enum(self, d):
        pass

    def e_MemberExpr(self, n):
        b = n['inner'][0]
        md = self.tu.byid.get(n.get('referencedMemberDecl'))
        if md is not None and md.get('kind') in ('VarDecl',):
            g = md.get('_gname')
            if g and g not in self.need_globals:
                self.need_globals.append(g)
            return g
        if md is not None and md.get('kind') == 'EnumConstantDecl':
            return md['name']
        e = '%s%s%s' % (self.paren(self.expr(b)), '->' if n.get('isArrow') else '.', n['name'])
        if md is not None and md.get('kind') == 'FieldDecl' and is_ref(qt(md['type'])):
            return '(*%s)' % e
        return e

    def paren(self, s):
        if re.match(r'^' + ID + r'$', s) or (s.startswith('(') and s.endswith(')') and self.balanced(s)):
            return s
        return '(%s)' % s

    def balanced(self, s):
        d = 0
        for i, c in enumerate(s):
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0 and i != len(s) - 1:
                    return False
            elif c in '"\'':
                return False
        return True

    def e_ArraySubscriptExpr(self, n):
        return '%s[%s]' % (self.paren(self.expr(n['inner'][0])), self.expr(n['inner'][1]))

    def e_UnaryOperator(self, n):
        op = n['opcode']
        e = self.expr(n['inner'][0])
        if op == '&':
            f = self.strip(n['inner'][0])
            return '(&%s)' % self.paren(e)
        if op == '__extension__':
            return e
        if n.get('isPostfix'):
            return '(%s%s)' % (self.paren(e), op)
        return '(%s%s)' % (op, self.paren(e))

    def e_BinaryOperator(self, n):
        a, b = n['inner']
        op = n['opcode']
        if op == ',':
            return '(%s, %s)' % (self.expr(a), self.expr(b))
        if op in ('.*', '->*'):
            raise Unsupported(op)
        if op in '/%' and ctype(qt(n['type'])) in ('unsigned long', 'unsigned long long'):
            return 'VH_U%s(%s, %s)' % ('DIV' if op == '/' else 'MOD', self.expr(a), self.expr(b))
        return '(%s %s %s)' % (self.expr(a), op, self.expr(b))

    def e_CompoundAssignOperator(self, n):
        a, b = n['inner']
        if n['opcode'] in ('/=', '%=') and ctype(qt(a['type'])) in ('unsigned long', 'unsigned long long') and self.strip(a).get('kind') == 'DeclRefExpr':
            return '(%s = VH_U%s(%s, %s))' % (self.expr(a), 'DIV' if n['opcode'] == '/=' else 'MOD', self.expr(a), self.expr(b))
        return '(%s %s %s)' % (self.expr(a), n['opcode'], self.expr(b))

    def e_ConditionalOperator(self, n):
        a, b, c = n['inner']
        return '(%s ? %s : %s)' % (self.expr(a), self.expr(b), self.expr(c))

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        i = n['inner'][0]
        e = self.expr(i)
        if ck in ('LValueToRValue', 'NoOp', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'ToVoid', 'ConstructorConversion', 'UserDefinedConversion'):
            return e
        if ck == 'NullToPointer':
            return '((%s)0)' % self.T(qt(n['type']))
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return '(%s != 0)' % self.paren(e)
        if ck in ('IntegralCast', 'FloatingCast', 'IntegralToFloating', 'FloatingToIntegral', 'BitCast', 'PointerToIntegral', 'IntegralToPointer'):
            return '((%s)%s)' % (self.T(qt(n['type'])), self.paren(e))
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived'):
            t = qt(n['type'])
            if t.rstrip().endswith('*'):
                return '((%s)%s)' % (self.T(t), self.paren(e))
            return '(*(%s *)%s)' % (self.T(t), self.addr(i))
        raise Unsupported('cast ' + str(ck))

    def explicit(self, n):
        ck = n.get('castKind')
        i = n['inner'][0]
        t = qt(n['type'])
        if ck == 'ToVoid':
            return '((void)%s)' % self.paren(self.expr(i))
        if ck == 'LValueBitCast':
            return '(*(%s *)%s)' % (self.T(t), self.addr(i))
        if ck == 'ConstructorConversion':
            return self.expr(i)
        if ck == 'NoOp' and n.get('valueCategory') == 'lvalue':
            return self.expr(i)
        if ck == 'BaseToDerived' or ck == 'DerivedToBase':
            if t.rstrip().endswith('*'):
                return '((%s)%s)' % (self.T(t), self.paren(self.expr(i)))
            return '(*(%s *)%s)' % (self.T(t), self.addr(i))
        ct = self.T(t)
        if re.search(r'\[\d*\]$', ct):
            return self.expr(i)
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return '(%s != 0)' % self.paren(self.expr(i))
        return '((%s)%s)' % (ct, self.paren(self.expr(i)))

    e_CStyleCastExpr = explicit
    e_CXXReinterpretCastExpr = explicit
    e_CXXStaticCastExpr = explicit
    e_CXXConstCastExpr = explicit
    e_CXXFunctionalCastExpr = explicit

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n['name'] != 'sizeof':
            raise Unsupported(n['name'])
        if 'argType' in n:
            return 'sizeof(%s)' % self.T(qt(n['argType']))
        return 'sizeof(%s)' % self.expr(n['inner'][0])

    def e_CallExpr(self, n):
        callee = n['inner'][0]
        c0 = self.strip(callee)
        if c0.get('kind') == 'DeclRefExpr' and c0['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            d = c0['referencedDecl']
            f, full = self.func_of(d)
            if f is not None:
                e = '%s(%s)' % (self.want(f), ', '.join(self.args(n['inner'][1:], f['ptypes'], f)))
                return self.retref(e, f)
            name = d['name']
            fm = self.printf(name, n['inner'][1:])
            if fm is not None:
                return fm
            a = [self.expr(x) for x in n['inner'][1:]]
            if name == '__assert_fail':
                return '__assert_fail(%s)' % ', '.join(a)
            return '%s(%s)' % (name, ', '.join(a))
        # call through pointer
        t = c0.get('type', {})
        s = t.get('desugaredQualType') or t.get('qualType', '')
        s2 = callee.get('type', {})
        s2 = s2.get('desugaredQualType') or s2.get('qualType', '')
        r, ps, var = fn_type(s2)
        return '%s(%s)' % (self.paren(self.expr(callee)), ', '.join(self.args(n['inner'][1:], ps)))

    PF = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'fflush': None, 'perror': None, 'puts': None, 'fputs': None}

    def printf(self, name, args):
        """printf family: terminal output is dropped; sprintf/snprintf with a literal format become a sequence of
        calls to the formatting models of cprelude.h (one per directive)"""
        if name not in self.PF:
            return None
        if name in ('printf', 'perror', 'puts', 'fflush') or (name in ('fprintf', 'fputs') and self.strip(args[-1 if name == 'fputs' else 0]).get('referencedDecl', {}).get('name') in ('stderr', 'stdout')):
            self.dropped[self.cur] = self.dropped.get(self.cur, 0) + 1
            return '((int)0)'
        if name not in ('sprintf', 'snprintf'):
            return None
        k = self.PF[name]
        fmt = self.strip(args[k])
        if fmt.get('kind') != 'StringLiteral':
            return None
        try:
            f = json.loads(fmt['value'])
        except Exception:
            raise Unsupported('format ' + fmt['value'])
        rest = list(args[k + 1:])
        s = ['__fmt_begin(%s,%s)' % (self.expr(args[0]), '0xffffffffUL' if name == 'sprintf' else self.expr(args[1]))]
        pos = 0
        for m in re.finditer(r'%(0?)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j)?([a-zA-Z%])', f):
            lit = f[pos:m.start()]
            pos = m.end()
            if lit:
                s.append('__fmt_lit(%s,%d)' % (json.dumps(lit), len(lit)))
            z, w, pr, ln, cv = m.groups()
            if cv == '%':
                s.append('__fmt_lit("%",1)')
                continue
            if not rest:
                raise Unsupported('format ' + f)
            a = self.expr(rest.pop(0))
            w = w or '0'
            if cv in 'di' and pr is None:
                s.append('__fmt_int((long)(%s),%s,%s)' % (a if ln in ('l', 'll', 'j', 'z') else '(int)(%s)' % a, w, '1' if z else '0'))
            elif cv == 'u' and pr is None:
                s.append('__fmt_uint((unsigned long)(%s),%s,%s)' % (a if ln in ('l', 'll', 'j', 'z') else '(unsigned)(%s)' % a, w, '1' if z else '0'))
            elif cv in 'xX' and pr is None:
                s.append('__fmt_hex((unsigned long)(%s),%s,%s,%d)' % (a if ln in ('l', 'll', 'j', 'z') else '(unsigned)(%s)' % a, w, '1' if z else '0', cv == 'X'))
            elif cv == 's' and pr is None and w == '0':
                s.append('__fmt_str(%s)' % a)
            elif cv == 'c':
                s.append('__fmt_chr(%s)' % a)
            elif cv in 'fgeFGE':
                s.append('__fmt_dbl((double)(%s))' % a)
            else:
                raise Unsupported('format ' + f)
        if '%' in f[pos:] or rest:
            raise Unsupported('format ' + f)
        if f[pos:]:
            s.append('__fmt_lit(%s,%d)' % (json.dumps(f[pos:]), len(f[pos:])))
        s.append('__fmt_end()')
        return '(%s)' % ', '.join(s)

    def retref(self, e, f):
        if is_ref(f['ret']):
            return '(*%s)' % e
        return e

    def e_CXXMemberCallExpr(self, n):
        me = n['inner'][0]
        while me.get('kind') == 'ParenExpr':
            me = me['inner'][0]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call')
        d = {'id': me.get('referencedMemberDecl')}
        f, full = self.func_of(d)
        if f is None:
            raise Unsupported('member call to ' + me.get('name', '?'))
        b = me['inner'][0]
        obj = self.expr(b) if me.get('isArrow') else self.addr(b)
        if f['static']:
            a = []
        else:
            a = [obj]
        e = '%s(%s)' % (self.want(f), ', '.join(a + self.args(n['inner'][1:], f['ptypes'], f)))
        return self.retref(e, f)

    def e_CXXOperatorCallExpr(self, n):
        c0 = self.strip(n['inner'][0])
        name = c0.get('referencedDecl', {}).get('name', '')
        if name == 'operator=':
            return '(%s = %s)' % (self.expr(n['inner'][1]), self.expr(n['inner'][2]))
        raise Unsupported(name)

    def e_CXXConstructExpr(self, n):
        a = n.get('inner', [])
        t = ctype(qt(n['type'])).replace('const ', '')
        if len(a) == 1 and ctype(qt(a[0]['type'])).replace('const ', '') == t:
            return self.expr(a[0])
        raise Unsupported('construct ' + t)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXNewExpr(self, n):
        t = qt(n['type'])
        el = self.T(re.sub(r'\*$', '', t).strip())
        inner = n.get('inner', [])
        if n.get('isArray'):
            sz = self.expr(inner[0])
            return '((%s)__verif_new(sizeof(%s) * (unsigned long)(%s)))' % (self.T(t), el, sz)
        cons = [x for x in inner if x.get('kind') == 'CXXConstructExpr']
        if cons:
            cl = ctype(re.sub(r'\*$', '', t).strip())
            cands = self.construct_into('__o', cons[0], cl)
            self._news = getattr(self, '_news', [])
            return '({ %s __o = (%s)__verif_new(sizeof(%s)); %s __o; })' % (decl(self.T(t), ''), self.T(t), el, cands)
        init = [x for x in inner if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
        if init:
            return '({ %s = (%s)__verif_new(sizeof(%s)); *__o = %s; __o; })' % (decl(self.T(t), '__o'), self.T(t), el, self.expr(init[0]))
        return '((%s)__verif_new(sizeof(%s)))' % (self.T(t), el)

    def e_CXXDeleteExpr(self, n):
        i = n['inner'][0]
        e = self.expr(i)
        t = ctype(qt(self.strip(i)['type'])).replace('const ', '').replace('*', '').strip()
        if t in self.U.records:
            ds = [g for g in self.U.funcs.values() if g['owner'] == t and g['kind'] == 'CXXDestructorDecl' and g['body'] is not None]
            if ds:
                return '({ struct %s *__d = %s; if (__d) { %s(__d); free(__d); } })' % (t, e, self.want(ds[0]))
        return 'free((void*)%s)' % self.paren(e)

    def e_VAArgExpr(self, n):
        return '__builtin_va_arg(%s, %s)' % (self.expr(n['inner'][0]), self.T(qt(n['type'])))

    def e_InitListExpr(self, n):
        return '(%s)%s' % (self.T(qt(n['type'])), self.init(n))

    def e_CXXDefaultArgExpr(self, n):
        raise Unsupported('default arg')

    # -------------------------------------------------------------- program
    def roots(self, names):
        idx = {f['cname']: f for f in self.U.funcs.values()}
        for r in names:
            if r not in idx:
                raise Unsupported('function %s not found in /repo' % r)
            self.want(idx[r])

    def program(self, roots, opaque=()):
        """C text with all functions reachable from roots; functions in `opaque` get no body"""
        self.roots(roots)
        bodies, protos, nprotos = [], [], []
        i = 0
        self.emitted = []
        while i < len(self.need_funcs):
            f = self.need_funcs[i]
            i += 1
            self.tu = f.get('tu') or next(iter([]), None)
            self.refs = {}
            if f['body'] is None or f['cname'] in opaque:
                self.curf = f
                self.cur = f['cname']
                protos.append(self.proto(f) + ';')
                nprotos.append((self.proto(f), f['m']))
                self.ext_funcs[f['cname']] = 1
                continue
            try:
                t = self.function(f)
                bodies.append(t)
                protos.append(self.proto(f) + ';')
                nprotos.append((self.proto(f), f['base'] if f['tu'].path.endswith('.c') else f['m']))
                self.emitted.append(f['cname'])
            except Unsupported as e:
                self.unsupported[f['cname']] = str(e)
                protos.append(self.proto(f) + ';')
                nprotos.append((self.proto(f), f['m']))
                self.ext_funcs[f['cname']] = 1
        gl, glp = [], []
        def tent(ct, g):
            glp.append('extern ' + decl(ct, g) + ';')
        j = 0
        while j < len(self.need_globals):
            g = self.need_globals[j]
            j += 1
            v = self.U.globals[g]
            self.tu = v['tu']
            self.refs = {}
            self.cur = '<global>'
            ct = self.T(v['type'])
            self.loops['<global>'] = []
            tent(ct, g)
            if v['init'] is not None:
                i0 = self.strip_temps(v['init'])
                if i0['kind'] == 'CXXConstructExpr':
                    gl.append(decl(ct, g) + '; /* constructed object: constructor not run */')
                else:
                    gl.append(decl(ct, g) + ' = ' + self.init(i0) + ';')
            else:
                gl.append(decl(ct, g) + ';')
        # types
        self.recs_done = []
        rtext = []

        def emit_rec(w):
            if w in self.recs_done:
                return
            r = self.U.records[w]
            self.recs_done.append(w)
            fs = []
            deps = []
            if r['bases']:
                for b in r['bases']:
                    deps.append(b)
                fs.append('struct %s __base;' % r['bases'][0])
            elif r['poly']:
                fs.append('void *__vptr;')
            for n, t in r['fields']:
                c = self.T(t)
                fs.append(decl(c, n) + ';')
                for m in re.finditer(r'struct (\w+)(?!\w)', c):
                    if m.group(1) in self.U.records and '*' not in c:
                        deps.append(m.group(1))
            for d in deps:
                if d in self.U.records:
                    emit_rec(d)
            rtext.append('%s %s {\n  %s\n};' % ('union' if r['union'] else 'struct', w, '\n  '.join(fs)))
        k = 0
        while k < len(self.need_records):
            emit_rec(self.need_records[k])
            k += 1
        tds = []
        k = 0
        self._tds = getattr(self, '_tds', [])
        while k < len(self._tds):
            w = self._tds[k]
            k += 1
            tds.append('typedef ' + decl(self.rec(ctype(qt(self.U.typedefs[w]))), w) + ';')
        while True:
            n0 = len(self.need_records)
            for w in list(self.need_records):
                emit_rec(w)
            if len(self.need_records) == n0:
                break
        out = ['/* generated by cxx2c.py from %s - do not edit */' % self.U.repo]
        out += ['#include <stddef.h>', '#include <stdint.h>', '#include <stdlib.h>', '#include <stdio.h>', '#include <string.h>',
                '#include <strings.h>', '#include <ctype.h>', '#include <time.h>', '#include <errno.h>', '#include <limits.h>',
                '#include <unistd.h>', '#include <fcntl.h>', '#include <sys/types.h>', '#include <sys/stat.h>', '#include <sys/mman.h>',
                '#include <stdarg.h>', '#include <dirent.h>', '#ifdef WITH_LIBXML\n#include <libxml/parser.h>\n#include <libxml/tree.h>\n#endif', '#include <alloca.h>', '#include "cprelude.h"']
        for n, (u, vs) in self.U.enums.items():
            if not n.startswith('__anon'):
                out.append('typedef %s %s;' % (u, n))
            out.append('enum { %s };' % ', '.join('%s = %d' % v for v in vs))
        out += ['struct %s;' % w for w in self.need_records]
        out += [t for t in tds]
        out += rtext
        self.native_header = '\n'.join(out + ['%s __asm__("%s");' % (x[0], x[1].split('@')[0]) for x in nprotos]) + '\n'
        self.mangled = {f['cname']: f['m'] for f in self.need_funcs}
        out += protos
        out += glp
        out += gl
        self.header = '\n'.join(out) + '\n'
        self.bodies = '\n'.join(bodies) + '\n'
        return self.header + self.bodies


def load_all(repo='/repo', files=None):
    U = Unit(repo)
    for f in files or ['macros', 'utils', 'missings', 'files', 'bin_xml_types', 'bin_xml']:
        U.load(os.path.join(repo, 'src', f if f.endswith('.c') else f + '.cpp'))
    U.finish_names()
    return U


if __name__ == '__main__':
    U = load_all('/repo', sys.argv[1].split(','))
    names = [f['cname'] for f in U.funcs.values() if f['body'] is not None]
    E = Emit(U)
    t = E.program(names if len(sys.argv) < 3 else sys.argv[2].split(','))
    sys.stdout.write(t)
    for k, v in E.unsupported.items():
        print('UNSUPPORTED', k, v, file=sys.stderr)
    print('emitted', len(E.emitted), 'ext', sorted(E.ext_funcs), 'dropped', sum(E.dropped.values()), file=sys.stderr)
