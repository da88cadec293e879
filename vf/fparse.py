"""Front end, part 2: parser for the Fortran subset used by the kernels.

AST nodes are tuples.  Expressions:
  ('int', v, kind) ('real', Fraction, kind) ('log', bool) ('str', s)
  ('name', n) ('ref', base, args)   args: list of expr | ('slice', lo, hi, st) | ('kw', n, e)
  ('comp', base, field) ('un', op, e) ('bin', op, a, b) ('arr', [e...])
Statements: (kind, lineno, ...).
A statement that cannot be parsed becomes ('unsupported', lineno, text): it only
matters if the executor reaches it.
"""
import re
from fractions import Fraction
from .fsrc import logical_lines

TOK = re.compile(r"""\s*(?:
   (?P<real>(?:\d+\.(?![a-zA-Z]+\.)\d*(?:[eEdD][+-]?\d+)?|\.\d+(?:[eEdD][+-]?\d+)?|\d+[eEdD][+-]?\d+)(?:_\w+)?)
 | (?P<boz>[zZbBoO](?:'[0-9a-fA-F]+'|"[0-9a-fA-F]+"))
 | (?P<int>\d+(?:_\w+)?)
 | (?P<dot>\.[a-zA-Z]+\.(?:_\w+)?)
 | (?P<name>[A-Za-z_]\w*)
 | (?P<str>'[^']*'|"[^"]*")
 | (?P<op>\(/|/\)|\*\*|==|/=|<=|>=|=>|::|//|[-+*/()<>=,:%\[\]])
)""", re.X)

DOTOPS = {'.eq.': '==', '.ne.': '/=', '.lt.': '<', '.le.': '<=', '.gt.': '>', '.ge.': '>='}


class ParseError(Exception):
    pass


def tokenize(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise ParseError('cannot tokenise %r' % s[i:i + 20])
        k = m.lastgroup
        v = m.group(k)
        if k == 'name':
            v = v.lower()
        if k == 'dot':
            v = v.lower()
            if v in DOTOPS:
                k, v = 'op', DOTOPS[v]
        out.append((k, v))
        i = m.end()
    return out


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('op', 'dot', 'name'):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ParseError('expected %r, got %r' % (v, self.peek()))

    def end(self):
        return self.i >= len(self.t)

    # precedence climbing
    def expr(self):
        return self.p_eqv()

    def p_eqv(self):
        a = self.p_or()
        while self.peek()[1] in ('.eqv.', '.neqv.'):
            op = self.next()[1]
            a = ('bin', op, a, self.p_or())
        return a

    def p_or(self):
        a = self.p_and()
        while self.accept('.or.'):
            a = ('bin', '.or.', a, self.p_and())
        return a

    def p_and(self):
        a = self.p_not()
        while self.accept('.and.'):
            a = ('bin', '.and.', a, self.p_not())
        return a

    def p_not(self):
        if self.accept('.not.'):
            return ('un', '.not.', self.p_not())
        return self.p_rel()

    def p_rel(self):
        a = self.p_add()
        while self.peek()[0] == 'op' and self.peek()[1] in ('==', '/=', '<', '<=', '>', '>='):
            op = self.next()[1]
            a = ('bin', op, a, self.p_add())
        return a

    def p_add(self):
        if self.peek() == ('op', '-'):
            self.next()
            a = ('un', '-', self.p_mul())
        elif self.peek() == ('op', '+'):
            self.next()
            a = self.p_mul()
        else:
            a = self.p_mul()
        while self.peek() in (('op', '+'), ('op', '-')):
            op = self.next()[1]
            a = ('bin', op, a, self.p_mul())
        return a

    def p_mul(self):
        a = self.p_pow()
        while self.peek() in (('op', '*'), ('op', '/')):
            op = self.next()[1]
            b = self.p_pow()
            a = ('bin', op, a, b)
        return a

    def p_pow(self):
        if self.peek() == ('op', '-'):   # extension: a * -b
            self.next()
            return ('un', '-', self.p_pow())
        a = self.p_post()
        if self.accept('**'):
            b = self.p_pow()
            return ('bin', '**', a, b)
        return a

    def p_post(self):
        a = self.p_prim()
        while True:
            if self.peek() == ('op', '('):
                a = ('ref', a, self.args(')'))
            elif self.peek() == ('op', '%'):
                self.next()
                a = ('comp', a, self.next()[1])
            else:
                return a

    def args(self, close):
        self.next()
        out = []
        if self.accept(close):
            return out
        while True:
            out.append(self.arg())
            if self.accept(close):
                return out
            self.expect(',')

    def arg(self):
        if self.peek()[0] == 'name' and self.peek(1) == ('op', '='):
            n = self.next()[1]
            self.next()
            return ('kw', n, self.expr())
        lo = hi = st = None
        if self.peek() != ('op', ':') and self.peek() != ('op', '::'):
            lo = self.expr()
            if self.peek() not in (('op', ':'), ('op', '::')):
                return lo
        if self.accept('::'):
            return ('slice', lo, None, self.expr())
        self.expect(':')
        if self.peek()[1] not in (None, ',', ')', ':'):
            hi = self.expr()
        if self.accept(':'):
            st = self.expr()
        return ('slice', lo, hi, st)

    def p_prim(self):
        k, v = self.next()
        if k == 'int':
            a, _, kd = v.partition('_')
            return ('int', int(a), kd or None)
        if k == 'real':
            a, _, kd = v.partition('_')
            dbl = 'd' in a.lower()
            a = a.lower().replace('d', 'e')
            m, _, e = a.partition('e')
            f = Fraction(m if m not in ('.',) else '0') if not m.endswith('.') else Fraction(m[:-1])
            f *= Fraction(10) ** int(e or 0)
            return ('real', f, kd or ('8' if dbl else None))
        if k == 'boz':
            base = {'z': 16, 'o': 8, 'b': 2}[v[0].lower()]
            return ('boz', int(v[2:-1], base))
        if k == 'str':
            return ('str', v[1:-1])
        if k == 'dot':
            if v.startswith('.true.'):
                return ('log', True)
            if v.startswith('.false.'):
                return ('log', False)
            raise ParseError(v)
        if k == 'name':
            return ('name', v)
        if (k, v) == ('op', '('):
            e = self.expr()
            if self.accept(','):      # implied do / complex: not supported
                raise ParseError('complex or implied do')
            self.expect(')')
            return e
        if (k, v) == ('op', '[') or (k, v) == ('op', '(/'):
            close = ']' if v == '[' else '/)'
            out = []
            while True:
                out.append(self.expr())
                if self.accept(close):
                    return ('arr', out)
                self.expect(',')
        raise ParseError('unexpected %r' % (v,))


def parse_expr(s):
    p = P(tokenize(s))
    e = p.expr()
    if not p.end():
        raise ParseError('trailing tokens in %r' % s)
    return e


TYPE_RE = re.compile(r'^(integer|real|logical|character|double\s+precision|complex|type|class)\b(?!\s*=)', re.I)
UNIT_RE = re.compile(r'^((?:pure|elemental|recursive|impure)\s+)*((?:(?:integer|real|logical|double\s+precision)\s*(?:\([^)]*\)|\*\d+)?\s+)?)(subroutine|function)\s+(\w+)\s*(\(([^)]*)\))?\s*(?:result\s*\(\s*(\w+)\s*\))?', re.I)


class Decl:
    __slots__ = ('name', 'base', 'kind', 'tname', 'dims', 'intent', 'attrs', 'init')

    def __repr__(self):
        return 'Decl(%s %s%s %s)' % (self.base, self.kind, self.tname or '', self.name)


def split_top(s, sep=','):
    out, d, cur, q = [], 0, '', None
    for c in s:
        if q:
            if c == q:
                q = None
        elif c in '\'"':
            q = c
        elif c in '([':
            d += 1
        elif c in ')]':
            d -= 1
        elif c == sep and d == 0:
            out.append(cur)
            cur = ''
            continue
        cur += c
    out.append(cur)
    return [x.strip() for x in out]


def parse_dims(s):
    """'(2, 0:n-1)' -> [(lo expr or None, hi expr or None/':' )]"""
    out = []
    for a in split_top(s):
        pr = P(tokenize(a))
        x = pr.arg()
        if not pr.end():
            raise ParseError(a)
        if x[0] == 'slice':
            out.append((x[1], x[2], True))
        else:
            out.append((None, x, False))
    return out


def parse_decl(s):
    """None if not a declaration, else list of Decl."""
    if not TYPE_RE.match(s):
        return None
    depth = 0
    pos = s.find('::')
    m = re.match(r'^(integer|real|logical|character|double\s+precision|complex|type|class)\s*', s, re.I)
    base = re.sub(r'\s+', ' ', m.group(1).lower())
    rest = s[m.end():]
    kind = None
    tname = None
    if rest.startswith('*'):
        mm = re.match(r'\*\s*(\d+|\(\*\))\s*', rest)
        kind = mm.group(1)
        rest = rest[mm.end():]
    elif rest.startswith('('):
        d = 0
        for i, c in enumerate(rest):
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0:
                    break
        kind = rest[1:i].strip()
        rest = rest[i + 1:].strip()
        kind = re.sub(r'^kind\s*=\s*', '', kind, flags=re.I)
    if base in ('type', 'class'):
        if kind is None:
            return None
        tname = kind.lower()
        kind = None
    if base == 'double precision':
        base, kind = 'real', '8'
    if '::' in rest:
        attrs, _, names = rest.partition('::')
        # '::' may be inside parentheses only for array specs; attributes come first
        attrs = [a for a in split_top(attrs) if a]
    else:
        attrs, names = [], rest
        if names.startswith(','):
            return None
    intent, dimattr, flags = None, None, set()
    for a in attrs:
        al = a.lower().replace(' ', '')
        if al.startswith('intent'):
            intent = al[7:-1]
        elif al.startswith('dimension'):
            dimattr = a[a.index('(') + 1:a.rindex(')')]
        else:
            flags.add(al)
    out = []
    for n in split_top(names):
        mm = re.match(r'^(\w+)\s*', n)
        if not mm:
            raise ParseError('bad declaration ' + s)
        dcl = Decl()
        dcl.name = mm.group(1).lower()
        r = n[mm.end():]
        dims = dimattr
        if r.startswith('('):
            d = 0
            for i, c in enumerate(r):
                if c == '(':
                    d += 1
                elif c == ')':
                    d -= 1
                    if d == 0:
                        break
            dims = r[1:i]
            r = r[i + 1:].strip()
        init = None
        if r.startswith('=>'):
            flags = flags | {'ptrinit'}
        elif r.startswith('='):
            try:
                init = parse_expr(r[1:].strip())
            except ParseError:
                init = ('unsupported', r)
        elif r and not r.startswith('*'):
            raise ParseError('bad declaration ' + s)
        dcl.base, dcl.kind, dcl.tname = base, kind.lower() if kind else None, tname
        try:
            dcl.dims = parse_dims(dims) if dims else None
        except ParseError:
            dcl.dims = 'unsupported'
        dcl.intent, dcl.attrs, dcl.init = intent, set(flags), init
        out.append(dcl)
    return out


class Unit:
    """subroutine or function; body parsed lazily."""

    def __init__(self, kind, name, args, result, module, prefix_type, lineno, fname):
        self.kind, self.name, self.args, self.result = kind, name, args, result
        self.module, self.prefix_type = module, prefix_type
        self.lineno, self.fname = lineno, fname
        self.lines = []
        self.contained = {}
        self._done = False

    def parse(self):
        if self._done:
            return self
        self._done = True
        self.decls = {}
        self.uses = []
        body_start = len(self.lines)
        i = 0
        while i < len(self.lines):
            no, s = self.lines[i]
            l = s.lower()
            if re.match(r'use\b', l):
                self.uses.append(s)
                i += 1
                continue
            if l.startswith(('implicit', 'save', 'external', 'intrinsic')):
                i += 1
                continue
            m = re.match(r'parameter\s*\((.*)\)$', l)
            try:
                ds = parse_decl(s)
            except ParseError:
                ds = None
            if ds is None:
                break
            for d in ds:
                self.decls[d.name] = d
            i += 1
        self.body, j = parse_block(self.lines, i, ())
        if j != len(self.lines):
            raise ParseError('%s: stray statement %r' % (self.name, self.lines[j]))
        return self


END_RE = re.compile(r'^end\s*(if|do|where|select|forall|block)?\s*(\w+)?$', re.I)


def parse_block(lines, i, enders):
    out = []
    while i < len(lines):
        no, s = lines[i]
        l = s.lower()
        if any(re.match(e, l) for e in enders):
            return out, i
        st, i = parse_stmt(lines, i)
        out.append(st)
    return out, i


def _balanced(s, start):
    d = 0
    q = None
    for i in range(start, len(s)):
        c = s[i]
        if q:
            if c == q:
                q = None
        elif c in '\'"':
            q = c
        elif c == '(':
            d += 1
        elif c == ')':
            d -= 1
            if d == 0:
                return i
    raise ParseError('unbalanced ' + s)


def parse_stmt(lines, i):
    no, s = lines[i]
    l = s.lower()
    if l.startswith('!$omp'):
        return ('omp', no, l[5:].strip()), i + 1
    m = re.match(r'^(?:(\w+)\s*:\s*)?(do)\b(.*)$', s, re.I)
    if m and not re.match(r'^do\w*\s*=', l):
        name = m.group(1).lower() if m.group(1) else None
        r = m.group(3).strip()
        body, j = parse_block(lines, i + 1, (r'^end\s*do\b',))
        if j >= len(lines):
            raise ParseError('unterminated do at %d' % no)
        if not r:
            return ('while', no, ('log', True), body, name), j + 1
        mw = re.match(r'^while\s*\(', r, re.I)
        if mw:
            k = _balanced(r, mw.end() - 1)
            return ('while', no, parse_expr(r[mw.end():k]), body, name), j + 1
        mv = re.match(r'^(\w+)\s*=\s*(.*)$', r)
        if mv:
            parts = [parse_expr(x) for x in split_top(mv.group(2))]
            if len(parts) == 2:
                parts.append(('int', 1, None))
            return ('do', no, mv.group(1).lower(), parts[0], parts[1], parts[2], body, name), j + 1
        return ('unsupported', no, s), j + 1
    m = re.match(r'^if\s*\(', s, re.I)
    if m:
        k = _balanced(s, m.end() - 1)
        cond = parse_expr(s[m.end():k])
        rest = s[k + 1:].strip()
        if rest.lower() == 'then':
            clauses = []
            body, j = parse_block(lines, i + 1, (r'^else\b', r'^elseif\b', r'^end\s*if\b'))
            clauses.append((cond, body))
            els = []
            while True:
                if j >= len(lines):
                    raise ParseError('unterminated if at %d' % no)
                t = lines[j][1]
                tl = t.lower()
                if re.match(r'^end\s*if\b', tl):
                    return ('if', no, clauses, els), j + 1
                mm = re.match(r'^else\s*if\s*\(', tl)
                if mm:
                    k = _balanced(t, mm.end() - 1)
                    c2 = parse_expr(t[mm.end():k])
                    body, j = parse_block(lines, j + 1, (r'^else\b', r'^elseif\b', r'^end\s*if\b'))
                    clauses.append((c2, body))
                else:
                    els, j = parse_block(lines, j + 1, (r'^end\s*if\b',))
        st, _ = parse_stmt([(no, rest)], 0)
        return ('if', no, [(cond, [st])], []), i + 1
    if re.match(r'^(cycle|exit)\b', l) and '=' not in l:
        parts = l.split()
        return (parts[0], no, parts[1] if len(parts) > 1 else None), i + 1
    if l == 'return':
        return ('return', no), i + 1
    if l == 'continue':
        return ('nop', no), i + 1
    m = re.match(r'^call\s+(\w+)\s*(\(.*\))?$', s, re.I)
    if m:
        args = []
        if m.group(2):
            p = P(tokenize(m.group(2)))
            args = p.args(')')
            if not p.end():
                raise ParseError(s)
        return ('call', no, m.group(1).lower(), args), i + 1
    m = re.match(r'^where\s*\(', s, re.I)
    if m:
        k = _balanced(s, m.end() - 1)
        cond = parse_expr(s[m.end():k])
        rest = s[k + 1:].strip()
        if rest:
            st, _ = parse_stmt([(no, rest)], 0)
            return ('where', no, cond, [st], []), i + 1
        body, j = parse_block(lines, i + 1, (r'^else\s*where\b', r'^end\s*where\b'))
        els = []
        if re.match(r'^else\s*where\s*$', lines[j][1].lower()):
            els, j = parse_block(lines, j + 1, (r'^end\s*where\b',))
        elif not re.match(r'^end\s*where', lines[j][1].lower()):
            return ('unsupported', no, s), j + 1
        return ('where', no, cond, body, els), j + 1
    try:
        toks = tokenize(s)
        p = P(toks)
        if toks and toks[0][0] == 'name':
            lhs = p.p_post()
            if p.accept('='):
                e = p.expr()
                if p.end():
                    return ('assign', no, lhs, e), i + 1
    except ParseError:
        pass
    m = re.match(r'^select\s+case\s*\(', s, re.I)
    if m:
        k = _balanced(s, m.end() - 1)
        sel = parse_expr(s[m.end():k])
        j = i + 1
        cases = []
        while not re.match(r'^end\s*select', lines[j][1].lower()):
            t = lines[j][1]
            mm = re.match(r'^case\s*(default|\((.*)\))$', t, re.I)
            if not mm:
                raise ParseError(t)
            body, j = parse_block(lines, j + 1, (r'^case\b', r'^end\s*select'))
            if mm.group(1).lower() == 'default':
                cases.append((None, body))
            else:
                p = P(tokenize('(' + mm.group(2) + ')'))
                cases.append((p.args(')'), body))
        return ('select', no, sel, cases), j + 1
    return ('unsupported', no, s), i + 1


class Module:
    def __init__(self, name, fname):
        self.name, self.fname = name, fname
        self.decls, self.types, self.units, self.uses = {}, {}, {}, []
        self.interfaces = {}


def parse_file(text, fname, modules):
    lines = logical_lines(text)
    mod = None
    i = 0
    while i < len(lines):
        no, s = lines[i]
        l = s.lower()
        m = re.match(r'^module\s+(\w+)$', l)
        if m and m.group(1) != 'procedure':
            mod = Module(m.group(1), fname)
            modules[mod.name] = mod
            i += 1
            continue
        if re.match(r'^end\s*module\b', l):
            mod = None
            i += 1
            continue
        if mod is None:
            i += 1
            continue
        if re.match(r'^use\b', l):
            mod.uses.append(s)
            i += 1
            continue
        m = re.match(r'^type\s*(?:,\s*[^:]*)?(?:::)?\s*(\w+)$', l)
        if m and not l.startswith('type('):
            tname = m.group(1)
            fields = []
            i += 1
            while not re.match(r'^end\s*type\b', lines[i][1].lower()):
                try:
                    fields += parse_decl(lines[i][1]) or []
                except ParseError:
                    pass
                i += 1
            mod.types[tname] = fields
            i += 1
            continue
        m = re.match(r'^(?:abstract\s+)?interface\b\s*(\w*)', l)
        if m:
            names = []
            i += 1
            while not re.match(r'^end\s*interface\b', lines[i][1].lower()):
                mm = re.match(r'^module\s+procedure\s*(?:::)?\s*(.*)$', lines[i][1].lower())
                if mm:
                    names += [x.strip() for x in mm.group(1).split(',')]
                i += 1
            mod.interfaces[m.group(1)] = names
            i += 1
            continue
        m = UNIT_RE.match(s)
        if m and not re.match(r'^end\b', l):
            i = parse_unit(lines, i, m, mod, fname, mod.units)
            continue
        try:
            ds = parse_decl(s)
        except ParseError:
            ds = None
        for d in ds or []:
            mod.decls[d.name] = d
        i += 1
    return modules


def parse_unit(lines, i, m, mod, fname, into):
    kind = m.group(3).lower()
    args = [a.strip().lower() for a in (m.group(6) or '').split(',') if a.strip()]
    u = Unit(kind, m.group(4).lower(), args, (m.group(7) or m.group(4)).lower(),
             mod, m.group(2).strip(), lines[i][0], fname)
    u.elemental = 'elemental' in lines[i][1].lower().split(kind)[0]
    into[u.name] = u
    i += 1
    while True:
        if i >= len(lines):
            raise ParseError('unterminated ' + u.name)
        no, s = lines[i]
        l = s.lower()
        if re.match(r'^end\s*(subroutine|function)?(\s+\w+)?$', l) and not re.match(r'^end\s*(if|do|where|select|forall|type|block|associate)\b', l):
            return i + 1
        if l == 'contains':
            i += 1
            while not re.match(r'^end\s*(subroutine|function)?(\s+\w+)?$', lines[i][1].lower()):
                mm = UNIT_RE.match(lines[i][1])
                if not mm:
                    raise ParseError('in contains: ' + lines[i][1])
                i = parse_unit(lines, i, mm, mod, fname, u.contained)
            return i + 1
        u.lines.append((no, s))
        i += 1


def load():
    from . import fsrc
    mods = {}
    errs = {}
    for f, text in fsrc.render_all().items():
        try:
            parse_file(text, f, mods)
        except Exception as e:      # a file the front end cannot read: its units are unsupported
            errs[f] = repr(e)
    return mods, errs
