"""Front end, part 1: get the Fortran text that is compiled.

The .f90.j2 templates are rendered with /repo's own tools/generate_fortran.py on
every run.  What is dropped before parsing: ordinary comments, !f2py lines, the
preprocessor branches not selected by the build (IFORT undefined, GFORTRAN
defined, PRECISION_REAL=8).  !$omp directives are kept.
"""
import os, re, shutil, subprocess, sys, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
FLIB = os.path.join(REPO, 'src', 'flib')
FILES = ['module_precision.f90', 'module_tamasis.f90', 'module_math_old.f90',
         'module_math.f90.j2', 'module_geometry.f90.j2', 'module_pointingmatrix.f90',
         'module_operators.f90.j2', 'sparse.f90.j2', 'operators.f90.j2',
         'pointingmatrix_old.f90', 'projection.f90.j2', 'geometry.f90', 'bi.f90.j2',
         'datautils.f90.j2', 'wcsutils.f90']
DEFINES = {'GFORTRAN': '1', 'PRECISION_REAL': '8'}


def render_all():
    """Return {basename: rendered text}."""
    out = {}
    d = tempfile.mkdtemp(prefix='vf_render_')
    try:
        tool = os.path.join(REPO, 'tools', 'generate_fortran.py')
        import concurrent.futures
        def one(f):
            path = os.path.join(FLIB, f)
            if not f.endswith('.j2'):
                with open(path) as fh:
                    return f, fh.read()
            sub = os.path.join(d, f)
            os.mkdir(sub)
            r = subprocess.run(['/opt/venv/bin/python', tool, path, '-o', sub, '--precision-real', '8'],
                               capture_output=True, text=True, timeout=120)
            got = [g for g in os.listdir(sub) if g.endswith('.f90')]
            if r.returncode or not got:
                raise RuntimeError('template rendering failed for %s: %s' % (f, r.stderr[-500:]))
            with open(os.path.join(sub, got[0])) as fh:
                return f, fh.read()
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for f, t in ex.map(one, FILES):
                out[f] = t
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def preprocess(text):
    """C preprocessor conditionals used in this code base."""
    res = []
    stack = []
    def active():
        return all(s[0] for s in stack)
    for line in text.split('\n'):
        m = re.match(r'\s*#\s*(\w+)\s*(.*)', line)
        if m:
            d, a = m.group(1), m.group(2).strip()
            if d == 'ifdef':
                c = a in DEFINES
                stack.append([c, c])
            elif d == 'ifndef':
                c = a not in DEFINES
                stack.append([c, c])
            elif d in ('if', 'elif'):
                e = re.sub(r'defined\s*\(?\s*(\w+)\s*\)?', lambda k: str(int(k.group(1) in DEFINES)), a)
                e = re.sub(r'[A-Za-z_]\w*', lambda k: DEFINES.get(k.group(0), '0'), e)
                e = e.replace('&&', ' and ').replace('||', ' or ').replace('!=', '~').replace('!', ' not ').replace('~', '!=')
                c = bool(eval(e))
                if d == 'if':
                    stack.append([c, c])
                else:
                    stack[-1][0] = c and not stack[-1][1]
                    stack[-1][1] |= c
            elif d == 'else':
                stack[-1][0] = not stack[-1][1]
            elif d == 'endif':
                stack.pop()
            res.append('')
            continue
        res.append(line if active() else '')
    return res


def _strip_comment(line):
    q = None
    for i, c in enumerate(line):
        if q:
            if c == q:
                q = None
        elif c in '\'"':
            q = c
        elif c == '!':
            return line[:i]
    return line


def logical_lines(text):
    """[(lineno, text)], continuations joined; omp directives start with '!$omp '."""
    out = []
    cont = False
    for no, line in enumerate(preprocess(text), 1):
        s = line.strip()
        if re.match(r'!\$omp\b', s, re.I):
            body = re.sub(r'(?i)^!\$omp', '', s).strip()
            if '!' in body:
                body = body.split('!')[0].strip()
            if cont == 'omp':
                body = body.lstrip('&').strip()
                more = body.endswith('&')
                out[-1] = (out[-1][0], out[-1][1] + ' ' + body.rstrip('&').strip())
            else:
                more = body.endswith('&')
                out.append((no, '!$omp ' + body.rstrip('&').strip()))
            cont = 'omp' if more else False
            continue
        s = _strip_comment(line).strip()
        if not s:
            continue
        if cont is True:
            if s.startswith('&'):
                s = s[1:].strip()
        more = s.endswith('&')
        if more:
            s = s[:-1].rstrip()
        if cont is True:
            out[-1] = (out[-1][0], out[-1][1] + ' ' + s)
        else:
            for k, piece in enumerate(_split_semicolons(s)):
                out.append((no, piece))
        cont = more
    return [(n, t.strip()) for n, t in out if t.strip()]


def _split_semicolons(s):
    parts, q, cur = [], None, ''
    for c in s:
        if q:
            if c == q:
                q = None
        elif c in '\'"':
            q = c
        elif c == ';':
            parts.append(cur)
            cur = ''
            continue
        cur += c
    parts.append(cur)
    return [p for p in parts if p.strip()] or ['']
