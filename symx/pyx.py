"""Cython source -> Python source.

Only type information is removed: ``cimport`` lines that are pure typing,
``cdef`` declarations (kept as assignments when they have an initialiser),
typed arguments and decorators of the compiler.  Classes lose ``cdef``; the C
defaults (zero) of ``cdef public`` attributes are kept as class attributes.  C
integer semantics of ``int`` typed locals are not modelled (see DESIGN.md).
"""
import re
import types


def _cython():
    m = types.ModuleType('cython')
    deco = lambda *a, **k: (lambda f: f)
    for n in ('boundscheck', 'wraparound', 'nonecheck', 'cdivision', 'profile', 'initializedcheck'):
        setattr(m, n, deco)
    return m


CYTHON = _cython()

CTYPES = r'(?:np\.\w+_t|double|float|int|long|bint|list|dict|object|str|unsigned\s+int|Py_ssize_t|size_t|[A-Z]\w*)'
TYPE = CTYPES + r'(?:\s*\[[:,\s]*\])?'


def strip_args(sig):
    """remove types from an argument list"""
    parts, depth, cur = [], 0, ''
    for ch in sig:
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            parts.append(cur)
            cur = ''
        else:
            cur += ch
    parts.append(cur)
    res = []
    for p in parts:
        lead = re.match(r'\s*', p).group(0)
        q = p.strip()
        m = re.match(r'^' + TYPE + r'\s+(\w+.*)$', q, re.S)
        if m and not q.startswith('*'):
            q = m.group(1)
        res.append(lead + q)
    return ','.join(res)


def count(text, chars):
    return sum(text.count(c) for c in chars)


def split(text):
    """parts between the commas of the outermost level"""
    parts, depth, cur = [], 0, ''
    for ch in text:
        depth += ch in '([{'
        depth -= ch in ')]}'
        if ch == ',' and depth == 0:
            parts.append(cur)
            cur = ''
        else:
            cur += ch
    return parts + [cur]


def declarations(text, ind):
    """the initialisers of a declaration"""
    if '#' in text and '"' not in text and "'" not in text and '\n' not in text:
        text = text.split('#')[0].rstrip()
    got = [casts(p.strip()) for p in split(text) if re.match(r'^\s*\w+\s*=[^=]', p)]
    return '; '.join(got) if got else 'pass'


def casts(line):
    """C casts of numbers"""
    if '<' not in line:
        return line
    f = lambda m: ('int' if re.search('int|long|size|bint', m.group(1)) else 'float') + \
        ('(' if m.group(2) == '(' else '(' + m.group(2) + ')')
    return re.sub(r'<\s*((?:np\.\w+_t)|double|float|(?:unsigned\s+)?int|long|bint|Py_ssize_t|size_t)\s*\??>\s*'
                  r'(\(|[A-Za-z_][\w.]*(?:\[[^\]]*\])?|[\d.]+)', f, line)


def convert(src):
    lines = src.split('\n')
    out = []
    i = 0
    n = len(lines)
    while i < n:
        line = lines[i]
        ind = re.match(r'\s*', line).group(0)
        s = line.strip()
        # cimport
        m = re.match(r'^cimport\s+([\w.]+)(?:\s+as\s+(\w+))?', s)
        if m:
            name, al = m.group(1), m.group(2)
            if name == 'numpy':
                out.append(ind + 'import numpy as ' + (al or 'numpy'))
            else:
                out.append(ind + 'import ' + name + (' as ' + al if al else ''))
            i += 1
            continue
        m = re.match(r'^from\s+([\w.]+)\s+cimport\s+(.*)$', s)
        if m:
            out.append(ind + 'from ' + m.group(1) + ' import ' + m.group(2))
            i += 1
            continue
        # cdef public block
        m = re.match(r'^cdef\s+(?:public|readonly)\s*:\s*(?:#.*)?$', s)
        if m:
            out.append(ind + 'pass')
            i += 1
            while i < n:
                l2 = lines[i]
                if l2.strip() == '' or l2.strip().startswith('#'):
                    out.append('')
                    i += 1
                    continue
                ind2 = re.match(r'\s*', l2).group(0)
                if len(ind2) <= len(ind):
                    break
                m2 = re.match(r'^(' + TYPE + r')\s+(.*)$', l2.strip().split('#')[0])
                if m2:
                    ty = m2.group(1)
                    if '[' in ty:
                        z = 'None'
                    elif re.search(r'int|bint|long', ty):
                        z = '0'
                    elif re.search(r'float|double', ty):
                        z = '0.0'
                    else:
                        z = 'None'
                    names = [x.strip() for x in m2.group(2).split(',') if x.strip()]
                    out.append(ind + '; '.join('%s = %s' % (x, z) for x in names))
                else:
                    out.append('')
                i += 1
            continue
        # cdef class
        m = re.match(r'^cdef\s+class\s+(.*)$', s)
        if m:
            out.append(ind + 'class ' + m.group(1))
            i += 1
            continue
        # functions
        m = re.match(r'^(?:cpdef|cdef|def)\b.*\(', s)
        if m and not re.match(r'^cdef\s+[^()]*=', s):
            buf = line
            while buf.count('(') > buf.count(')'):
                i += 1
                buf += '\n' + lines[i]
            m = re.match(r'^(\s*)(?:cpdef|cdef|def)\s+(?:\([^()]*\)\s+)?(?:[^()=]*?[\s*])?(\w+)\s*\((.*)\)\s*(?:->[^:]*)?(?:noexcept)?\s*(?:nogil)?\s*(?:except[^:]*)?(?:nogil)?\s*(:.*)$',
                         buf, re.S)
            if not m:
                raise SyntaxError('can not convert: ' + buf)
            pre = buf.count('\n')
            txt = m.group(1) + 'def ' + m.group(2) + '(' + strip_args(m.group(3)) + ')' + m.group(4)
            out.extend(txt.split('\n'))
            i += 1
            continue
        # local declarations
        m = re.match(r'^cdef\s+(?:public\s+|readonly\s+)?(' + TYPE + r')\s+(.*)$', s) or \
            re.match(r'^cdef\s+((?:[\w.]+\s+)*?[\w.]+\s*(?:\[[^\]]*\])?)[\s*]+(\w+\s*(?:$|[=,\[#].*))$', s)
        if m:
            buf = m.group(2)
            pre = 0
            while count(buf, '([{') > count(buf, ')]}') or buf.endswith('\\'):
                i += 1
                pre += 1
                buf += '\n' + lines[i]
            out.append(ind + declarations(buf, ind))
            out.extend([''] * (pre - out[-1].count('\n')))
            i += 1
            continue
        # local block of declarations
        if re.match(r'^cdef\s*:\s*(?:#.*)?$', s):
            out.append(ind + 'pass')
            i += 1
            while i < n:
                l2 = lines[i]
                ind2 = re.match(r'\s*', l2).group(0)
                if l2.strip() and not l2.strip().startswith('#') and len(ind2) <= len(ind):
                    break
                m2 = re.match(r'^(?:' + TYPE + r')\s+(.*)$', l2.strip())
                out.append(ind + declarations(m2.group(1), ind) if m2 else '')
                i += 1
            continue
        out.append(casts(line))
        i += 1
    return '\n'.join(out)
