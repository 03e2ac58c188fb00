"""Mechanical reduction of the repository's .pyx files to Python text.

Dropped: cimport lines, C type annotations in signatures and declarations, cdef class
attribute declarations, `cdef`/`cpdef` keywords, decorators and compiler directives.
Kept: every statement and expression.  `cdef T x = e` becomes `x = e`; `cdef T x` becomes `pass`
(an int/double C variable read before assignment is outside the subset).
"""
import re

_TYPES = r'(?:unsigned\s+)?(?:int|double|float|bint|object|dict|list|tuple|str|bool|void|long|np\.ndarray|ndarray|set|[A-Z]\w*|short|char|size_t|double\[:\]|double_t|int_t)(?:\[[^\]]*\])?'


def _args(s):
    # split top level commas
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            depth += 1
        if ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    res = []
    for a in out:
        a = a.strip()
        m = re.match(r'^%s\s+(\*?\w+.*)$' % _TYPES, a)
        if m:
            a = m.group(1)
        a = re.sub(r'\s+not\s+None\b', '', a)
        a = re.sub(r'\s+or\s+None\b', '', a)
        res.append(a)
    return ', '.join(res)


def strip_pyx(src):
    # join signature lines
    lines = src.split('\n')
    out = []
    i = 0
    while i < len(lines):
        ln = lines[i]
        st = ln.strip()
        ind = ln[:len(ln) - len(ln.lstrip())]
        if re.match(r'^(from\s+\S+\s+cimport|cimport)\b', st):
            m = re.match(r'^from\s+(\S+)\s+cimport\s+(.*)$', st)
            if m and m.group(1).startswith('skmultiflow'):
                out.append(ind + 'from %s import %s' % (m.group(1), m.group(2)))
            else:
                out.append(ind + 'pass')
            i += 1
            continue
        if st.startswith('ctypedef ') or re.match(r'^@cython\.', st):
            out.append(ind + 'pass' if st.startswith('ctypedef ') else '')
            i += 1
            continue
        m = re.match(r'^cdef\s+\([^)]*\)\s+\w+\s*$', st)       # C tuple declaration
        if m:
            out.append(ind + 'pass')
            i += 1
            continue
        m = re.match(r'^cdef\s+np\.ndarray\[[^\]]*\]\s+(\w+\s*=.*)$', st)
        if m:
            out.append(ind + m.group(1))
            i += 1
            continue
        if re.match(r'^(cdef|cpdef)\s+class\b', st):
            out.append(ind + re.sub(r'^(cdef|cpdef)\s+', '', st))
            i += 1
            continue
        m = re.match(r'^(def|cpdef|cdef)\b.*\(', st)
        if m and (st.startswith('def') or '=' not in st.split('(')[0]):
            buf = ln
            while not re.search(r'\)\s*(?:->\s*[^:]+)?(?:\s*except[^:]*)?\s*(nogil)?\s*:\s*(#.*)?$', buf) and i + 1 < len(lines):
                i += 1
                buf += ' ' + lines[i].strip()
            mm = re.match(r'^(\s*)(def|cpdef|cdef)\s+(?:inline\s+)?(?:(.*?)\s+)?(\w+)\s*\((.*)\)\s*(?:->\s*[^:]+)?(?:\s*except[^:]*)?\s*(?:nogil)?\s*:\s*(#.*)?$', buf)
            if mm:
                out.append('%sdef %s(%s):' % (mm.group(1), mm.group(4), _args(mm.group(5))))
                i += 1
                continue
            out.append(buf)
            i += 1
            continue
        if st.startswith('cdef ') or st.startswith('cpdef '):
            m = re.match(r'^c(?:p)?def\s+(?:public\s+|readonly\s+)?(?:%s)\s+(.*)$' % _TYPES, st)
            body = m.group(1) if m else st.split(None, 2)[-1]
            parts = [p for p in re.split(r',\s*(?=\w+\s*(?:=|,|$))', body)]
            asg = [p.strip() for p in parts if '=' in p]
            out.append(ind + ('; '.join(asg) if asg else 'pass'))
            i += 1
            continue
        ln = re.sub(r'<\s*(?:int|double|float|object|dict)\s*>\s*', '', ln)
        out.append(ln)
        i += 1
    return '\n'.join(out)
