"""Mechanical conversion of the repository's .pyx files to Python.  Dropped: C types of arguments and
locals (so C integer/double width), cimport lines, cython decorators, integer casts <T>(e).  Nothing else."""
import re

def _split(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '([{': d += 1
        if ch in ')]}': d -= 1
        if ch == ',' and d == 0:
            out.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur)
    return out

def to_py(src):
    out = []
    lines = src.split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        st = l.strip()
        if re.match(r'(from\s+\S+\s+)?cimport\b', st) or st.startswith('@cython.'):
            out.append(''); i += 1; continue
        m = re.match(r'(\s*)(?:cpdef|cdef|def)\s+(?:inline\s+)?(?:[\w\.\[\], =]+?\s+)?(\w+)\s*\((.*)$', l)
        if m and re.match(r'(cpdef|cdef|def)\b', st) and '(' in l:
            full = l; n = 1
            while full.count('(') > full.count(')'):
                full += ' ' + lines[i + n].strip(); n += 1
            a = full.index('('); b = full.rindex(')')
            args = []
            for x in _split(full[a + 1:b]):
                x = x.strip()
                if x.startswith('#') or not x: continue
                dm = re.match(r'^(.*?)(=(?!=).*)?$', re.sub(r'\[[^\]]*\]', '', x) if '[' in x else x)
                nm = dm.group(1).strip().split()[-1]
                args.append(nm + (dm.group(2) or ''))
            out.append('%sdef %s(%s):' % (m.group(1), m.group(2), ', '.join(args)))
            out += [''] * (n - 1)
            i += n; continue
        if re.match(r'cdef\b', st):
            r = re.match(r'(\s*)cdef\s+(.*)$', l)
            body = r.group(2)
            if '=' in body:
                q = re.match(r'(?:unsigned\s+)?[\w\.]+(?:\[[^\]]*\])?\s+(.*)$', body)
                out.append(r.group(1) + (q.group(1) if q else body))
            else: out.append(r.group(1) + 'pass')
            i += 1; continue
        l = re.sub(r'<\s*(?:unsigned\s+)?(?:int|long|double|float|Py_ssize_t|size_t)\s*>\s*(?=[\(\w])', '', l)
        l = re.sub(r'\bxrange\b', 'range', l)
        out.append(l)
        i += 1
    return '\n'.join(out)
