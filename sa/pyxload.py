"""Cython sources as Python syntax trees with the C declarations kept aside.

Only the declarative subset of Cython is translated (cimport, cdef variable,
cdef extern blocks, typed arguments, cdef functions); the statements themselves
are Python syntax."""
import ast
import re

_CTYPE = r"(?:unsigned\s+)?(?:int|double|float|long|Py_ssize_t|size_t|bint|object|char|short)(?:\s+(?:int|long|double))?"


def load(path):
    with open(path, encoding="utf-8") as f:
        src = f.read()
    t = ast.parse(translate(src), path)
    t.ctypes_ = types(src)
    t.directives_ = dict(re.findall(r"@cython\.(\w+)\((\w+)\)", src))
    for k, v in re.findall(r"#\s*cython:\s*(\w+)\s*=\s*(\w+)", src):
        t.directives_[k] = v
    return t


def types(src):
    """{function: {name: C type}}"""
    out = {}
    cur = None
    for line in src.splitlines():
        m = re.match(r"\s*(?:c?p?def)\s+(?:[\w\[\], .=]+?\s+)?(\w+)\s*\(", line)
        if m and line.strip().startswith(("def", "cpdef", "cdef")) and line.rstrip().endswith((":", ",")):
            cur = m.group(1)
            out[cur] = {}
            for t, n in re.findall(r"(%s|np\.ndarray\[[^\]]*\])\s+(\w+)" % _CTYPE, line[line.index("("):]):
                out[cur][n] = t.strip()
        m = re.match(r"\s+cdef\s+(.*)", line)
        if m and cur is not None:
            d = m.group(1)
            m2 = re.match(r"(np\.ndarray\[[^\]]*\]|%s(?:\[[:, ]*\])?)\s+(.*)" % _CTYPE, d)
            if m2:
                for n in re.findall(r"(?:^|,)\s*(\w+)", re.sub(r"=.*", "", m2.group(2))):
                    out[cur][n] = m2.group(1).strip()
    return out


def translate(src):
    out = []
    lines = src.splitlines()
    i = 0
    while i < len(lines):
        ln = lines[i]
        s = ln.strip()
        ind = ln[:len(ln) - len(ln.lstrip())]
        if re.match(r"(from\s+\S+\s+)?cimport\s", s):
            out.append("")
        elif s.startswith("cdef extern"):
            out.append("")
            i += 1
            while i < len(lines) and (lines[i].startswith((" ", "\t")) or not lines[i].strip()):
                m = re.match(r"\s+%s\s+(\w+)\s*\(" % _CTYPE, lines[i])
                out.append("from math import %s" % m.group(1) if m else "")
                i += 1
            continue
        elif re.match(r"@cython\.", s):
            out.append("")
        elif re.match(r"cp?def\s+inline|cp?def\s+.*\)\s*(nogil|except.*)?\s*:\s*$|^def\s", s) and "(" in s:
            j = i
            hdr = s
            while hdr.count("(") > hdr.count(")") and j + 1 < len(lines):
                j += 1
                hdr += " " + lines[j].strip()
            name = re.match(r".*?(\w+)\s*\(", hdr).group(1)
            args = hdr[hdr.index("(") + 1:hdr.rindex(")")]
            args = re.sub(r"np\.ndarray\[[^\]]*\]\s*", "", args)
            args = re.sub(r"\b%s(?:\[[:, ]*\])?\s+(?=\w)" % _CTYPE, "", args)
            out.append("%sdef %s(%s):" % (ind, name, args))
            out.extend([""] * (j - i))
            i = j
        elif s.startswith("cdef "):
            d = s[5:]
            if d.rstrip() == ":":
                raise SyntaxError("cdef block")
            m = re.match(r"(np\.ndarray\[[^\]]*\]|%s(?:\[[:, ]*\])?)\s+(.*)" % _CTYPE, d)
            rest = m.group(2) if m else d
            if "=" in rest:
                parts = split_top(rest)
                asg = [p.strip() for p in parts if "=" in p]
                out.append(ind + "; ".join(asg))
            else:
                out.append(ind + "pass")
        else:
            out.append(ln)
        i += 1
    return "\n".join(out) + "\n"


def split_top(s):
    r, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            d += 1
        if ch in ")]}":
            d -= 1
        if ch == "," and d == 0:
            r.append(cur)
            cur = ""
        else:
            cur += ch
    r.append(cur)
    return r
