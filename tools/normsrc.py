#!/usr/bin/env python3
"""normsrc.py SRC DST: copy the C++ sources, rewriting the one construct that g++
accepts and clang does not: a constexpr static member of the class being defined
(`static constexpr C kX = ...` inside class template C) becomes `static inline const`,
which has the same value and linkage.  Nothing else is touched; line numbers stay."""
import os, re, sys
def norm(text):
    for name in set(re.findall(r'\b(?:class|struct)\s+(\w+)', text)):
        pat = r'\b(?:static\s+constexpr|constexpr\s+static)\s+(?:const\s+)?(' + name + r'(?:<[^;={}()]*>)?\s+\w+\s*[={])'
        text = re.sub(pat, r'static inline const \1', text)
    return text
def main(src, dst):
    for d, _, fs in os.walk(src):
        for f in fs:
            if not f.endswith(('.h', '.cc', '.hpp', '.cpp', '.inc')): continue
            p = os.path.join(d, f); q = os.path.join(dst, os.path.relpath(p, src))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            t = norm(open(p, errors='replace').read())
            if not (os.path.exists(q) and open(q).read() == t): open(q, 'w').write(t)
if __name__ == '__main__': main(*sys.argv[1:3])
