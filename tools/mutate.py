#!/usr/bin/env python3
"""Maintenance tool (no check uses it): writes single-token mutants of /repo's non-test sources as patches.

  mutate.py OUTDIR FILE...     OUTDIR/<stem>-<line>-<n>.diff, to be run with `sweep.py patches OUTDIR ID...`
"""
import sys, os, re, difflib
RULES = [
    (r'(?<=\s)\+(?=\s)', ['-']), (r'(?<=\s)-(?=\s)', ['+']), (r'(?<=\s)\*(?=\s)', ['/']), (r'(?<=\s)/(?=\s)', ['*']),
    (r'(?<=\s)\+=(?=\s)', ['-=']), (r'(?<=\s)-=(?=\s)', ['+=']), (r'(?<=\s)\*=(?=\s)', ['/=']), (r'(?<=\s)/=(?=\s)', ['*=']),
    (r'(?<=\s)<(?=\s)', ['<=', '>']), (r'(?<=\s)<=(?=\s)', ['<', '>']), (r'(?<=\s)>(?=\s)', ['>=', '<']), (r'(?<=\s)>=(?=\s)', ['>', '<']),
    (r'(?<=\s)==(?=\s)', ['!=']), (r'(?<=\s)!=(?=\s)', ['==']),
    (r'&&', ['||']), (r'\|\|(?=\s)', ['&&']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'(?<![\w.)\]])-(?=[\w(])', ['']), (r'(?<![\w!])!(?=[\w(])', ['']),
    (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])2(?![\w.])', ['1', '3']), (r'(?<![\w.])3(?![\w.])', ['2']),
    (r'\b0\.0\b', ['1.0']), (r'\b1\.0\b', ['0.0', '2.0']), (r'\b2\.0\b', ['1.0']), (r'\b0\.5\b', ['0.25']), (r'\b16\.0\b', ['1.0', '256.0']), (r'\b4\.0\b', ['0.5', '64.0']),
    (r'\.x\b', ['.y']), (r'\.y\b', ['.x']), (r'\.z\b', ['.x']), (r'\.a\b(?!\()', ['.b']), (r'\.b\b(?!\()', ['.c']), (r'\.c\b(?!\()', ['.a']),
    (r'\.xy\b', ['.xz']), (r'\.xz\b', ['.yz']), (r'\.yz\b', ['.xy']),
    (r'\.max\(', ['.min(']), (r'\.min\(', ['.max(']), (r'\.abs\(\)', ['']), (r'\.sqrt\(\)', ['']), (r'\bbreak;', ['continue;', '']), (r'\bcontinue;', ['']),
    (r'\bsin\b', ['cos']), (r'\bcos\b', ['sin']), (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']), (r'\.\.=', ['..']), (r'\bSome\(([^()]*)\)$', ['None']),
    (r'\.reverse\(\)', ['']), (r'\.rev\(\)', ['']),
]
def source_lines(path):
    s = open(path).read().split('\n')
    for i, l in enumerate(s):
        if l.strip().startswith('#[cfg(test)]'): return s, i
    return s, len(s)
def main():
    out = sys.argv[1]; os.makedirs(out, exist_ok=True)
    n = 0
    for rel in sys.argv[2:]:
        s, end = source_lines('/repo/' + rel)
        for i in range(end):
            l = s[i]; code = re.sub(r'//.*', '', l)
            if not code.strip() or code.strip().startswith(('use ', '#', 'mod ', 'pub mod', 'println!', 'assert')): continue
            muts = []
            for pat, reps in RULES:
                for m in re.finditer(pat, code):
                    for r in reps: muts.append(code[:m.start()] + r + code[m.end():])
            t = code.strip()
            if re.match(r'[\w.\[\]*]+ ?([-+*/]?=)[^=].*;$', t) or re.match(r'[\w.]+\(.*\);$', t): muts.append('')
            m = re.match(r'(\s*)(?:\} else )?if (?!let)(.*) \{$', code)
            if m and 'else if' not in code:
                muts.append(f'{m.group(1)}if true || ({m.group(2)}) {{'); muts.append(f'{m.group(1)}if false && ({m.group(2)}) {{')
            seen = set()
            for k, x in enumerate(muts):
                if x == code or x in seen: continue
                seen.add(x)
                t = s[:i] + [x] + s[i+1:]
                d = ''.join(difflib.unified_diff([a + '\n' for a in s[:-1]], [a + '\n' for a in t[:-1]], 'a/' + rel, 'b/' + rel))
                if not d: continue
                stem = os.path.basename(rel)[:-3]
                open(f'{out}/{stem}-{i+1:04d}-{k}.diff', 'w').write(d); n += 1
    print(n, 'mutants')
main()
