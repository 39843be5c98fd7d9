#!/usr/bin/env python3
"""mutgen.py REPO OUT.json : single-token mutants of the non-test code (development aid: finds what the checks miss)."""
import re, sys, json, glob, os
R = sys.argv[1]
OPS = [(r' == ', [' != ']), (r' != ', [' == ']), (r' <= ', [' < ']), (r' >= ', [' > ']), (r' < (?=[a-z0-9(*])', [' <= ']), (r' > (?=[a-zA-Z0-9(*])', [' >= ']),
 (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ 1\b', ['']), (r' - 1\b', ['']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
 (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']), (r'!(?=[a-z_.]+\.(is_|starts|contains))', ['']), (r'\bmin\(', ['std::cmp::max(']),
 (r'wrapping_add\(', ['wrapping_sub(']), (r'\bcontinue;', ['break;']), (r'\bbreak;', ['continue;']), (r' \+= ', [' -= ']), (r' -= ', [' += ']),
 (r'(?<![\w.\x27])(\d+)(?![\w.\x27])', ['N+1']), (r'\b0x([0-9a-fA-F]+)\b', ['X+1']), (r"b'([a-zA-Z0-9])'", ['C+1']), (r'eq_ignore_ascii_case|cmp_nocase_nozero|cmp_nocase\b|get_nocase_nozero\b|index_of_nocase\b', ['case']),
 (r'HtpStatus::(STOP|ERROR|DATA_OTHER|DATA_BUFFER|DATA)\b', ['status']), (r'HtpStreamState::(STOP|ERROR|DATA_OTHER|DATA|CLOSED|TUNNEL)\b', ['state']),
 (r'State::([A-Z_0-9]+)', ['delstate']), (r'saturating_sub|checked_sub|checked_add|checked_mul', ['sat']), (r'\.\.=', ['..']), (r'(?<=\w)\.\.(?=[a-z(])', ['..='])]
out = []
def add(f, n, l, new, op):
    if new != l: out.append({'file': f, 'line': n, 'old': l, 'new': new, 'op': op})
for p in sorted(glob.glob(R + '/src/**/*.rs', recursive=True)):
    f = os.path.relpath(p, R)
    if f in ('src/lib.rs', 'src/test.rs', 'src/unicode_bestfit_map.rs'): continue
    lines = open(p).read().split('\n'); depth = 0
    for n, l in enumerate(lines):
        if '#[cfg(test)]' in l: break
        s = l.strip()
        if not s or s.startswith(('//', '#', 'use ', 'pub use', '///', 'fn ', 'pub fn', 'impl', 'pub enum', 'pub struct', 'pub type', 'htp_warn', 'htp_error', 'htp_log', '"', 'format!', 'HtpLogCode', 'pub unsafe', 'unsafe extern')): continue
        code = l.split(' //')[0]
        for rx, reps in OPS:
            for m in re.finditer(rx, code):
                for r in reps:
                    t = m.group(0)
                    if r == 'N+1': r2 = str(int(m.group(1)) + 1)
                    elif r == 'X+1': r2 = hex(int(m.group(1), 16) + 1)
                    elif r == 'C+1': r2 = "b'%s'" % chr(ord(m.group(1)) ^ 1) if chr(ord(m.group(1)) ^ 1).isalnum() else t
                    elif r == 'case': r2 = {'cmp_nocase_nozero': 'cmp_slice', 'cmp_nocase': 'cmp_slice', 'get_nocase_nozero': 'get_nocase', 'index_of_nocase': 'index_of', 'eq_ignore_ascii_case': 'eq'}[t]
                    elif r == 'status': r2 = 'HtpStatus::' + {'STOP': 'ERROR', 'ERROR': 'DECLINED', 'DATA_OTHER': 'DATA', 'DATA_BUFFER': 'DATA', 'DATA': 'ERROR'}[m.group(1)]
                    elif r == 'state': r2 = 'HtpStreamState::' + {'STOP': 'ERROR', 'ERROR': 'CLOSED', 'DATA_OTHER': 'DATA', 'DATA': 'DATA_OTHER', 'CLOSED': 'ERROR', 'TUNNEL': 'DATA'}[m.group(1)]
                    elif r == 'delstate':
                        if m.group(1) in ('IDLE', 'FINALIZE'): r2 = 'State::' + {'IDLE': 'FINALIZE', 'FINALIZE': 'IDLE'}[m.group(1)]
                        elif m.group(1) == 'HEADERS': r2 = 'State::FINALIZE'
                        else: r2 = 'State::HEADERS'
                        if '::' + m.group(0) in l: continue
                    elif r == 'sat': r2 = {'saturating_sub': 'wrapping_sub'}.get(t, t)
                    else: r2 = r
                    add(f, n, l, l[:m.start()] + r2 + l[m.end():], rx)
        # delete a whole statement
        if s.endswith(';') and not re.match(r'(let|return|pub|const|static|break|continue|use|\}|\))', s) and s.count('(') == s.count(')') and s.count('{') == s.count('}'):
            prev = lines[n - 1].strip()
            if prev.endswith((';', '{', '}')) or prev.startswith('//'):
                add(f, n, l, re.match(r'\s*', l).group(0) + '{}', 'del')
json.dump(out, open(sys.argv[2], 'w'), indent=0)
from collections import Counter
print(len(out), Counter(o['file'] for o in out))
