#!/usr/bin/env python3
"""Writes harness/registry.h: the instructions, enumerants and operands of the SPIR-V registry as the pinned commit's generated tables have them (run once; the result is committed and is the oracle of G01,
the check itself never runs this). The tables were compared with the declarations of Spv.h, Glsl.h and OpenCl.h when it was written; the differences are printed."""
import re, sys
repo = sys.argv[1] if len(sys.argv) > 1 else '/repo'
L = repo + '/lib/include/spvgentwo/'
g = open(repo + '/lib/source/Grammar.cpp').read(); h = open(L + 'Grammar.h').read(); spv = open(L + 'Spv.h').read()
kinds = {n: int(v) for n, v in re.findall(r'(\w+)=(\d+)u,', h)}; names = {v: k for k, v in kinds.items()}
cur = None; ins = []; params = {}; bases = {}; en = []
Q = {'One': 0, 'ZeroOrOne': 1, 'ZeroOrAny': 2}; C = {'BitEnum': 0, 'ValueEnum': 1, 'Id': 2, 'Literal': 3, 'Composite': 4}
for line in g.split('\n'):
    m = re.search(r'm_instructions\.emplaceUnique\(Hash64\((\w+)u, (\w+)u\), Instruction\{"([^"]*)"', line)
    if m:
        cur = []; ins.append((int(m[1], 0), int(m[2], 0), m[3], cur)); continue
    m = re.search(r'm_operandParameters\.emplaceUnique\(Hash64\((\w+?)u?, (\w+?)u?\)', line)
    if m:
        cur = []; k = (int(m[1], 0), int(m[2], 0)); print('duplicate parameters', k) if k in params else None; params.setdefault(k, cur); continue
    m = re.search(r'm_operandBases\.emplaceUnique\(OperandKind::(\w+)', line)
    if m:
        cur = []; bases[kinds[m[1]]] = cur; continue
    m = re.search(r'emplace_back\(OperandKind::(\w+), OperandCategory::(\w+), "[^"]*", Quantifier::(\w+)\)', line)
    if m and cur is not None: cur.append((kinds[m[1]], C[m[2]], Q[m[3]])); continue
    m = re.search(r'm_operandNames\.emplaceUnique\(Hash64\((\w+?)u?, (\w+?)u?\), "([^"]*)"\)', line)
    if m: en.append((int(m[1], 0), int(m[2], 0), m[3]))
def enum(text, name):
    m = re.search(r'enum class ' + name + r' : unsigned(?: int)?\s*\{(.*?)\n\t\};', text, re.S); out = {}
    if not m: return None
    for n, v in re.findall(r'(\w+)\s*=\s*(\w+)\s*,', m[1]): out[n] = int(v, 0) if v[0].isdigit() else out.get(v, -1)
    return out
ops = enum(spv, 'Op'); seen = {}
for op, ext, n, sig in ins:
    if ext == 0:
        seen[n] = op
        if ops.get(n) != op: print('instruction differs', n, op, ops.get(n))
print('in Spv.h only:', [n for n in ops if n not in seen and ops[n] not in seen.values()])
print('aliases in Spv.h:', len([n for n in ops if n not in seen and ops[n] in seen.values()]))
for ext, f in ((1, 'Glsl'), (2, 'OpenCl')):
    t = open(L + f + '.h').read(); d = {n: int(v) for n, v in re.findall(r'(\w+)\s*=\s*(\d+)\s*,', t)}
    for op, e, n, sig in ins:
        if e == ext and d.get(n) != op: print('extended instruction differs', f, n, op, d.get(n))
    print(f, len([1 for i in ins if i[1] == ext]), 'of', len(d))
for k in sorted({k for k, v, n in en}):
    e = enum(spv, names[k] + 'Mask') or enum(spv, names[k])
    if e is None: print('no enum', names[k]); continue
    mask = enum(spv, names[k] + 'Mask') is not None
    for kk, v, n in en:
        if kk != k: continue
        c = [n, n + 'KHR', names[k] + n, 'Dim' + n, 'MaskNone' if n.startswith('None') else n]; c = [x for x in c if x in e]
        if not c: c = [x for x in e if x.lower() == n.lower() or x.lower().endswith(n.lower())]
        if not c or e[c[0]] != v: print('enumerant differs', names[k], n, v, c, [e[x] for x in c])
    miss = [x for x, v in e.items() if v not in [vv for kk, vv, n in en if kk == k] and x not in ('Max',)]
    if miss: print('missing in grammar', names[k], miss)
dup = {}
for op, ext, n, sig in ins: dup.setdefault((op, ext), []).append((n, sig))
for k, v in dup.items():
    if len(v) > 1: print('same opcode', k, v)
out = ['// the SPIR-V registry as of the pinned commit (written by tools/gen_registry.py, once)', '#pragma once',
       'struct RegOperand { unsigned char kind, category, quantifier; };', 'struct RegIns { unsigned op, ext; const char *name; unsigned first, n; };', 'struct RegEnum { unsigned kind, value; const char *name; };', 'struct RegParam { unsigned kind, value, first, n; };', 'static const RegOperand regOperands[] = {']
pos = 0; lines = []; I = []; P = []; B = []
def add(sig):
    global pos; p = pos
    for s in sig: lines.append('{%d,%d,%d}' % s); pos += 1
    return p, len(sig)
for (op, ext), v in dup.items():
    p, n = add(v[0][1])
    for nm, _ in v: I.append('{%d,%d,"%s",%d,%d}' % (op, ext, nm, p, n))
for (k, v), sig in params.items(): P.append('{%d,%d,%d,%d}' % ((k, v) + add(sig)))
for k, sig in bases.items(): B.append('{%d,0,%d,%d}' % ((k,) + add(sig)))
out.append(', '.join(lines) + '};'); out.append('static const RegIns regIns[] = {\n' + ',\n'.join(I) + '};'); out.append('static const RegEnum regEnums[] = {\n' + ',\n'.join('{%d,%du,"%s"}' % e for e in en) + '};')
out.append('static const RegParam regParams[] = {' + ', '.join(P) + '};'); out.append('static const RegParam regBases[] = {' + ', '.join(B) + '};')
open('/verif/harness/registry.h', 'w').write('\n'.join(out) + '\n'); print(len(I), len(en), len(P), len(B), pos)
