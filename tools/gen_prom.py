#!/usr/bin/env python3
"""Writes mc/cmd/mc/prom_gen.go: struct types that embed something with methods and have some of their own."""
import itertools, os
sig = {
 'J': ('MarshalJSON() ([]byte, error)', 'return []byte(`"%s"`), nil'),
 'T': ('MarshalText() ([]byte, error)', 'return []byte(`%s`), nil'),
 'A': ('AppendJSON(b []byte) ([]byte, error)', 'return append(b, `"%s"`...), nil'),
 'C': ('AppendJSONContext(_ context.Context, b []byte) ([]byte, error)', 'return append(b, `"%s"`...), nil'),
}
out = ['// Code generated by tools/gen_prom.py. DO NOT EDIT.', '', 'package main', '', 'import (', '\t"context"', '\t"encoding"', '\t"encoding/json"', '', '\t"github.com/wI2L/jettison"', ')', '']
emb = [('n', None)]
for m in 'JTAC':
    out.append(f'type pgV{m} struct{{ N int }}')
    out.append(f'func (pgV{m}) {sig[m][0]} {{ {sig[m][1] % ("V"+m)} }}')
    out.append(f'type pgP{m} struct{{ N int }}')
    out.append(f'func (*pgP{m}) {sig[m][0]} {{ {sig[m][1] % ("P"+m)} }}')
for m, t in zip('JTAC', ['json.Marshaler', 'encoding.TextMarshaler', 'jettison.AppendMarshaler', 'jettison.AppendMarshalerCtx']):
    emb.append(('i' + m, t))
out.append('type pgIJT interface { json.Marshaler; encoding.TextMarshaler }')
emb.append(('iX', 'pgIJT'))
for m in 'JTAC':
    emb += [('v' + m, 'pgV' + m), ('p' + m, 'pgP' + m), ('q' + m, '*pgP' + m)]
out.append('type pgAll struct{ N int }')
for m in 'JTAC':
    out.append(f'func (pgAll) {sig[m][0]} {{ {sig[m][1] % ("all"+m)} }}')
owns = [()]
for n in (1, 2):
    for ms in itertools.combinations('JTAC', n):
        for rs in itertools.product('vp', repeat=n):
            owns.append(tuple(zip(ms, rs)))
names = []
for e, t in emb:
    for own in owns:
        for extra in (0, 1):
            if extra and len(own) > 1 or t is None and not extra:
                continue
            n = 'pg_' + e + '_' + ''.join(m + r for m, r in own) + '_' * extra
            names.append(n)
            fs = ([t] if t else []) + (['X int'] if extra else [])
            out.append(f'type {n} struct {{ ' + '; '.join(fs) + ' }')
            for m, r in own:
                out.append(f'func ({"*" if r == "p" else ""}{n}) {sig[m][0]} {{ {sig[m][1] % ("own"+m)} }}')
out.append('var pgTypes = []interface{}{' + ', '.join(f'new({n})' for n in names) + '}')
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'mc', 'cmd', 'mc', 'prom_gen.go')
open(p, 'w').write('\n'.join(out) + '\n')
os.system('gofmt -w ' + p)
print(len(names))
