#!/usr/bin/env python3
"""Generates types_gen.go: named types of several kinds with every combination
of no/value/pointer receiver for the four marshaling methods."""
import itertools, os
KINDS = [
 ("Int","int",True), ("St2","struct { A int; B string }",True), ("St1p","struct { P *int }",True), ("Map","map[string]int",True),
 ("Str","string",False), ("U8","uint8",False), ("Sl","[]int",False), ("Arr1p","[1]*int",False), ("Fn","func() int",False),
 ("St0","struct{}",False), ("F64","float64",False), ("Bool","bool",False), ("Arr2","[2]int16",False), ("Big","struct { A, B, C, D, E int64; S string; P *int }",False),
]
full = [''.join(c) for c in itertools.product("NVP", repeat=4)]
part = ["NNNN"]
for i in range(4):
    for r in "VP":
        m = ["N"]*4; m[i]=r; part.append(''.join(m))
part += ["NVNV","NNVV","VVVV","PPPP","NNPV","NPVN","NNVP","PNNV"]
out = ["// Code generated by gen.py. DO NOT EDIT.", "", "package kit", "", 'import (', '\t"context"', '\t"reflect"', ')', ""]
reg = []
for k,u,isfull in KINDS:
    for m in (full if isfull else part):
        n = f"{k}_{m}"
        out.append(f"type {n} {u}")
        if k == "Fn":
            out.append(f"func (r {n}) Kit() int {{ return r() }}")
        for c,meth in zip(m, "CAJT"):
            if c == "N": continue
            recv = n if c == "V" else "*"+n
            if meth == "C":
                out.append(f'func (r {recv}) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {{ return callC("{n}", r, c, b) }}')
            elif meth == "A":
                out.append(f'func (r {recv}) AppendJSON(b []byte) ([]byte, error) {{ return callA("{n}", r, b) }}')
            elif meth == "J":
                out.append(f'func (r {recv}) MarshalJSON() ([]byte, error) {{ return callJ("{n}", r) }}')
            else:
                out.append(f'func (r {recv}) MarshalText() ([]byte, error) {{ return callT("{n}", r) }}')
        reg.append(f'\t{{"{n}", reflect.TypeOf((*{n})(nil)).Elem(), "{k}", "{m}"}},')
out += ["", "// Types are all the generated types.", "var Types = []Info{"] + reg + ["}", ""]
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"types_gen.go"),"w").write("\n".join(out))
