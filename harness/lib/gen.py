#!/usr/bin/env python3
"""Generates lib/types.go: leaf types, underlying kind x marshaling method set x receivers."""
import os
KINDS = [ # (id, go type, expression giving the code of x, imports)
 ('Bool','bool','b2i(bool(x))'),
 ('Int','int','int(x)'),
 ('I8','int8','int(x)'),
 ('U8','uint8','int(x)'),
 ('U64','uint64','int(x)'),
 ('I16','int16','int(x)'),
 ('F64','float64','int(x)'),
 ('Str','string','strCode(string(x))'),
 ('Ints','[]int','slCode([]int(x))'),
 ('Byts','[]byte','bsCode([]byte(x))'),
 ('Map','map[string]int','int(x["k"])'),
 ('A2','[2]int','x[0]'),
 ('A1P','[1]*int','pCode(x[0])'),
 ('A0','[0]int','0'),
 ('S','struct{ A int; B string }','x.A'),
 ('SP','struct{ P *int }','pCode(x.P)'),
 ('SM','struct{ M map[string]int }','int(x.M["k"])'),
 ('SU','struct{ a int8; B []int }','int(x.a)'),
 ('S0','struct{}','0'),
 ('SL','struct{ A, B, C, D uint64; E string }','int(x.E0())'),
 ('Fn','func() int','fnCode(x)'),
 ('Ch','chan int','cap(x)'),
]
SETS = ['J','j','T','t','A','a','C','c',   # upper: value receiver, lower: pointer receiver
 'JT','Jt','jT','jt','AJ','aJ','Aj','AT','at','CA','cA','Ca','CJ','cT','ajt','CAJT','cajt','CajT','caJT']
METH = {'J':'MarshalJSON() ([]byte, error)','T':'MarshalText() ([]byte, error)',
        'A':'AppendJSON(dst []byte) ([]byte, error)','C':'AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error)'}
CALL = {'J':'doJSON(%s)','T':'doText(%s)','A':'doAppend(dst, %s)','C':'doCtx(ctx, dst, %s)'}
out=['// Code generated by gen.py. DO NOT EDIT.','','package lib','','import (','\t"context"','\t"reflect"','\t"unsafe"',')','','var _ unsafe.Pointer','']
reg=[]
n=0
for kid,gt,code in KINDS:
    # plain named type, no methods
    for ms in ['']+SETS:
        if gt.startswith('struct{ A, B') and ms not in ('J','j','t','CajT','a','JT','C'): continue
        name='L%s_%s'%(kid, ''.join((c+'v' if c.isupper() else c.upper()+'p') for c in ms) or 'None')
        out.append('type %s %s'%(name,gt)); out.append('')
        c=code
        if 'E0()' in code: c='strCode(x.E)'
        for m in ms:
            M=m.upper()
            if m.isupper():
                out.append('func (x %s) %s { return %s }'%(name,METH[M],CALL[M]%('"%s", %s, nil'%(name,c))))
            else:
                if kid in('Map','A2','A1P','A0'): cc=c.replace('x[','(*x)[')
                elif kid in('S','SP','SM','SU','SL'): cc=c
                elif kid=='S0': cc=c
                elif kid in('Int','I8','U8','U64','F64','I16','Bool','Str','Ints','Byts'): cc=c.replace('(x)','(*x)')
                elif kid=='Fn': cc='fnCode(*x)'
                elif kid=='Ch': cc='cap(*x)'
                out.append('func (x *%s) %s { if x == nil { return %s }; return %s }'%(name,METH[M],CALL[M]%('"%s", -1, nil'%name),CALL[M]%('"%s", %s, unsafe.Pointer(x)'%(name,cc))))
        out.append('')
        reg.append((name,kid,ms))
out.append('var Leaves = []Leaf{')
for name,kid,ms in reg:
    out.append('\t{reflect.TypeOf((*%s)(nil)).Elem(), "%s", "%s"},'%(name,kid,ms))
out.append('}')
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'types.go')
open(p,'w').write('\n'.join(out)+'\n')
os.system('gofmt -w '+p)
