#!/usr/bin/env python3
"""Generates zoo.go: static struct families. usage: gen.py SEED OUT"""
import os, random, sys
seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
out = sys.argv[2] if len(sys.argv) > 2 else os.path.join(os.path.dirname(os.path.abspath(__file__)), 'zoo.go')
R = random.Random(seed * 7919 + 13)
N = 240

KINDS = ['Bool','Int','I8','U8','U64','I16','F64','Str','Ints','Byts','Map','A2','A1P','A0','S','SP','SM','SU','S0','Fn','Ch']
SETS = ['J','j','T','t','JT','Jt','jT','jt']
EXTS = ['A','a','C','c','AJ','aJ','Aj','AT','at','CA','cA','Ca','CJ','cT','ajt','CAJT','cajt','CajT','caJT']
def mname(s): return ''.join((c+'v' if c.isupper() else c.upper()+'p') for c in s) or 'None'
def leaf(ext):
    k = R.choice(KINDS)
    s = R.choice(EXTS) if ext and R.random() < .6 else R.choice(SETS)
    return 'lib.L%s_%s' % (k, mname(s))

PRIM = ['int','string','bool','float64','uint8','int16','uint64','float32','string','int','int64','uintptr','int8']
FN = ['A','B','C','D','E','F','G','É']
TAGS = ['a','b','A','B','c','D','E','x y','<&>','a;b','é','-,','F','bad"q']
names = []       # (name, exported)
for i in range(N):
    e = R.random() < .5
    names.append(('Z%d' if e else 'z%d') % i)

ARGS = ['int','string','bool','*int','[]byte','any','time.Time','lib.LStr_Tv','float32','lib.LS_Jp','lib.GInt[int]','map[string]int','[2]bool','uint8','*lib.GS[int]']
def generic(ext, embedded=False):
    a = R.choice(ARGS)
    l = ['lib.GS[%s]' % a, 'lib.GEmb[%s]' % a, 'lib.GPair[%s, %s]' % (R.choice(['int','string','lib.TextKey','lib.GK[int]']), a), 'lib.GPtr[%s]' % a, 'lib.GInt[%s]' % a,
         'lib.GMap[%s]' % a, 'lib.GList[%s]' % a, 'lib.GArr[%s]' % a, 'lib.GJ[%s]' % a, 'lib.GT[%s]' % a, 'lib.GUn[%s]' % a, 'lib.GK[%s]' % a]
    l += ['lib.AliasInt','lib.AliasStr','lib.AliasS','lib.AliasG','lib.AliasGInt']
    if ext: l += ['lib.GA[%s]' % a]
    if not embedded: l += ['lib.AliasMap', 'map[lib.GK[%s]]%s' % (a, a)]
    return R.choice(l)

def typ(i, ext, depth=0):
    if R.random() < .04: return generic(ext)
    r = R.random()
    if depth > 2: r = R.random() * .3
    if r < .36: return R.choice(PRIM)
    if r < .46: return leaf(ext)
    if r < .52: return R.choice(['any','any','error','lib.Coder','lib.JSONer','lib.Texter','fmt.Stringer','any'])
    if r < .57: return R.choice(['time.Time','time.Duration','json.Number','json.RawMessage','*time.Time','*json.RawMessage'] + (['sync.Map','*sync.Map'] if ext else []))
    if r < .67: return '*' + typ(i, ext, depth+1)
    if r < .74: return '[]' + typ(i, ext, depth+1)
    if r < .79: return '[%d]' % R.choice([0,1,1,2,3]) + typ(i, ext, depth+1)
    if r < .86: return 'map[%s]' % R.choice(['string','string','int','uint8','lib.TextKey','time.Time']) + typ(i, ext, depth+1)
    if r < .93:
        # any other type behind an indirection: recursion
        return R.choice(['*%s','[]%s','map[string]%s','map[string]*%s','[]*%s','**%s','[][]%s']) % R.choice(names)
    if r < .98 and i > 0: return R.choice(['%s','%s','[1]%s','[2]%s','struct{ X %s }']) % names[R.randrange(i)]
    return R.choice(['struct{}','struct{ P *int }','[1]*int','[4]byte','[]byte','chan int','func()'] if R.random() < .5 else ['struct{}','struct{ P *int }','[1]*int','[4]byte','[]byte'])

def tag(embedded=False):
    if R.random() < (.75 if embedded else .6): return ''
    n = R.choice(TAGS) if R.random() < .6 else ''
    o = []
    if R.random() < .35: o.append('omitempty')
    if R.random() < .12: o.append('omitnil')
    if R.random() < .25: o.append('string')
    R.shuffle(o)
    t = ','.join([n]+o)
    if R.random() < .06: t = '-'
    if t == '': return ''
    return ' `json:"%s"`' % t.replace('"', '\\"')

body = []
size = {}  # rough count of embedded depth to bound by-value growth
for i, nm in enumerate(names):
    ext = R.random() < .3
    fam = R.random()
    fs, used = [], set()
    def add(n, line):
        if n in used: return
        used.add(n); fs.append('\t' + line)
    cost = 1
    nf = R.choice([0,1,1,2,2,3,3,4,5,6,8])
    ne = R.choice([0,0,1,1,1,2,2,3,4]) if fam < .75 else 0
    items = ['f']*nf + ['e']*ne
    R.shuffle(items)
    for it in items:
        if it == 'f':
            x = R.random()
            if x < .05: add('u%d' % len(fs), 'u%d %s' % (len(fs), R.choice(['int','string','*int','map[string]int'])))
            elif x < .07: fs.append('\t_ int')
            else:
                n = R.choice(FN)
                add(n, '%s %s%s' % (n, typ(i, ext), tag()))
        else:
            x = R.random()
            if R.random() < .1:
                g = generic(ext, True)
                p = '*' if R.random() < .3 else ''
                cost += 4
                add(g.split('[')[0].split('.')[1], p + g + tag(True))
            elif x < .72 and i > 0:
                j = R.randrange(max(0, i-40), i)
                if x < .40 or size.get(j,1) > 30:
                    p = '*' if size.get(j,1) > 30 or R.random() < .35 else ''
                else:
                    p = '*' if R.random() < .45 else ''
                # sometimes a pointer to a later type: embedded recursion
                if p and R.random() < .25: j = R.randrange(N)
                if not p: cost += size.get(j,1)
                add(names[j], '%s%s%s' % (p, names[j], tag(True)))
            elif x < .84:
                l = leaf(ext) if R.random() < .55 else 'lib.L%s_None' % R.choice(KINDS)
                p = '*' if R.random() < .3 else ''
                add(l.split('.')[1], '%s%s%s' % (p, l, tag(True)))
            elif x < .90:
                l = R.choice(['time.Time','time.Duration','json.Number','json.RawMessage','*time.Time','*json.Number'] + (['sync.Map','*sync.Map'] if ext else []))
                add(l.split('.')[1], l + tag(True))
            elif x < .96:
                l = R.choice(['emInt','emStr','emMap','emSlice','EmInt','EmMap','EmSlice','*emInt','*EmInt','emPtr','EmArr'])
                add(l.strip('*'), l + tag(True))
            else:
                l = R.choice(['lib.Coder','lib.JSONer','error','lib.Texter','lib.Empty'])
                add(l.split('.')[-1], l + tag(True))
    size[i] = cost
    body.append('type %s struct {\n%s\n}\n' % (nm, '\n'.join(fs)))

# types of the same names
local = []
NL = 40
for i in range(NL):
    l = ['func local%d() []reflect.Type {' % i]
    def ltyp(own):
        r = R.random()
        if own and r < .3: return R.choice(['*%s','[]%s','map[string]%s','%s','[1]*%s']) % R.choice(own)
        if r < .5: return R.choice(['*','[]','[2]','map[int]','[1]*','']) + 'alt.' + R.choice(['LInt_Jv','LStr_Tv','LS_Jp','LMap_None','TextKey','CodeInt','RawJ','LInt_Jp','LStr_None'])
        if r < .6: return R.choice(['*','[]','']) + 'lib.' + R.choice(['LInt_Jv','LStr_Tv','LS_Jp','LMap_None','TextKey','CodeInt','RawJ','LInt_Jp','LStr_None'])
        return typ(0, False, 1)
    own = []
    for n in ['T', 'U', 'V']:
        fs, used = [], set()
        if own and R.random() < .7:
            e = R.choice(own); fs.append(R.choice(['', '*']) + e + tag(True)); used.add(e)
        for k in range(R.choice([0,1,1,2,3,4])):
            f = R.choice(FN)
            if f in used: continue
            used.add(f); fs.append('%s %s%s' % (f, ltyp(own), tag()))
        l.append('\ttype %s struct {\n%s\n\t}' % (n, '\n'.join('\t\t' + f for f in fs)))
        own.append(n)
    l.append('\ttype M %s' % R.choice(['map[string]T', 'map[int]M', '[]M', '[]*U', 'map[string]*M', '*int', '[1]*M', '[2]T', 'string', 'uint16', 'struct{ P *int }', '[1]*T', 'map[string]int', '[]byte', 'float32']))
    l.append('\treturn []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}\n}')
    local.append('\n'.join(l) + '\n')

o = ['// Code generated by gen.py. DO NOT EDIT.','','// Package zoo has generated static struct families.','package zoo','',
 'import (','\t"encoding/json"','\t"fmt"','\t"reflect"','\t"sync"','\t"time"','','\talt "jverif/alt/lib"','\t"jverif/lib"',')','',
 'var (\n\t_ json.Number\n\t_ fmt.Stringer\n\t_ *sync.Map\n\t_ time.Time\n\t_ lib.Leaf\n\t_ alt.RawJ\n)\n',
 'type (\n\temInt int\n\temStr string\n\temMap map[string]int\n\temSlice []string\n\temPtr struct{ P *int }\n\tEmInt int\n\tEmMap map[string]int\n\tEmSlice []int\n\tEmArr [2]int8\n)\n']
o += body
o.append('// Types are the generated types.\nvar Types = []reflect.Type{')
for n in names: o.append('\treflect.TypeOf((*%s)(nil)).Elem(),' % n)
o.append('}\n')
o += local
o.append('func init() {')
for i in range(NL): o.append('\tTypes = append(Types, local%d()...)' % i)
o.append('\tTypes = append(Types, alt.Types...)\n}')
open(out,'w').write('\n'.join(o)+'\n')
