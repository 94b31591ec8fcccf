# writes harness/lib/vas.myr: variadic calls with arguments of many types, walked and compared
import random
P={'bool':1,'char':4,'int8':1,'int16':2,'int':4,'int32':4,'int64':8,'byte':1,'uint8':1,'uint16':2,'uint':4,'uint32':4,'uint64':8,'flt32':4,'flt64':8}
CODE={'bool':'B','char':'C','int8':'i8','int16':'i16','int':'i','int32':'i32','int64':'i64','byte':'b','uint8':'u8','uint16':'u16','uint':'u','uint32':'u32','uint64':'u64','flt32':'f32','flt64':'f64'}
types=[]; 
def al(n,a): return (n+a-1)//a*a
class T:
    pass
def prim(p): t=T(); t.k='p'; t.p=p; t.sz=t.al=P[p]; t.ty=p; t.d=CODE[p]; return t
def struct(ms):
    t=T(); t.k='st'; t.ms=ms; t.al=max([m.al for _,m in ms]); n=0
    for _,m in ms: n=al(n,m.al)+m.sz
    t.sz=al(n,t.al); t.ty='struct\n'+''.join('\t\t%s : %s\n'%(a,m.ty) for a,m in ms)+'\t;;'
    t.d='S('+','.join(a+':'+m.d for a,m in ms)+')'; return t
def tup(ms):
    t=T(); t.k='tu'; t.ms=[(None,m) for m in ms]; t.al=max([m.al for m in ms]); n=0
    for m in ms: n=al(n,m.al)+m.sz
    t.sz=al(n,t.al); t.ty='('+', '.join(m.ty for m in ms)+(',' if len(ms)==1 else '')+')'
    t.d='T('+','.join(m.d for m in ms)+')'; return t
def arr(n,m): t=T(); t.k='ar'; t.n=n; t.m=m; t.sz=n*m.sz; t.al=m.al; t.ty='%s[%d]'%(m.ty,n); t.d='A%d(%s)'%(n,m.d); return t
def sl(m): t=T(); t.k='sl'; t.m=m; t.sz=16; t.al=8; t.ty='%s[:]'%m.ty; t.d='L(%s)'%m.d; return t
def ptr(m): t=T(); t.k='ptr'; t.m=m; t.sz=t.al=8; t.ty='%s#'%m.ty; t.d='P(%s)'%m.d; return t
def name(m):
    t=T(); t.k='nm'; t.m=m; t.sz=m.sz; t.al=m.al; t.ty='n%d'%len(types); types.append('type %s = %s\n'%(t.ty,m.ty.replace('\n\t\t','\n\t').replace('\n\t;;','\n;;'))); t.d='N%s(%s)'%(t.ty,m.d); return t
def union(ms,k):
    ms=[(a+str(len(types)),m) for a,m in ms]; u=T(); u.k='un'; u.ms=ms; u.sel=k; pa=max([4]+[m.al for _,m in ms if m]); u.al=pa
    u.ty='union\n'+''.join('\t\t`%s%s\n'%(a,' '+m.ty if m else '') for a,m in ms)+'\t;;'
    u.sz=al(max([4]+[4+m.sz for _,m in ms if m]),pa); u.d='U('+','.join(a+':'+(m.d if m else '0') for a,m in ms)+')'
    n=name(u); return n
body=[]; cnt=[0]
def fresh(p): cnt[0]+=1; return '%s%d'%(p,cnt[0])
def mk(t,o):
    """returns a variable of type t, and the list of the leaf expressions"""
    v=fresh('v')
    if t.k=='p':
        if t.p=='bool': o.append('var %s : bool = vsym.u8() & 1 == 1'%v); return v,['(%s ? 1 : 0)'%v]
        if t.p=='char': o.append('var %s : char = (vsym.u32() : char)'%v); return v,['(%s : uint64)'%v]
        if t.p=='flt32': o.append('var %s : flt32 = std.flt32frombits(vsym.u32())'%v); return v,['(std.flt32bits(%s) : uint64)'%v]
        if t.p=='flt64': o.append('var %s : flt64 = std.flt64frombits(vsym.u64())'%v); return v,['std.flt64bits(%s)'%v]
        o.append('var %s : %s = (vsym.u%d() : %s)'%(v,t.p,8*P[t.p],t.p)); return v,['(%s : uint64)'%v]
    if t.k in('st','tu'):
        L=[]; E=[]
        for a,m in t.ms:
            x,l=mk(m,o); L+=l; E.append(('.%s=%s'%(a,x)) if a else x)
        if t.k=='st': o.append('var %s : %s = [%s]'%(v,t.ty,', '.join(E)))
        else: o.append('var %s : %s = (%s%s)'%(v,t.ty,', '.join(E),',' if len(E)==1 else ''))
        return v,L
    if t.k=='ar':
        L=[]; E=[]
        for i in range(t.n): x,l=mk(t.m,o); L+=l; E.append(x)
        o.append('var %s : %s = [%s]'%(v,t.ty,', '.join(E))); return v,L
    if t.k=='sl':
        x,l=mk(arr(2,t.m),o); o.append('var %s : %s = %s[:]'%(v,t.ty,x)); return v,['2']+l
    if t.k=='ptr':
        x,l=mk(t.m,o); o.append('var %s : %s = &%s'%(v,t.ty,x)); return v,['(%s : uint64)'%v]
    if t.k=='nm':
        if t.m.k=='un':
            a,m=t.m.ms[t.m.sel]
            if m: x,l=mk(m,o); o.append('var %s : %s = `%s %s'%(v,t.ty,a,x))
            else: l=[]; o.append('var %s : %s = `%s'%(v,t.ty,a))
            return v,[str(t.m.sel)]+l
        x,l=mk(t.m,o)
        o.append('var %s : %s = (%s : %s)'%(v,t.ty,x,t.ty)); return v,l
r=random.Random(5)
pr=list(P)
def rt(d,nou=False):
    k=r.randrange(10) if d else 0
    if k<3: return prim(r.choice(pr))
    if k==3: return struct([(x,rt(d-1)) for x in 'abcde'[:r.randint(1,4)]])
    if k==4: return tup([rt(d-1) for _ in range(r.randint(2,4))])
    if k==5: return arr(r.randint(1,3),rt(d-1))
    if k==6: return sl(rt(d-1) if d>1 else prim('int16'))
    if k==7: return ptr(prim(r.choice(pr)))
    if k==8: return name(rt(d-1))
    ms=[(x,rt(d-1) if r.random()<.8 else None) for x in 'ABCD'[:r.randint(2,4)]]
    return union(ms,r.randrange(len(ms)))
i8,i16,i32,i64,b,c,f32,f64,bo=[prim(x) for x in ('int8','int16','int32','int64','byte','char','flt32','flt64','bool')]
calls=[[prim(x) for x in pr],[prim(x) for x in reversed(pr)],
 [b,tup([b,i64]),b,struct([('x',i16),('y',b)]),i64],
 [b,arr(3,i16),b,arr(2,i64),f32],
 [b,sl(i16),i16,sl(b),b,sl(struct([('a',b),('b',i32)]))],
 [name(i32),b,name(name(struct([('a',i64)]))),b,ptr(b),name(b)],
 [b,union([('A',b),('B',i64)],0),b,union([('A',b),('B',i64)],1),b],
 [union([('A',None),('B',b)],0),union([('A',None),('B',b)],1),b,union([('A',None),('B',None)],1),b,union([('A',i16),('B',tup([b,i32]))],1)],
 [union([('A',struct([('x',b),('y',i64)])),('B',f32),('C',c)],k) for k in (0,1,2)],
 [struct([('averylongmembernametobeencodedinmorethanonebyte%d'%i,struct([('innermembername%d'%j,b if j%2 else i64) for j in range(3)])) for i in range(4)]),b],
 [tup([i64]*40)],[arr(200,b),b],[struct([('a',union([('A',i64),('B',b)],1)),('b',b)]),b]]
for i in range(24): calls.append([rt(3) for _ in range(r.randint(2,4))])
for ci,ts in enumerate(calls):
    o=[]; L=[]; V=[]
    for t in ts: v,l=mk(t,o); V.append(v); L+=l
    f='const call%d = {\n'%ci+''.join('\t'+x+'\n' for x in o)+'\tnwant = 0\n'+''.join('\twant[nwant++] = %s\n'%l for l in L)
    f+='\tshow(%s)\n'%', '.join(V)
    f+='\tvsym.check(2, std.eq(std.sbpeek(sb), "%s"))\n'%''.join(t.d+';' for t in ts)
    for v,t in zip(V,ts):
        f+='\tinfo(std.typeof(%s), sizeof(%s), %d)\n'%(v,t.ty.replace('\n\t\t','\n\t\t\t').replace('\n\t;;','\n\t\t;;'),t.al)
        f+='\tvsym.check(5, std.typeinfo(std.typeof(%s)).size == %s)\n'%(v,t.sz) if t.sz is not None else ''
    f+='}\n'; body.append(f)
M='''/* generated by tools/gen_va.py */
use std
use vsym
'''+''.join(types)+'''
var want : uint64[256]
var got : uint64[256]
var nwant : std.size
var ngot : std.size
var sb : std.strbuf#
const push = {v : uint64; got[ngot++] = v}
const info = {ty, sz : std.size, al
	var ti
	ti = std.typeinfo(ty)
	vsym.check(3, ti.size == sz)
	vsym.check(4, ti.align == al)
}
/* describes a type */
const desc = {ty
	match std.typedesc(ty)
	| `std.Tybool:	std.sbputs(sb, "B")
	| `std.Tychar:	std.sbputs(sb, "C")
'''+''.join('\t| `std.Ty%s:	std.sbputs(sb, "%s")\n'%(p,CODE[p]) for p in P if p not in('bool','char'))+'''	| `std.Typtr e:	wrap("P(", e)
	| `std.Tyslice e:	wrap("L(", e)
	| `std.Tyarray (n, e):
		std.sbputs(sb, "A")
		if n >= 100
			std.sbputb(sb, (48 + n / 100 : byte))
		;;
		if n >= 10
			std.sbputb(sb, (48 + n / 10 % 10 : byte))
		;;
		std.sbputb(sb, (48 + n % 10 : byte))
		wrap("(", e)
	| `std.Tytuple tc:	list("T(", tc, false)
	| `std.Tystruct tc:	list("S(", tc, true)
	| `std.Tyunion tc:	list("U(", tc, true)
	| `std.Tyname (n, e):
		std.sbputs(sb, "N")
		for var i = n.len - 1; i >= 0; i--
			if n[i] == ('.' : byte)
				n = n[i+1:]
				break
			;;
		;;
		std.sbputs(sb, n)
		wrap("(", e)
	| `std.Tynone:	std.sbputs(sb, "0")
	| _:	vsym.check(1, false)
	;;
}
const wrap = {s, e
	std.sbputs(sb, s)
	desc(e)
	std.sbputs(sb, ")")
}
const list = {s, tc, named
	var n, e, pn, pe
	std.sbputs(sb, s)
	for var i = 0; true; i++
		(pn, pe) = std.ncpeek(&tc)
		(n, e) = std.ncnext(&tc)
		vsym.check(6, std.eq(n, pn) && std.eq(e, pe))
		if e.len == 0
			break
		;;
		if i > 0
			std.sbputs(sb, ",")
		;;
		if named
			std.sbputs(sb, n)
			std.sbputs(sb, ":")
		;;
		desc(e)
	;;
	std.sbputs(sb, ")")
}
const elems = {ap
	while std.vatype(&ap).len != 0
		walk(&ap)
	;;
}
/* pushes the leaves of the next value, and skips it */
const walk = {ap : std.valist#
	var ty, p, tag
	ty = std.vatype(ap)
	match std.typedesc(ty)
	| `std.Tybool:	
		var xB : bool = std.vanext(ap)
		push(xB ? 1 : 0)
	| `std.Tychar:	
		var xC : char = std.vanext(ap)
		push((xC : uint64))
	| `std.Tyflt32:	
		var xf : flt32 = std.vanext(ap)
		push((std.flt32bits(xf) : uint64))
	| `std.Tyflt64:	
		var xd : flt64 = std.vanext(ap)
		push(std.flt64bits(xd))
'''+''.join('\t| `std.Ty%s:	\n\t\tvar x%s : %s = std.vanext(ap)\n\t\tpush((x%s : uint64))\n'%(p,p,p,p) for p in P if p not in('bool','char','flt32','flt64'))+'''	| `std.Typtr _:	
		var xp : byte# = std.vanext(ap)
		push((xp : uint64))
	| `std.Tyslice _:
		var in = std.vaenter(ap), l : std.intptr[2]
		p = std.vabytes(ap)
		vsym.check(7, p.len == 16)
		l = ((p : byte#) : std.intptr[2]#)#
		push((l[1] : uint64))
		elems(in)
	| `std.Tyarray _:
		var in = std.vaenter(ap)
		elems(in)
		skip(ap)
	| `std.Tytuple _:
		var in = std.vaenter(ap)
		elems(in)
		skip(ap)
	| `std.Tystruct _:
		var in = std.vaenter(ap)
		elems(in)
		skip(ap)
	| `std.Tyname _:
		var in = std.vaenter(ap)
		walk(&in)
		skip(ap)
	| `std.Tyunion _:
		var cp : std.valist = ap#
		tag = ((std.vabytes(&cp) : byte#) : int32#)#
		push((tag : uint64))
		var in = std.vaenterunion(ap, tag)
		match std.typedesc(std.vatype(&in))
		| `std.Tynone:
		| _:	walk(&in)
		;;
		skip(ap)
	| _:	vsym.check(1, false)
	;;
}
const skip = {ap
	var ty, p
	ty = std.vatype(ap)
	p = std.vabytes(ap)
	vsym.check(8, p.len == std.typeinfo(ty).size)
}
const show = {args : ...
	var ap, bp
	sb = std.mksb()
	ap = std.vastart(&args)
	bp = std.vastart(&args)
	ngot = 0
	while std.vatype(&ap).len != 0
		desc(std.vatype(&ap))
		std.sbputs(sb, ";")
		walk(&ap)
		skip(&bp)
	;;
	vsym.check(9, ngot == nwant)
	vsym.check(10, std.vatype(&bp).len == 0)
	for var i = 0; i < nwant; i++
		vsym.check(11, want[i] == got[i])
	;;
}
'''+''.join(body)+'const main = {\n\tmatch vsym.kase()\n'+''.join('\t| %s:	call%d()\n'%(i+1 if i<len(calls)-1 else '_',i) for i in range(len(calls)))+'\t;;\n\tvsym.done()\n}\n'
open('harness/lib/vas.myr','w').write(M)
open('checks/S18.py','w').write('''LIBS = ['std']
def setup(ck):
    h = ck.harness('vas', 'lib/vas.myr')
    N = %r
    for i, n in enumerate(N): ck.case(h, i + 1, 'variadic arguments: ' + n, 'every value of every member', expect=[2, 3, 4, 9, 10], time=60)
'''%[('; '.join(t.d for t in ts))[:90] for ts in calls])
print(len(calls))
