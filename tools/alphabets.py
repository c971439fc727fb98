"""Alphabets whose short sequences the specification enumerates exhaustively.

A(frags, quick depth, thorough depth, prefix, suffix, ...): every sequence of
at most that many fragments, between prefix and suffix, is one makefile.
"""
from gen import codes

class A:
    def __init__(self, frags, quick, thorough, prefix='', suffix='', cc='\t', fs=(), main=(1,)):
        self.__dict__.update(frags=frags, quick=quick, thorough=thorough, prefix=prefix, suffix=suffix, cc=cc, fs=fs, main=main)

ALPHABETS = {
'C01': [
    A(['a=$b\n', 'a:=$b\n', 'a+=$b\n', 'a?=$b\n', 'a+=x\n', 'b=1\n', 'b:=$(a)2\n', 'b+=3\n', 'b?=4\n', 'a::=7\n'], 3, 5),
    A(['a=$b\n', 'a:=$b\n', 'a+=$b\n', 'b=1\n', 'b+=3\n', 'define a\n5$b\nendef\n', 'define a +=\n6\nendef\n', 'a?=$b\n'], 3, 5),
    A([' ', 'a', ':', '=', '+', '?', '$b', '\t'], 4, 5, prefix='b=bv\na=0\n', suffix='1 \n'),
    A([' ', 'a', ':=', '=', '+=', '?=', '$(b)', '$(b:v=w)', '!', 'é'], 3, 5, prefix='b=bv\nbv:=0\n', suffix='1\n'),
    A([' ', 'x', '$b', '\\', '#', '$$', '\t', '${b}', '='], 3, 5, prefix='b=B$$\nr:=', suffix='\ns:=$r\nr+=$b\nb=N\n'),
],
'C02': [
    A(['$', '(', ')', '{', '}', 'a', 'b', ' ', 'é'], 4, 5, prefix='a=A$bB\nb=[$(c)]\nc=3\nab=4\né=5\nx:=<', suffix='>\n'),
    A(['$(a)', '${b}', '$c', '$$', 't', '$($d)', '${${d}}', '$(d$(e)d)', '$(eval c=7)', ' ', '$(nope)'], 3, 4,
      prefix='a=A$bB\nb=[$(c)]\nc=3\nd=b\ndxd=dx\ne=x\nr=', suffix='\ns:=$(r)$(r)\nc=8\n'),
],
'C03': [
    A(['.c', '%', 'x', '\\', '.o', '=', ':', ' '], 4, 5, prefix='a=x.c  foo.o x.cc.c c x%.c \nr=$(a:', suffix=')\n'),
    A(['a', 'b', '%', 'é', '=', '$k'], 4, 6, prefix='k=%b\nv=ab aab\tabb éa aéb b a bab\nr=<${v:', suffix='}>\n'),
    A(['a', 'b', '%'], 4, 6, prefix='v=a b ab ba aa bb aab aba baa abb bab bba abab aabb\nr=$(v:', suffix='=[%])\ns=$(v:a%=x%%)\nt=$(v:%b=q)\n'),
    A(['%', '\\', 'b', '\\\\'], 4, 6, prefix='v=ab a%b a\\%b %\nr=$(v:a', suffix='b=[%])\ns=$(v:%b=x\\%%)\n'),
    A([' ', '\t', 'a', 'b.c', '$(e)', '$(w)'], 4, 6, prefix='e=\nw= p.c  q \nv=', suffix='\nr=[$(v:.c=.o)]\ns=[$(v:%=%-)]\n'),
],
'C04': [
    A(['ifeq (1,1)\n', 'ifeq (1,2)\n', 'else\n', 'endif\n', 'x+=1\n', 'k: d\n', '\tc$x\n', '$(eval y+=2)\n'], 4, 6, prefix='x=\n'),
    A(['ifeq (1,1)\n', 'ifeq (1,2)\n', 'else\n', 'endif\n', 'x+=1\n'], 5, 7, prefix='x=\n'),
    A(['ifneq (1,1)\n', 'ifneq ($(eval a+=E),)\n', 'ifeq ($a, $b)\n', 'else\n', 'endif\n', 'a=$b\n', 'b=E\n', 'include f1\n'], 4, 5,
      fs=(('f1', 'a+=F\nelse\n'), )),
    A(['(', ')', ',', 'a', ' ', '$x', '"', "'"], 4, 5, prefix='x=a\nifeq ', suffix='\nr=1\nelse\nr=2\nendif\n'),
    A(['(', ')', ',', 'a', ' ', '$(x)', '$(y)', '{'], 4, 5, prefix='x=a\ny=(,)\nifneq (', suffix=')\nr=1\nendif\n'),
    A(['ifeq (1,2)\n', 'ifeq (1,1)\n', 'endif\n', 'else\n', '\tc1\n', '\tc2\n', 'w=1\n', '# c\n'], 4, 5, prefix='t: d\n', suffix='u: e\n\tc3\n'),
    A(['define d\n', 'endef\n', 'endif\n', 'else\n', 'ifeq (1,1)\n', 'w=1\n', 'x \\\n', '#c\\\n', 'define = 2\n', 'export define d # c\n', '\tq\n', 'override x\n'], 4, 5, prefix='t: d\nifeq (1,2)\n', suffix='endif\nu: e\n'),
],
'C05': [
    A(['define a\n', 'endef\n', 'x=1\n', '#c $x\n', '\\\n', '\n', '\tt\n', '$(eval $a)\n'], 4, 5),
    A(['define a +=\n', 'define b\n', 'endef\n', 'a=0\n', 'x $a\\\n', ' endef # c\n', 'b := $a\n', 'ifeq (1,2)\n'], 4, 5, suffix='\nz:=$a|$b|\n'),
    A(['d', 'endef', ' ', '\n', '#', '\t', 'define', '\\'], 4, 5, prefix='define v\n', suffix='\nendef\nw=1\n'),
    A(['define a :=\n', 'define a ?=\n', 'define a +=\n', 'define a\n', 'a=0$b\n', 'b=1\n', '$b\nendef\n', 'a:=7\n', 'define b::= #c\n', '$(a)\n'], 4, 5, prefix='b=2\n', suffix='\nb=3\nz:=$a|$b|\n'),
    A(['$(', ')', '\n', 'b', 'strip ', '${', '}', ':', '='], 4, 5, prefix='b=2\ndefine v\n', suffix='\nendef\nw=1\n'),
    A([' ', 'a', 'b', ':', '=', '+', '?', '#', '$b', '\\\n'], 3, 5, prefix='b=x\na=0\ndefine ', suffix='\n1$b\nendef\nb=3\nc:=$a\n'),
],
'C06': [
    A(['a: x\n', 'a: y z\n', 'a b: x\n', '\tc1\n', '\tc2\n', 'b: y; s\n', 'a:: w\n', 'v=1\n', '# c\n', '$(eval b: e)\n'], 4, 5),
    A(['a b: x\n', 'b: y\n\tr\n', '\n', 'include f1\n', 'define z\nendef\n', '$e\n', 'ifeq (1,1)\n', 'endif\n', '\tq\n', 'a:; i\n'], 3, 5,
      prefix='e=\n', fs=(('f1', 'a: f\n\tfr'),)),
    A(['$t: x\n', '$t: $p; r\n', 't=a b\n', 't=b\n', 'p=y $t\n', '\tc\n', 'a: a a\n', 'a:\n'], 4, 5, prefix='t=a\np=q\n'),
],
'C07': [
    A(['a:\n', '\tx\n', '\t$v\\\n\ty\n', 'v=1\n', '\t# c\n', '# c\n', ' \n', 'ifeq (1,1)\n', 'endif\n', '\tv=9\n', 'b: ;i$v\n'], 3, 4),
    A(['\t', '\\', '\n', 'x', '#', '$v', ' ', '\r\n'], 5, 6, prefix='a: b\n', suffix='\nv=1\n'),
    A(['>', '\t', '\\\n', '\n', 'x', '#', 'v=2', ': d', ' '], 4, 5, prefix='v=1\na: b\n>p\n', cc='>'),
    A(['>', '\n', 'é', ';', '$v', 'k:', ' ', '\\\n'], 4, 5, prefix='v=1\n', cc='é'),
    A(['\t@$x\n', '\tif a; \\\n\tthen b\n', '\tk: l\n', '\tendif\n', 'q r: s; t \\\n u\n', '\n', '\t\n', 'x=2\n', '#\n\t#\n', '\t a # b\n'], 3, 4, prefix='x=1\nk:\n'),
],
'C08': [
    A(['\\', '\n', '#', ' ', 'x', '=', '\t', '\r\n'], 4, 6, prefix='v='),
    A(['\\', '\n', '#', ' ', 'b', '=', '\t', '\r\n', ':'], 4, 5, prefix='', suffix='\nw=1\n'),
    A(['\\\n', '\\\\\n', ' ', 'x', '#', '\n', 'w=1', '\\'], 4, 5, prefix='v = a', suffix='\nz=1'),
    A(['\\#', '\\', '#', ' ', '$h', '\\\n', ':', '='], 4, 6, prefix='h=\\#\nk', suffix='x\nz=1\n'),
    A(['\\#', '\\\\#', '#', ',', ')', 'a', ' ', '$h'], 4, 5, prefix='h:=\\#\nifeq (', suffix='\nz=1\nendif\ny=$(\\#)\n'),
    A(['\ufeff', '\n', '\r', '\t', ' ', 'a=1', '#', '\\'], 4, 5),
    A(['\\\n', '\\\r\n', ' ', 'x', ':', '\n', '\t', '#c'], 4, 5, prefix='k', suffix='y\nz=1\n'),
],
'C09': [
    A(['a', ' ', ':', '\\', ';', '$c', '$s', '='], 4, 6, prefix='c=:\ns=p q\n', suffix='z\n\tr\n'),
    A(['a', ' ', ':', '\\', '\\\\', '\t', 'é', '%'], 4, 6, prefix='', suffix=': d\n'),
    A(['a', ' ', ':', '\\', '\\\\', ';', '$x', '('], 4, 6, prefix='x=a\\ b\nt: ', suffix='\n'),
    A(['$c', '$(c)d', 'a', ' ', '$s', '$m', '$e', '$$', '${s}'], 3, 5, prefix='c=:\ns=p q\nm=x y; z\ne=\n', suffix='\n\tr\n'),
    A(['a', 'c', ':\\', ':', ' ', '/', '1', '::'], 4, 5, prefix='', suffix='\n'),
    A(['$m', '$n', ':', ';', ' ', 'k', '\\', '$c'], 4, 6, prefix='m=x;y\nn=u: v;w\nc=:;\n', suffix='z\nb=1\n'),
    A(['$t', '$d', '$c', ' ', 'k', '::', ';r'], 4, 5, prefix='t=u\\:v w\nd=e\\ f g\nc= : \n', suffix='\n'),
],
'C10': [
    A(['$(eval a=1)', 'x', '$a', '=', ': ', '$(eval k: $a)', '$(eval a+=$$b)', '${eval b:=$a}', ' ', ':='], 4, 5, prefix='b=0\n', suffix='\n'),
    A(['$(eval a+=x)', '$a', ',', ' x', '$(eval a=)'], 4, 6, prefix='a=\nifeq (', suffix=')\nb=y\nelse\nb=n\nendif\n'),
    A(['$(eval a+=x)', '$a', ': ', ' ', '\n\t', ';', '$(eval k: a)'], 4, 5, prefix='a=p\n', suffix='\n'),
    A(['$(eval a+=x)', '$a', '$(a:p=q)', '$($a)', ' ', '$(eval include f)'], 4, 5, prefix='a=p\np=o\ninclude ', suffix=' f\n', fs=(('f', 'v+=$a\na+=f\n'), ('p', 'v+=P\n'), ('q', 'v+=Q\n'))),
    A(['$(eval $d)\n', '$(eval $$d)\n', 'k: $(eval $d)x\n', '\tr$(eval c=3)\n', 'ifeq ($(eval $d),)\n', 'endif\n', 'c:=$(eval $d)2\n', 'd=$(eval e+=5)\n', 'a:\n'], 3, 4,
      prefix='define d\na: b\n\tc1\nifeq (1,1)\nc=$$c4\nendif\nendef\nc:=\n'),
    A(['$(eval ', ')', '$$', 'a', '=', '$b', ':', ' '], 4, 6, prefix='b=x y\n', suffix=')\nz=$a\n'),
    A(['ifeq (1,2)\n', 'else\n', 'a+=1\n', 't: u\n', '\tr\n', '$(eval $v)\n', 'endif\n', '$(eval $w)\n'], 4, 5,
      prefix='define v\nifeq (1,1)\na+=2\nendef\ndefine w\nifeq (1,2)\nelse\na+=3\nt: w\nendef\n'),
],
'C11': [
    A(['include f1\n', '-include nope f2\n', 'include nope\n', 'include f1 f2\n', 'v+=1\n', 'ifeq (1,2)\n', 'endif\n', '\tr\n', 'a: b\n', 'sinclude $n\n'], 3, 5,
      prefix='n=f2\n', fs=(('f1', 'v+=f1$n\na: c\n\tr1'), ('f2', 'ifeq (1,1)\nv+=f2\nelse\nv+=no\n'))),
    A(['include', '-include', ' ', 'f1', '\t', '$n', '#', 's'], 4, 6, prefix='n=f2 f1\n', suffix='\nw=1\n',
      fs=(('f1', 'v+=1\n'), ('f2', '\ufeffv+=2'))),
    A(['v+=m\n', 'include f1\n', 'k: m\n', '\tcm\n', 'include nope\n', '$(eval include f1)\n', 'endif\n', 'x\\\n'], 3, 4,
      fs=(('f1', 'k: f\nv+=f\ninclude f2\n'), ('f2', 'v:=$v$w\n\n'), ('m2', 'v+=2\nk: z\n')), main=(1, 4, 1)),
],
'C12': [
    A(['a:=$b\n', 'b=$c\n', 'c:=$($d)\n', 'd=e\n', 'e=$a\n', 'a+=$e\n', 't$b: $c $d\n', 'x:=$(c:$d=$e)\n', 'b?=$x\n'], 3, 5, suffix='z:=<$a$b>\nu $z: $z $(a)k\n'),
    A(['$a', '${b}', '$($(a))', 'k', ' ', '$(c:$a=$b)', '$n', ':', ';$b'], 4, 5, prefix='a=b\nb:=$a\nc=x$n\n', suffix='\ny=1\n'),
    A(['$a', ' ', ':', '$(col)', '$(both)', 'k', '$e', '$(semi)'], 4, 6, prefix='a=t u\ncol=:\nboth=t: p\ne=\nsemi=$a;$b\n', suffix='\n'),
],
'C13': [
    A(['é=你$b\n', 'b:=$(é)x\n', 'b+=$(é:x=é)\n', 'define é\n你\n$b\nendef\n', 'k$b: $(é)\n', 'a:=$é\\\n  😀\n', '$(eval c=$b$(é))\n', 'd=$c$b\n'], 3, 5,
      prefix='# é\n', suffix='z:=$a$b$c$d\n'),
    A(['é', '$b', '\\\n', ' ', '$$', '${b}', '\t', '😀', '$(b:y=%)'], 4, 5, prefix='b= x 你y\n  r=', suffix='!\ns:=$r\n'),
    A(['é', ' ', ':', '\\ ', '$b', '\\\n', '你:'], 4, 6, prefix='b=x 你y\n', suffix='z\n'),
    A(['é', '%', '=', 'x', '$b', ':'], 4, 6, prefix='b=é你x xé\n\t \\\n r:=$(b:', suffix=')|\n'),
    A(['include f1\n', '$(eval $v)\n', 'x:=$a$v\n', 'define v\na=$$a é\nk: $a\nendef\n', 'a:=😀 $x\n', 'k: $x\n\tr$a\n'], 4, 5, fs=(('f1', '\ufeffa+=你\n\nv:=$a\\\n é'), )),
    A(['\\', '\n', '#', ' ', 'é', '$b', '\r\n', '\t', '\r'], 4, 5, prefix='b=你\nv=', suffix='x\nu:=$v|\n'),
],
'C17': [
    A(['else\n', 'endif\n', 'ifeq (1,1)\n', 'ifeq (1,2)\n', 'endif x\n', 'else y\n', '\tr\n', 'k: d\n', 'a+=1\n', 'ifeq (1\n', 'foo\n', 'include nope\n'], 3, 4, suffix='z=1\n'),
    A(['endef\n', 'define q\n', 'endef x\n', ' endef #c\n', '; x\n', 'a=$(b\n', '$(b\n', 'k: $(c\n', 'k: d; $(e\n', 'a+=1\n', '\tx\n', '\t$(y\n', 'j: ;k\n'], 3, 4, prefix='k:\n', suffix='z=1\n',
      fs=(('m2', '\nk: $a\nendif\n'),), main=(1, 2, 1)),
    A(['a', ' ', ':', '=', ';', '$', '(', ')', '\\'], 4, 5, prefix='p=1\n', suffix='\nz=1\n'),
    A(['a', ' ', ',', '(', ')', '"', "'", '$', '#'], 4, 5, prefix='p=1\nifeq', suffix='\nz=1\n'),
    A(['word ', 'strip ', 'words ', 'eval ', 'a', ',', '(', ')', '$('], 4, 5, prefix='p=$(', suffix=')\nz=1\n'),
    A(['endif', 'else', 'endef', ' ', '#', 'x', 'ifeq (1,1)', '\t', '\n'], 4, 5, prefix='k: d\nifeq (1,1)\n', suffix='\nz=1\n'),
    A(['include f1\n', 'include bad\n', 'include nope f1\n', '-include nope f1\n', 'include f1 bad f2\n', 'a+=1\n', 'k: d\n', '\tc\n', 'include f2\n', 'include f3\n'], 3, 4, suffix='z=1\n',
      fs=(('f1', 'a+=f1\nk: e\n'), ('f2', 'a+=f2\nendif\na+=no\n'), ('f3', 'a+=f3\ninclude bad\na+=no\n'), ('bad', 'a+=bad\n\0\n'))),
],
'C20': [
    A(['$', '(', ')', '{', '}', ',', 'word ', 'strip ', 'a'], 4, 5, prefix='r=', suffix='\nz=1\n'),
    A(['word', 'strip', 'words', 'eval', ' ', ',', 'a', '$b', '\t'], 4, 6, prefix='r=x$(', suffix=')y\n'),
    A(['(', ')', '{', '}', ',', ' ', '$(', '${', 'a'], 4, 5, prefix='k:\n\tx$(word ', suffix=')y$(\n'),
    A(['$a', '$(b)', '${c}', '$$', 't', '$(strip x$a)', '$(word 1, $b)', '$(words  y)', '$(eval z)', ' ', '$($a)', ','], 3, 4, prefix='k: ;', suffix='\nv=$(words  (a,$a))|${word {1},2 3}\n'),
],
}

def records(prop, tier):
    base, out = 0, []
    for a in ALPHABETS.get(prop, []):
        d = a.quick if tier == 'quick' else a.thorough
        b = len(a.frags)
        size = sum(b ** i for i in range(d + 1))
        out.append(dict(base=base, size=size, frags=[codes(f) for f in a.frags], prefix=codes(a.prefix), suffix=codes(a.suffix),
                        cc=codes(a.cc)[0], n=codes('m1.mk'), fs=[dict(n=codes(n), x=codes(x)) for n, x in a.fs], main=list(a.main)))
        base += size
    return out, base

if __name__ == '__main__':
    for p in ALPHABETS:
        print(p, records(p, 'quick')[1], records(p, 'thorough')[1])
