"""The parts of the specification that are not about reading makefiles"""
import json, os, random
import gen


def texts(ss):
    def code(c):
        return {'\u00e9': 128, '\u4f60': 129, '\U0001f600': 130, '\ufeff': 131}.get(c, ord(c))
    return ['<< %s >>' % ', '.join(str(code(c)) for c in s) if s else '<< >>' for s in ss]


def model(work, module, defs):
    """A module that fixes the constants of a specification; returns its name and the lines of its configuration"""
    name = 'MC' + module
    with open(os.path.join(work, name + '.tla'), 'w') as f:
        f.write('---- MODULE %s ----\nEXTENDS %s\n' % (name, module))
        for k, v in defs.items():
            f.write('MC_%s == %s\n' % (k, v))
        f.write('====\n')
    return os.path.join(work, name), ''.join('CONSTANT %s <- MC_%s\n' % (k, k) for k in defs)


def rope(tier, rnd):
    def script(n):
        big = rnd.random() < .01
        n = 3 * n if big else n
        ops = ['pushc', 'syn', 'pushb', 'pushs', 'pushs', 'pushr', 'pushr', 'pushp', 'pushp', 'new', 'copy', 'span', 'span']
        k = rnd.randint(4, n)
        return dict(chars=36 if big else 9, blocks=6 if big else 4,
                    ops=[dict(o=rnd.choice(ops), i=rnd.randrange(60), j=rnd.randrange(60), a=rnd.randrange(840), b=rnd.randrange(840)) for _ in range(k)])
    q = tier == 'quick'
    needles = '<< ' + ', '.join(texts(['', 'a', 'A', '\u00e9', 'x\u4f60', 'b ', '\n', 'a\u00e9'])) + ' >>'
    c = dict(Texts='{' + ', '.join(texts(['', 'a', 'bA', '\u00e9\n', '\u4f60', '\U0001f600x', '\n'])) + '}', Needles=needles,
             Depth='2', Targets='{3}' if q else '{1, 2, 3}', MaxBlocks='4', MaxChars='9')
    return c, [script(14 if q else 20) for _ in range(4000 if q else 60000)]


def names(tier, rnd):
    def script(n):
        ops = ['intern'] * 8 + ['lookup'] * 3 + ['clone', 'clone', 'drop']
        return [dict(o=rnd.choice(ops), i=rnd.randrange(60), j=rnd.randrange(60), a=rnd.randrange(840)) for _ in range(rnd.randint(8, n))]
    q = tier == 'quick'
    long = ['', 'a', 'A', '\u00e9', 'ab', 'a b', 'b', '\u4f60', 'e', 'aa', ' a', 'a ', '\n', 'ba', 'B', '1', '2', '$', '%', 'all', 'z' * 200]
    c = dict(DefaultTexts='<< ' + ', '.join(texts(long)) + ' >>', Depth='3' if q else '4', Few='2' if q else '4', MaxCaches='4')
    # Different texts that are alike: the same text with something before it, after it, in it, without it
    alph = [chr(x) for x in range(1, 127)] + ['\u00e9', '\u4f60', '\U0001f600', '\ufeff']
    def alike():
        base = ''.join(rnd.choice('aab/.%A1e$ \u00e9') for _ in range(rnd.randint(0, 6)))
        if rnd.random() < .1:
            base = base * 40
        r = {base}
        many = rnd.random() < .01
        while len(r) < (120 if many else len(long)):
            x = rnd.choice(sorted(r))
            i = rnd.randrange(len(x) + 1)
            ch = rnd.choice(alph) if rnd.random() < .5 else rnd.choice(['/', './', '../', '.', ' ', '\t', '%', '\\', '~', '-', '"', "'", '$$', '(', ')', '\n', '\r', '//', ':', '+', '@', 'lib', '.o', '_', 'C:', '\ufeff'])
            r.add(rnd.choice([ch + x, ch + x, x + ch, x + ch, x + ch, x[:i] + ch + x[i:], x.replace('a', 'A'), x.replace('A', 'a'), x.replace('e', '\u00e9'), x[::-1], x[:-1], x[1:], x.strip(), x.replace('/', '.')]))
        return [[ord(y) if ord(y) < 128 else {'\u00e9': 128, '\u4f60': 129, '\U0001f600': 130, '\ufeff': 131}[y] for y in x] for x in sorted(r, key=lambda x: rnd.random())]
    return c, [dict(ops=script(40 if q else 80) if len(x) <= len(long) else script(200), texts=x) for x in (alike() for _ in range(1500 if q else 30000))]


def db(tier, rnd):
    def script(n):
        ops = ['set'] * 3 + ['append'] * 4 + ['target'] * 3 + ['rule', 'rule', 'readvar', 'readrule', 'readrule']
        if rnd.random() < .15:
            ops = ['rule', 'readvar', 'readrule']
        if rnd.random() < .01:
            n = 60
        # mostly continue from recent databases
        return [dict(o=rnd.choice(ops), i=rnd.choice([k, k, k, rnd.randrange(k + 1)]), j=rnd.randrange(60), a=rnd.randrange(840),
                     b=rnd.randrange(60), c=rnd.randrange(60)) for k in range(rnd.randint(4, n))]
    q = tier == 'quick'
    return dict(Depth='2'), [script(14 if q else 24) for _ in range(4000 if q else 100000)]


def loc(tier, rnd):
    some = lambda n: '{' + ', '.join(str(x) for x in sorted({1, 2, 3, 256, 65536, 2147483647} | {rnd.randrange(1, 100000) for _ in range(n)})) + '}'
    n = 0 if tier == 'quick' else 5
    return dict(Lines=some(n), Columns=some(n), Origins='{1, 2, 3}' if tier == 'quick' else '{1, 2, 3, 4}'), []


def visit(tier, rnd):
    def tree(d):
        if d == 0 or rnd.random() < .15:
            return dict(k=rnd.choice(['empty', 'constant', 'constant', 'preevaluated']), a=[])
        k = rnd.choice(['variable_reference', 'eval', 'strip', 'words', 'word', 'word', 'concat', 'concat', 'concat'])
        n = 1 if k in ('variable_reference', 'eval', 'strip', 'words') else 2 if k == 'word' else rnd.randint(0, 4)
        return dict(k=k, a=[tree(d - 1) for _ in range(n)])
    q = tier == 'quick'
    leaf = lambda: tree(0)
    def chain(n):
        x = leaf()
        for _ in range(n):
            k = rnd.choice(['variable_reference', 'eval', 'strip', 'words', 'word', 'concat'])
            x = dict(k=k, a=[x] if k not in ('word', 'concat') else [leaf(), x] if rnd.random() < .5 else [x, leaf()])
        return x
    large = [chain(rnd.randint(10, 50)) for _ in range(8)] + [dict(k='concat', a=[tree(1) for _ in range(rnd.randint(10, 60))]) for _ in range(8)]
    return dict(Deep='2'), large + [tree(rnd.randint(2, 4 if q else 6)) for _ in range(1000 if q else 20000)]


def session(tier, rnd):
    q = tier == 'quick'
    T = ['u=$(eval a+=u)$a\n', 'a+=x\n', 'include f\n', 'b:=$a\nk: $a\n\tc $u $b\n', 'ifeq (1,2)\na+=y', 'k: d\nendif\nz=1\n', '\tn $a\na=', '$(eval include f)k:: $a\n', 'u=$(eval include f)\n']
    C = gen.codes
    f, wf = C('f'), C('w/f')
    x = lambda t: T.index(t) + 1
    ops = [dict(o='read', e=1, x=i) for i in range(2, 10)] + [dict(o='read', e=2, x=i) for i in (2, 3, 6)]
    ops += [dict(o='use', e=1, n=C('u')), dict(o='use', e=2, n=C('u')), dict(o='run', e=1, n=C('k')), dict(o='look', e=1)]
    ops += [dict(o='cc', e=1, c=62), dict(o='wd', e=1, d=C('w/')), dict(o='wd', e=1, d=[]), dict(o='copy', e=2, f=1), dict(o='copy', e=1, f=2)]
    ops += [dict(o='write', n=f, x=4), dict(o='write', n=f, x=6), dict(o='write', n=wf, x=2), dict(o='remove', n=f)]
    fs = [dict(n=f, x=2), dict(n=wf, x=7)]
    pre = [dict(o='read', e=1, x=1), dict(o='read', e=1, x=4)]
    every = dict(texts=[C(t) for t in T], fs=fs, pre=pre, ops=ops, depth=3 if q else 4)
    seed = rnd.randrange(1 << 30)
    return {}, [every] + [gen.session(seed, i) for i in range(3000 if q else 60000)]


def expr(tier, rnd):
    q = tier == 'quick'
    pre = ['', 'a=x$b c\nb=yx\nx=b\nc:=$a\nk: $b\n\tc $a\n', 'a=$(eval b+=1)$b\nb=x\nx:=a b\n', 'a:=b:x=y\nb=x.c yx zx\nx=$(b:x=$a)\nk=$$$$\n']
    some = ['a', 'b', 'x', '$', '$a', '$(b)', 'b:x=y', ':', '=', '%=c%', 'a=1', 'a+=$b', 'k: d\n', '\n', ' ', '\u00e9', 'a b', ')', 'b:=$$b', '#', '\\', 'ab', '1', '']
    def tree(d, n=[0]):
        if d == 0 or rnd.random() < .15:
            k = rnd.choice(['empty', 'constant', 'constant', 'constant', 'preevaluated'])
            return dict(k=k, t=gen.codes(rnd.choice(some)) if k != 'empty' else [], a=[])
        k = rnd.choice(['variable_reference'] * 3 + ['eval', 'eval', 'concat', 'concat', 'concat', 'join', 'join'])
        m = 1 if k in ('variable_reference', 'eval') else rnd.randint(0, 4)
        a = [tree(d - 1) for _ in range(m)]
        if a and rnd.random() < .15:
            a.append(a[-1])
        return dict(k=k, t=[], a=a[:1] if m == 1 and len(k) > 6 or k == 'eval' else a)
    def size(t):
        return 1 + sum(size(x) for x in t['a'])
    ts = [tree(rnd.randint(2, 5)) for _ in range(6000 if q else 100000)]
    ts = [dict(tree=t, pre=gen.codes(rnd.choice(pre)), same=rnd.random() < .3) for t in ts if size(t) < 60]
    few = ['a', 'b:x=y', 'a+=$b\n'] if q else ['a', 'x', 'b:x=y', 'a+=$b\n', '$']
    return dict(Texts='{' + ', '.join(texts(few)) + '}', Preludes='<< ' + ', '.join(texts(pre[2:] if q else pre)) + ' >>', Wide='FALSE' if q else 'TRUE'), ts


MODELS = {
    'C22': ('Expr', 'expr', expr, ['!Denotes', 'LikeWritten', '!Pure']),
    'C21': ('Session', 'session', session, ['!OthersKeep', '!FilesKeep', '!UseIsPure', '!Copied', 'OwnHistory']),
    'C18': ('Visit', 'visit', visit, ['Complete', 'SourceOrder', 'WalkIsRecursion', 'OnlyParts']),
    'C19': ('Loc', 'loc', loc, ['PartialOrder', 'Transitive', 'Forward']),
    'C14': ('Db', 'db', db, ['!Persistent', '!OneEntry', '!KeepsOld']),
    'C15': ('Names', 'names', names, ['Unique', '!Stable', '!OnlyIntern']),
    'C16': ('Rope', 'rope', rope, ['!OneAtATime', 'QueriesMeanThat', 'Marked']),
}


# What is compared of engines, for those that have any
ASPECTS = {'session': 'okst,vars,vtext,rules,ncmds,cmds', 'expr': 'okst,vars,vtext,ast,rules,ncmds,cmds,sens,tag'}


def run(prop, tier, seed, harness, work, tlc, replay, hooks):
    module, kind, plan, props = MODELS[prop]
    defs, scripts = plan(tier, random.Random(seed))
    mod, consts = model(work, module, defs)
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + consts
    for p in props:
        cfg += ('PROPERTY ' if p.startswith('!') else 'INVARIANT ') + p.lstrip('!') + '\n'
    sf = os.path.join(work, 'scripts')
    with open(sf, 'w') as f:
        for s in scripts:
            f.write(json.dumps(s) + '\n')
    states, distinct, _ = tlc(mod, cfg, work, dict(SCRIPTS=sf), 8)
    aspects = ASPECTS.get(kind, 'all')
    rep = replay(harness, kind, work, aspects)
    sample = [l.rstrip()[:400] for l in list(open(os.path.join(work, 'exp.0')))[10:12]]
    cov = dict(states=states, transitions=states - 8, distinct_states=distinct, traces_validated_against_impl=rep['checked'],
               model=module, model_properties=[p.lstrip('!') for p in props], constants=defs,
               given_histories=len(scripts), hooks=rep['hooks'], unspecified=rep['unspecified'], samples=sample)
    return kind, aspects, rep, cov
