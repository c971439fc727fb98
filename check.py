#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property
   check.py setup                      build what the checks need
   check.py replay FILE                run one recorded violation again

Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import gen, alphabets, models

REPO = os.environ.get('HASTUR_REPO', '/repo')
BUILD = os.environ.get('HASTUR_BUILD', os.path.join(HERE, 'build'))
SPEC = os.path.join(HERE, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SHARDS = 8


class Broken(Exception):
    """The check could not decide"""


def build():
    """Build the harness against the repository's working tree, with the hooks if they compile."""
    target = os.path.join(BUILD, 'target')
    os.makedirs(target, exist_ok=True)
    log = ''
    for hooks in (True, False) if os.environ.get('HASTUR_HOOKS') != '0' else (False,):
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true')
        env['RUSTFLAGS'] = '-A warnings -A semicolon_in_expressions_from_macros' + (' --cfg hastur_verif' if hooks else '')
        env.pop('CARGO_ENCODED_RUSTFLAGS', None)
        cmd = ['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(HERE, 'harness', 'Cargo.toml')]
        if REPO != '/repo':
            cmd += ['--config', 'patch.crates-io.hastur.path="%s"' % REPO]
        r = subprocess.run(cmd, env=env, capture_output=True, text=True)
        if r.returncode == 0:
            return os.path.join(target, 'debug', 'hastur-harness'), hooks
        log = r.stderr
        print('building the harness %s the hooks failed' % ('with' if hooks else 'without'), file=sys.stderr)
    raise Broken('the harness does not build:\n' + log[-3000:])


def tlc(module, cfg, work, env, shards, workers=1, heap='3g', simulate=None, append=False):
    """Run TLC once per shard; returns (states, distinct, outputs).
    simulate = (behaviours, depth, seed): random behaviours instead of all"""
    procs = []
    for i in range(shards):
        d = os.path.join(work, 'tlc%d' % i)
        os.makedirs(d, exist_ok=True)
        e = dict(os.environ, SHARD=str(i), SHARDS=str(shards), OUT=os.path.join(work, 'exp.%d' % i))
        e.update(env)
        cfgf = os.path.join(d, 'model.cfg')
        with open(cfgf, 'w') as f:
            f.write(cfg)
        if not append:
            open(e['OUT'], 'w').close()
        out = open(os.path.join(d, 'out'), 'w')
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xss256m', '-Xmx' + heap, '-XX:TieredStopAtLevel=4',
               '-cp', CP, '-DTLA-Library=' + SPEC, 'tlc2.TLC', '-noTE', '-workers', str(workers), '-metadir', os.path.join(d, 'meta'),
               '-config', cfgf] + ([] if not simulate else
               ['-simulate', 'num=%d' % max(1, simulate[0] // shards), '-depth', str(simulate[1]), '-seed', str(simulate[2] * 100 + i)]) + [module + '.tla' if module.startswith('/') else os.path.join(SPEC, module + '.tla')]
        procs.append((subprocess.Popen(cmd, env=e, stdout=out, stderr=subprocess.STDOUT, cwd=d), d))
    states = distinct = 0
    outs = []
    for pr, d in procs:
        pr.wait()
        o = open(os.path.join(d, 'out'), errors='replace').read()
        outs.append(o)
        if simulate:
            m = re.search(r'^The number of states generated: (\d+)()', o, re.M)
            good = m and 'Error' not in o
        else:
            m = re.search(r'^(\d+) states generated, (\d+) distinct states found, 0 states left', o, re.M)
            good = m and 'No error has been found' in o
        if pr.returncode != 0 or not good:
            for q, _ in procs:
                q.kill()
            ls = [l for l in o.splitlines() if not re.match(r'(Parsing|Semantic|Linting|Comput)', l)]
            err = [l for l in ls if l.startswith('Error')]
            raise Broken('the model checker does not accept the specification (%s):\n%s\n%s' % (module, '\n'.join(err), '\n'.join(ls)[-4000:]))
        states += int(m.group(1))
        distinct += int(m.group(2) or 0)
    return states, distinct, outs


def replay(harness, kind, work, aspects, shards=SHARDS):
    rep = os.path.join(work, 'report')
    scratch = os.path.join(work, 'scratch')
    r = subprocess.run([harness, 'replay', kind, os.path.join(work, 'exp'), aspects, scratch, rep, str(shards)],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken('the harness failed: ' + r.stderr[-2000:])
    return json.load(open(rep))


# --------------------------------------------------------------------------
# Properties of reading makefiles
T = 'okst,vars,vtext'
R = 'rules,ncmds,cmds'
READING = {
    # aspects compared, invariants and action properties of the model, random programs (quick, thorough)
    'C01': ('okst,vars,vtext,flavor', ['Steps', 'Compositional'], 6000, 150000),
    'C02': (T + ',' + R, ['Splits'], 6000, 150000),
    'C03': (T + ',' + R, ['SubstWords'], 6000, 150000),
    'C04': (T + ',' + R, ['Steps', 'SelectedOnly'], 6000, 120000),
    'C05': (T + ',ast,' + R, ['Steps', 'DefineVerbatim'], 6000, 120000),
    'C06': (T + ',colon,rules,ncmds', ['Steps', 'Names'], 6000, 120000),
    'C07': (T + ',ast,' + R, ['Steps'], 6000, 120000),
    'C08': (T + ',' + R, ['Steps', 'Padded', 'WithBom', 'LineEnds'], 6000, 120000),
    'C09': (T + ',colon,' + R, ['Names'], 8000, 150000),
    'C10': (T + ',colon,' + R, ['Evaluated', 'Compositional'], 6000, 120000),
    'C11': ('st,' + T + ',colon,' + R, ['Included'], 8000, 120000),
    'C12': ('sens', ['NonInterference'], 6000, 120000),
    'C13': ('tag', ['Provenance'], 6000, 120000),
    'C17': ('st,vars,vtext,' + R, ['Steps', 'ErrorsStop'], 8000, 150000),
    'C20': ('st,ast', ['AstMirrors'], 8000, 150000),
}


def reading(prop, tier, seed, harness, work):
    aspects, props, nq, nt = READING[prop]
    alph, nenum = alphabets.records(prop, tier)
    n = nq if tier == 'quick' else nt
    with open(os.path.join(work, 'alphabets'), 'w') as f:
        for a in alph:
            f.write(json.dumps(a) + '\n')
    with open(os.path.join(work, 'progs'), 'w') as f:
        for i in range(n):
            f.write(json.dumps(gen.program(seed, prop, i + 1)) + '\n')
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
    if 'Steps' in props:
        cfg += 'PROPERTY Steps\n'
    inv = [p for p in props if p != 'Steps']
    if inv:
        cfg += 'INVARIANTS ' + ' '.join(inv) + '\n'
    states, distinct, _ = tlc('MakeProps', cfg, work, dict(PROGS=os.path.join(work, 'progs'), ALPHABETS=os.path.join(work, 'alphabets')), SHARDS)
    rep = replay(harness, 'program', work, aspects)
    if rep['checked'] + rep['unspecified'] != nenum + n and not rep['failures']:
        raise Broken('%d programs, but %d checked and %d unspecified' % (nenum + n, rep['checked'], rep['unspecified']))
    kinds, sample = {}, []
    for i in range(SHARDS):
        for j, l in enumerate(open(os.path.join(work, 'exp.%d' % i))):
            if tier == 'quick' or j % 16 == 0:
                ks = re.search(r'\\"ks\\":\[([^\]]*)\]', l)
                for k in set(re.findall(r'[a-z-]+', ks.group(1))) if ks else ():
                    kinds[k] = kinds.get(k, 0) + 1
            if j in (200, 700) and i in (0, 5):
                sample.append([gen.text_of(f['x']) for f in json.loads(json.loads(l))['c']['fs']])
    cov = dict(states=states, transitions=states - (nenum + n), traces_validated_against_impl=rep['checked'],
               programs_enumerated=nenum, programs_random=n, programs_unspecified=rep['unspecified'],
               distinct_states=distinct, line_kinds=kinds, aspects_compared=aspects, model_properties=props,
               hooks=rep['hooks'], samples=sample or ['(none)'])
    return rep, cov


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == 'setup':
        harness, hooks = build()
        print('built', harness, 'with hooks' if hooks else 'without hooks')
        return 0
    if sys.argv[1] == 'replay':
        d = json.load(open(sys.argv[2]))
        harness, _ = build()
        work = tempfile.mkdtemp(prefix='hastur-verif-')
        try:
            with open(os.path.join(work, 'exp.0'), 'w') as f:
                f.write(json.dumps(dict(id=1, c=d['case'], o=d['expected'])) + '\n')
            rep = replay(harness, d['kind'], work, d['aspects'], 1)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        for x in rep['failures']:
            print(x['what'])
        return 1 if rep['failures'] else 0

    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='hastur-verif-')
    try:
        harness, hooks = build()
        if prop in READING:
            kind = 'program'
            aspects = READING[prop][0]
            rep, cov = reading(prop, tier, seed, harness, work)
        else:
            kind, aspects, rep, cov = models.run(prop, tier, seed, harness, work, tlc, replay, hooks)
    except Broken as e:
        print(e, file=sys.stderr)
        return 2
    finally:
        if os.environ.get('HASTUR_KEEP'):       # for experiments: the specified behaviours
            shutil.rmtree(os.path.join(os.environ['HASTUR_KEEP'], prop), ignore_errors=True)
            shutil.copytree(work, os.path.join(os.environ['HASTUR_KEEP'], prop), ignore=shutil.ignore_patterns('tlc*', 'scratch'))
            with open(os.path.join(os.environ['HASTUR_KEEP'], prop, 'args'), 'w') as f:
                f.write('%s %s' % (('program', READING[prop][0]) if prop in READING else (models.MODELS[prop][1], models.ASPECTS.get(models.MODELS[prop][1], 'all'))))
        shutil.rmtree(work, ignore_errors=True)

    known = []
    kf = os.path.join(HERE, 'known-findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['findings'] if prop in k['properties']]
    for k in known:
        r = subprocess.run([harness, 'outcome', k['variable']], input=k['makefile'], capture_output=True, text=True)
        if (r.stdout if r.returncode == 0 else 'crash') != k['actual']:
            continue        # no longer so
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=['the specification in spec/ says what is right; what it leaves open (status "unspec") is not judged'],
              wall_s=round(time.time() - t0, 1), violations=len(rep['failures']))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if rep['failures']:
        f0 = rep['failures'][0]
        path = os.path.join(HERE, 'evidence', 'replay', prop + '.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, kind=kind, aspects=aspects, **f0), f, ensure_ascii=False)
        print('%d of %d cases differ from the specification, for instance:' % (rep.get('failed', len(rep['failures'])), rep['checked']))
        if kind == 'program':
            for x in f0['case']['fs']:
                print('  %s: %r' % (gen.text_of(x['n']), gen.text_of(x['x'])))
        else:
            print('  ' + json.dumps(f0['case'])[:1500])
        print('  ' + f0['what'])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s: %d cases agree with the specification (%.0f s)' % (prop, rep['checked'], time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
