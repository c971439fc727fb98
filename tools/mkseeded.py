#!/usr/bin/env python3
"""Writes /verif/seeded: planted bugs used to measure the checks (no check reads them).
   mkseeded.py write           generate patch.diff, demo.sh, demo.rs, meta.json for each bug
   mkseeded.py test [ID...]    confirm each: applies, builds, stable tests pass, demo passes without and fails with it
   mkseeded.py catch [ID...]   which checks report it (run in a copy of the repository)"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seeds import SEEDS

DEMO = r'''#!/bin/bash
# Exits 0 if the repository in the current directory behaves as the property says.
repo=$(pwd)
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/crate/src" "$work/files"
cp "$here/demo.rs" "$work/crate/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/crate/Cargo.lock"
cat > "$work/crate/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"

[workspace]

[dependencies]
hastur = { path = "$repo" }
@NOM@EOF
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
export RUSTFLAGS="-A warnings -A semicolon_in_expressions_from_macros@CFG@"
unset RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
cd "$work/files" || exit 2
cargo build --offline --quiet --manifest-path "$work/crate/Cargo.toml" || exit 2
"$work/target/debug/demo"
'''

PRELUDE = r'''#![allow(dead_code)]
use hastur::{Engine, MakefileError, NameCache};

struct World {
    names: NameCache,
    engine: Engine,
}

impl World {
    fn new() -> World {
        World { names: NameCache::default(), engine: Engine::default() }
    }
    fn read(text: &str) -> World {
        let mut w = World::new();
        w.more(text).expect("the makefile is fine");
        w
    }
    fn more(&mut self, text: &str) -> Result<(), MakefileError> {
        self.engine.read_makefile(&mut self.names, &mut text.as_bytes(), "Makefile")
    }
    fn defined(&self, name: &str) -> bool {
        self.names.variable_name(name).map_or(false, |n| self.engine.database.get_variable(n).is_some())
    }
    /// The expansion of a variable
    fn val(&mut self, name: &str) -> String {
        let n = self.names.intern_variable_name(name.to_string());
        let ast = self.engine.database.get_variable(n).expect("the variable is defined").ast().clone();
        ast.eval(&mut self.names, &mut self.engine).into_string()
    }
    /// The names of the variables the expansion of a variable depends on
    fn sens(&mut self, name: &str, of: &[&str]) -> Vec<String> {
        let n = self.names.intern_variable_name(name.to_string());
        let ast = self.engine.database.get_variable(n).expect("the variable is defined").ast().clone();
        let block = ast.eval(&mut self.names, &mut self.engine);
        of.iter().filter(|x| {
            let v = self.names.variable_name(x);
            block.sensitivity().any(|s| Some(*s) == v)
        }).map(|x| x.to_string()).collect()
    }
    /// (text, location) of the segments of the expansion of a variable
    fn segments(&mut self, name: &str) -> Vec<(String, Option<(u32, u32)>)> {
        let n = self.names.intern_variable_name(name.to_string());
        let ast = self.engine.database.get_variable(n).expect("the variable is defined").ast().clone();
        let block = ast.eval(&mut self.names, &mut self.engine);
        let tr = block.span().segments().map(|s| (s.to_string(), match s.location() {
            hastur::source_location::Location::SourceLocation { line, character, .. } => Some((*line, *character)),
            _ => None,
        })).collect();
        tr
    }
    /// (prerequisites, number of commands, debug output) of a target's rule
    fn rule(&self, target: &str) -> Option<(Vec<String>, usize, String)> {
        let f = self.names.file_name(target)?;
        let r = self.engine.database.get_rule(f)?;
        Some((r.dependencies().iter().map(|d| d.into_string()).collect(), r.recipe().commands().len(), format!("{:?}", r)))
    }
    fn deps(&self, target: &str) -> Vec<String> {
        self.rule(target).expect("there is a rule").0
    }
    fn rule_count(&self) -> usize {
        self.engine.database.rules().count()
    }
}

'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def write():
    for s in SEEDS:
        d = os.path.join(SEEDED, s['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        tmp = tempfile.mkdtemp()
        try:
            patch = ''
            for f in {e[0]: 1 for e in s['edits']}:
                src = open('/repo/' + f).read()
                new = src
                for (g, a, b) in s['edits']:
                    if g == f:
                        assert new.count(a) == 1, (s['id'], f, new.count(a), a)
                        new = new.replace(a, b)
                os.makedirs(os.path.dirname(os.path.join(tmp, 'a', f)), exist_ok=True)
                os.makedirs(os.path.dirname(os.path.join(tmp, 'b', f)), exist_ok=True)
                open(os.path.join(tmp, 'a', f), 'w').write(src)
                open(os.path.join(tmp, 'b', f), 'w').write(new)
                patch += sh('diff -u a/%s b/%s | sed -E "s/^(---|\\+\\+\\+) ([^\\t]*)\\t.*/\\1 \\2/"' % (f, f), cwd=tmp).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        finally:
            shutil.rmtree(tmp)
        open(os.path.join(d, 'demo.rs'), 'w').write(PRELUDE + 'fn main() {' + s['demo'].rstrip() + '\n}\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO.replace(
            '@NOM@', 'nom = { version = "4.2", features = ["verbose-errors"] }\n' if s.get('nom') else '').replace('@CFG@', ' --cfg hastur_verif' if s.get('cfg') else ''))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        # does it change original lines?
        fix = [l for l in sh("git -C /repo log --format=%h 4b802ef..HEAD").stdout.split()]
        for f, a, b in s['edits']:
            src = open('/repo/' + f).read()
            i = src.index(a)
            l0 = src[:i].count('\n') + 1
            import difflib
            al, bl = a.split('\n'), b.split('\n')
            ch = []
            for t, i1, i2, j1, j2 in difflib.SequenceMatcher(None, al, bl, autojunk=False).get_opcodes():
                if t in ('replace', 'delete'):
                    ch += range(l0 + i1, l0 + i2)
            bl = sh('cd /repo && git blame -s %s' % f).stdout.split('\n')
            bad = [n for n in ch if not re.match(r'\^?4b802ef', bl[n - 1])]
            if bad or not ch:
                print(s['id'], 'touches lines of ours' if bad else 'only adds lines', f, bad)


def copy():
    d = tempfile.mkdtemp(prefix='seed-')
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    return d


def test(ids):
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base['stable'] if 'stable' in base else base['passed'] if 'passed' in base else base)
    d = copy()
    try:
        for s in SEEDS:
            if ids and s['id'] not in ids:
                continue
            r = d + '/repo'
            sd = os.path.join(SEEDED, s['id'])
            lay = d + '/lay'
            shutil.rmtree(lay, ignore_errors=True)
            os.makedirs(lay)
            for f in ('demo.sh', 'demo.rs'):
                shutil.copy(os.path.join(sd, f), lay)
            res = []
            clean = sh('bash %s/demo.sh' % lay, cwd=r)
            res.append('demo-clean=%d' % clean.returncode)
            a = sh('git apply %s/patch.diff' % sd, cwd=r)
            if a.returncode:
                print(s['id'], 'DOES NOT APPLY', a.stderr)
                continue
            t = sh('. /opt/vp/env.sh; cd %s; export CARGO_TARGET_DIR=%s/target; cargo test --workspace --no-fail-fast --offline 2>&1' % (r, r))
            failed = re.findall(r'^test (\S+) \.\.\. .*FAILED', t.stdout, re.M)
            failed = [f for f in failed if f != 'simple_prefix']
            passed = len(re.findall(r'^test .* ok$', t.stdout, re.M))
            res.append('tests passed=%d failed=%s' % (passed, failed))
            bug = sh('bash %s/demo.sh' % lay, cwd=r)
            res.append('demo-bug=%d' % bug.returncode)
            ok = clean.returncode == 0 and not failed and passed >= 149 and bug.returncode not in (0, 2)
            print(s['id'], 'OK' if ok else 'BAD', *res, flush=True)
            if not ok:
                print('   ', clean.stderr[-600:], bug.stderr[-600:], t.stdout[-800:] if not passed else '')
            elif os.environ.get('V'):
                print('   ', bug.stderr[-400:])
            sh('git checkout -- .', cwd=r)
    finally:
        shutil.rmtree(d)


def catch(ids):
    d = copy()
    try:
        props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
        # the checks as they are, on a copy
        v = d + '/verif'
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns('build', 'seeded', '.git', 'evidence'))
        os.makedirs(v + '/evidence')
        p = v + '/harness/Cargo.toml'
        t = open(p).read().replace('/repo"', d + '/repo"')
        open(p, 'w').write(t)
        for s in SEEDS:
            if ids and s['id'] not in ids:
                continue
            sh('git checkout -- . && git apply %s/patch.diff' % os.path.join(SEEDED, s['id']), cwd=d + '/repo')
            got = []
            own = [s['property']] + ([] if os.environ.get('OWN') else [q for q in props if q != s['property']])
            for q in own:
                x = sh('python3 %s/check.py %s quick' % (v, q), env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                if x.returncode == 1:
                    got.append(q)
                elif x.returncode:
                    got.append(q + '(broken)')
            print(s['id'], s['property'], 'CAUGHT' if s['property'] in got else 'MISSED', 'by', got, flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    dict(write=lambda a: write(), test=test, catch=catch)[sys.argv[1]](sys.argv[2:])
