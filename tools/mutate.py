#!/usr/bin/env python3
"""Token-level mutants of one source file, as a way to look for gaps.

mutate.py list FILE            number of mutants
mutate.py run PROPS FILE[:A-B] [--jobs N] [--sample K] [--seed S] [--out LOG]

Each mutant is made in a scratch copy of /repo under /tmp and judged by the
quick checks named (comma separated; the first that reports a violation ends
it), run on that copy through VERIF_REPO.  Survivors are printed for reading:
equivalent mutants are expected among them.  Nothing registered in MANIFEST.json
uses this file.
"""
import io
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import tokenize

HERE = os.path.dirname(os.path.abspath(__file__))
CHECK = os.path.join(os.path.dirname(HERE), 'sim', 'check.py')
SWAP = {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='],
        '!=': ['=='], '+': ['-'], '-': ['+'], '*': ['+'], '+=': ['-=', '='],
        '-=': ['+='], '&': ['|'], '|': ['&'], '<<': ['>>'], '>>': ['<<'],
        '%': ['*'], '/': ['*'], '//': ['*']}
WORD = {'and': ['or'], 'or': ['and'], 'True': ['False'], 'False': ['True'],
        'not': [''], 'break': ['pass'], 'continue': ['pass'], 'is': ['=='],
        'in': ['not in']}


def tokens(src):
    # a regular expression is enough, and does not mind Python 2
    pat = re.compile(r'''(?P<c>\#[^\n]*)|(?P<s>[rRbBuU]{0,2}("""(?:\\.|[^\\])*?"""|'''
                     r"""'''(?:\\.|[^\\])*?'''|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'))"""
                     r'''|(?P<n>0[xX][0-9a-fA-F]+|\d+\.\d+|\d+)|(?P<w>[A-Za-z_]\w*)'''
                     r'''|(?P<o><<|>>|<=|>=|==|!=|\+=|-=|//|\*\*|[-+*/%&|<>])''', re.S)
    for m in pat.finditer(src):
        yield m.lastgroup if m.lastgroup else 's', m


def mutants(src):
    out = []
    spans = []
    for m in re.finditer(r'^( *)(if|while|elif) (.*?)(:)[ ]*(#.*)?$', src, re.M):
        pass
    toks = []
    for m in tokens(src):
        toks.append(m[1])
    docs = set()
    for m in toks:
        g = m.groupdict()
        line = src.count('\n', 0, m.start()) + 1
        t = m.group(0)
        if g['s'] or g['c']:
            continue
        reps = []
        if g['n']:
            if t.lower().startswith('0x'):
                v = int(t, 16)
                reps = [hex(v + 1), hex(max(0, v - 1))]
            elif '.' not in t:
                v = int(t)
                reps = [str(v + 1)] + ([str(v - 1)] if v else [])
        elif g['w']:
            reps = WORD.get(t, [])
            if t == 'not' and src[m.end():m.end() + 4] == ' in ':
                reps = []
        elif g['o']:
            reps = SWAP.get(t, [])
            if t == '*' and src[m.start() - 1] in '(,' or t == '**':
                reps = []
        for r in reps:
            out.append((line, '%s -> %s' % (t, r or "''"),
                        src[:m.start()] + r + src[m.end():]))
    # statement deletion: single-line simple statements
    pos = 0
    lines = src.split('\n')
    depth = 0
    instr = False
    for i, l in enumerate(lines):
        before = depth
        code = re.sub(r'''("(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')''', "''", l)
        code = code.split('#')[0]
        if code.count('"""') % 2:
            instr = not instr
        if instr:
            continue
        depth += sum(code.count(c) for c in '([{') - sum(code.count(c) for c in ')]}')
        st = l.strip()
        if before or depth or not st or st.startswith(('#', '@', 'def ', 'class ',
           'import ', 'from ', 'if ', 'elif ', 'else', 'for ', 'while ', 'try',
           'except', 'finally', 'with ', 'pass', '"', "'", 'global ')) or \
           st.endswith(('\\', ':')):
            continue
        if i and lines[i - 1].rstrip().endswith('\\'):
            continue
        ind = l[:len(l) - len(l.lstrip())]
        if not ind:
            continue
        out.append((i + 1, 'delete', '\n'.join(lines[:i] + [ind + 'pass']
                                               + lines[i + 1:])))
        if st.startswith('return ') and st != 'return None':
            out.append((i + 1, 'return None', '\n'.join(
                lines[:i] + [ind + 'return None'] + lines[i + 1:])))
    # conditions
    for i, l in enumerate(lines):
        m = re.match(r'^( *)(if|elif|while) (.+):( *#.*)?$', l)
        if m:
            for v in ('True', 'False'):
                if m.group(2) == 'while' and v == 'True':
                    continue
                out.append((i + 1, '%s %s' % (m.group(2), v), '\n'.join(
                    lines[:i] + ['%s%s %s:' % (m.group(1), m.group(2), v)]
                    + lines[i + 1:])))
    return out


def main():
    if sys.argv[1] == 'list':
        src = open(os.path.join('/repo', sys.argv[2])).read()
        print(len(mutants(src)))
        return
    props = sys.argv[2].split(',')
    target = sys.argv[3]
    a, b = 0, 10 ** 9
    if ':' in target:
        target, rng = target.split(':')
        a, b = map(int, rng.split('-'))
    opt = dict(zip(sys.argv[4::2], sys.argv[5::2]))
    src = open(os.path.join('/repo', target)).read()
    ms = [m for m in mutants(src) if a <= m[0] <= b]
    rng = random.Random(int(opt.get('--seed', '1')))
    rng.shuffle(ms)
    if '--sample' in opt:
        ms = ms[:int(opt['--sample'])]
    if '--skip' in opt:
        ms = ms[int(opt['--skip']):]
    lock = threading.Lock()
    log = open(opt.get('--out', '/dev/stdout'), 'a')
    it = iter(list(enumerate(ms)))
    res = {'killed': 0, 'survived': 0, 'other': 0}

    def loop(k):
        d = '/tmp/mut/%s-%d' % (target.replace('/', '_'), k)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
        home = '/tmp/mut/v-%s-%d' % (target.replace('/', '_'), k)
        while True:
            with lock:
                try:
                    i, (line, what, text) = next(it)
                except StopIteration:
                    break
            with open(os.path.join(d, target), 'w') as f:
                f.write(text)
            verdict, detail = 'survived', ''
            for p in props:
                env = dict(os.environ, VERIF_REPO=d, VERIF_FIND='1',
                           VERIF_WORKERS=opt.get('--workers', '3'),
                           VERIF_WALL=opt.get('--wall', '30'))
                try:
                    r = subprocess.run([sys.executable if 0 else
                                        '/opt/venv/bin/python', '-B', CHECK, p],
                                       env=env, capture_output=True, text=True,
                                       timeout=400)
                    rc, out = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    rc, out = 99, 'timeout'
                if rc == 1:
                    verdict = 'killed'
                    m = re.search(r'^run (\d+): .*"class": "([^"]*)"', out, re.M)
                    detail = '%s %s' % (p, m.groups() if m else '')
                    break
                if rc != 0:
                    verdict = 'other'
                    detail = '%s rc=%d %s' % (p, rc, out[-300:].replace('\n', ' | '))
            with lock:
                res[verdict] += 1
                log.write('%s %s:%d %s   [%s] %s\n' % (
                    verdict.upper(), target, line, what,
                    src.split('\n')[line - 1].strip()[:90], detail))
                log.flush()
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=loop, args=(k,))
          for k in range(int(opt.get('--jobs', '2')))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    log.write('TOTAL %s %r\n' % (target, res))


main()
