#!/usr/bin/env python3
"""Builds one property's harness against /repo's working tree and runs it.

usage: check.py build ID...     compile only (ID 'all' for every property)
       check.py run ID          compile and run (VERIF_SEED / VERIF_TIER)
       check.py replay FILE     compile and re-run a saved replay file
"""
import hashlib
import json
import os
import re
import resource
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PBT_REPO', '/repo')
BUILD = os.environ.get('PBT_BUILD', os.path.join(VERIF, 'build'))
CXX = 'g++-13'
FLAGS = ['-std=c++20', '-O1', '-g0', '-w', '-include', 'cstdint',
         '-Dishexnumber=isxdigit', '-D_GLIBCXX_ASSERTIONS',
         '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
         '-fno-omit-frame-pointer', '-pthread']
LIBS = ['utils', 'kana', 'kanji', 'quiz', 'stats']
DEPS = {'utils': [], 'kana': ['utils'], 'kanji': ['kana', 'utils'],
        'quiz': ['kanji', 'kana', 'utils'], 'stats': ['kanji', 'kana', 'utils']}


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def includes():
    return ['-I%s/libs/%s/include' % (REPO, i) for i in LIBS]


def repo_headers():
    r = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, 'libs'))):
        r += [os.path.join(d, f) for f in sorted(fs) if f.endswith(('.h', '.hpp'))]
    return r


def sources(lib):
    d = os.path.join(REPO, 'libs', lib, 'src')
    r = []
    for p, _, fs in sorted(os.walk(d)):
        r += [os.path.join(p, f) for f in sorted(fs) if f.endswith('.cpp')]
    return r


# ---- dictionary of literals in the code under test (generator bias only) ----

def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith('//', i):
            j = s.find('\n', i)
            i = n if j < 0 else j
        elif s.startswith('/*', i):
            j = s.find('*/', i)
            i = n if j < 0 else j + 2
        elif s.startswith('R"(', i):
            j = s.find(')"', i)
            i = n if j < 0 else j + 2
        elif s[i] in '"\'':
            q, j = s[i], i + 1
            if q == "'" and i and s[i - 1].isalnum():  # digit separator
                i += 1
                continue
            while j < n and s[j] != q and s[j] != '\n':
                j += 2 if s[j] == '\\' else 1
            out.append(s[i:j + 1])
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


ESC = {'n': '\n', 't': '\t', '\\': '\\', '"': '"', "'": "'", '0': '\0', 'r': '\r',
       'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v'}


def unescape(s):
    def f(m):
        t = m.group(1)
        if t[0] == 'x':
            return bytes([int(t[1:], 16) & 255]).decode('latin-1')
        if t[0] in 'uU':
            v = int(t[1:], 16)
            return chr(v) if v < 0x110000 and not 0xd800 <= v < 0xe000 else ''
        return ESC.get(t, t)
    return re.sub(r'\\(x[0-9a-fA-F]{1,2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|.)', f, s)


def literals():
    strings, numbers = set(), set()
    files = repo_headers() + [s for i in LIBS for s in sources(i)]
    apps = os.path.join(REPO, 'apps')
    files += [os.path.join(apps, f) for f in sorted(os.listdir(apps)) if f.endswith('.cpp')]
    for p in files:
        text = strip_comments(read(p).decode('utf-8', 'replace'))
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"|\'((?:[^\'\\\n]|\\.)+)\'', text):
            t = unescape(m.group(1) if m.group(1) is not None else m.group(2))
            if 0 < len(t) <= 40:
                strings.add(t)
                if len(t) == 1:
                    numbers.add(ord(t))
        bare = re.sub(r'"(?:[^"\\\n]|\\.)*"', '""', text)
        bare = re.sub(r"(?<=[0-9a-fA-F])'(?=[0-9a-fA-F])", '', bare)
        for m in re.finditer(r'\b(0[xX][0-9a-fA-F]+|\d+)(?:[uUlLzZ]*)\b', bare):
            v = int(m.group(1), 16 if m.group(1)[1:2] in 'xX' else 10)
            if v < 2 ** 31:
                numbers.add(v)
    return strings, numbers


def write_dict(path):
    strings, numbers = literals()
    base = os.path.join(VERIF, 'harness', 'dict_base.json')
    bs, bn = set(), set()
    if os.path.exists(base):
        d = json.loads(read(base))
        bs, bn = set(d['strings']), set(d['numbers'])
    new_s, new_n = sorted(strings - bs), sorted(numbers - bn)
    all_s = new_s + sorted(strings & bs)
    all_n = new_n + sorted(numbers & bn)
    def lit(s):
        b = s.encode('utf-8', 'surrogatepass')
        return 'std::string_view{"%s", %d}' % (''.join('\\%03o' % c for c in b), len(b))
    text = '#pragma once\n#include <cstdint>\n#include <string_view>\n'
    text += 'static const std::string_view DictStrings[]{%s};\n' % ','.join(lit(s) for s in all_s or [''])
    text += 'static const uint32_t DictNumbers[]{%s};\n' % ','.join('%dU' % n for n in all_n or [0])
    text += 'static constexpr uint32_t DictSize{%d}, DictNewStrings{%d}, DictNewNumbers{%d};\n' % (
        len(all_s), len(new_s), len(new_n))
    if not os.path.exists(path) or read(path).decode() != text:
        with open(path, 'w') as f:
            f.write(text)


def compile_obj(job):
    src, key, flags = job
    out = os.path.join(BUILD, 'cache', key + '.o')
    if os.path.exists(out):
        return out, None
    fd, tmp = tempfile.mkstemp(suffix='.o', dir=os.path.join(BUILD, 'cache'))
    os.close(fd)
    p = subprocess.run([CXX] + flags + ['-c', src, '-o', tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        os.unlink(tmp)
        return None, '%s:\n%s' % (src, p.stdout[-6000:])
    os.replace(tmp, out)
    return out, None


def prop_config(pid):
    """first lines of the source: '// libs: a b' and '// apps: x'"""
    src = os.path.join(VERIF, 'props', pid + '.cpp')
    libs, apps = ['utils'], []
    for line in read(src).decode().split('\n')[:5]:
        if line.startswith('// libs:'):
            libs = line[8:].split()
        if line.startswith('// apps:'):
            apps = line[8:].split()
    return src, libs, apps


def build(pids):
    os.makedirs(os.path.join(BUILD, 'cache'), exist_ok=True)
    gen = os.path.join(BUILD, 'gen')
    os.makedirs(gen, exist_ok=True)
    write_dict(os.path.join(gen, 'dict.h'))
    hhash = hashlib.sha256()
    for h in repo_headers():
        hhash.update(h.encode() + b'\0' + read(h))
    hhash.update(' '.join([CXX] + FLAGS).encode())
    own = hashlib.sha256()
    hd = os.path.join(VERIF, 'harness')
    for f in sorted(os.listdir(hd)):
        if f.endswith('.h'):
            own.update(f.encode() + read(os.path.join(hd, f)))
    jobs, links = {}, {}

    def add(src, flags, extra=b''):
        k = hashlib.sha256(hhash.digest() + src.encode() + read(src) + extra +
                           ' '.join(flags).encode()).hexdigest()[:32]
        jobs[k] = (src, k, flags)
        return k
    inc = includes()
    myinc = inc + ['-I' + hd, '-I' + gen]
    for pid in pids:
        src, libs, apps = prop_config(pid)
        need = set(libs)
        for i in libs:
            need |= set(DEPS[i])
        ks = [add(src, FLAGS + myinc, own.digest()),
              add(os.path.join(hd, 'pbt.cpp'), FLAGS + myinc,
                  own.digest() + read(os.path.join(gen, 'dict.h')))]
        for a in apps:
            ks.append(add(os.path.join(REPO, 'apps', a + '.cpp'),
                          FLAGS + inc + ['-Dmain=app_main_' + a]))
        # link order: users first
        for i in ['stats', 'quiz', 'kanji', 'kana', 'utils']:
            if i in need:
                ks += [add(s, FLAGS + inc) for s in sources(i)]
        links[pid] = ks
    # longest first: harness, then libs
    with ThreadPoolExecutor(max_workers=int(os.environ.get('PBT_JOBS', '8'))) as ex:
        res = dict(zip(jobs, ex.map(compile_obj, jobs.values())))
    errs = [e for _, e in res.values() if e]
    if errs:
        print('BUILD FAILED\n' + '\n'.join(errs), file=sys.stderr)
        return None
    bins = {}
    for pid, ks in links.items():
        objs = [res[k][0] for k in ks]
        b = os.path.join(BUILD, 'bin', pid + '-' + hashlib.sha256(' '.join(objs).encode()).hexdigest()[:16])
        if not os.path.exists(b):
            os.makedirs(os.path.dirname(b), exist_ok=True)
            for old in os.listdir(os.path.dirname(b)):
                if old.startswith(pid + '-'):
                    os.unlink(os.path.join(os.path.dirname(b), old))
            tmp = b + '.tmp'
            p = subprocess.run([CXX, '-fsanitize=address,undefined', '-pthread', '-o', tmp] + objs,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                print('LINK FAILED\n' + p.stdout[-6000:], file=sys.stderr)
                return None
            os.replace(tmp, b)
        bins[pid] = b
    return bins


def run_env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = ('detect_leaks=0:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:'
                         'allocator_may_return_null=0:exitcode=99:abort_on_error=0')
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0:exitcode=99'
    e['PBT_REPO'] = REPO
    e.setdefault('PBT_OUT', VERIF)
    e['LC_ALL'] = 'C'
    return e


def big_stack():
    try:
        _, hard = resource.getrlimit(resource.RLIMIT_STACK)
        want = 256 << 20
        if hard != resource.RLIM_INFINITY:
            want = min(want, hard)
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
    except (ValueError, OSError):
        pass


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in read(p).decode().split('\n'):
            if line.startswith('finding: property=%s ' % pid):
                print('KNOWN-FINDING: ' + line[len('finding: '):])


def all_ids():
    return sorted(f[:-4] for f in os.listdir(os.path.join(VERIF, 'props')) if re.fullmatch(r'[A-Z]\d+\.cpp', f))


def main():
    cmd = sys.argv[1]
    if cmd == 'dict':
        s, n = literals()
        with open(os.path.join(VERIF, 'harness', 'dict_base.json'), 'w') as f:
            json.dump({'strings': sorted(s), 'numbers': sorted(n)}, f, ensure_ascii=True, indent=0)
        return 0
    if cmd == 'build':
        ids = all_ids() if sys.argv[2:] == ['all'] else sys.argv[2:]
        return 0 if build(ids) else 2
    if cmd == 'replay':
        m = re.search(r'^property=(\S+)', read(sys.argv[2]).decode('utf-8', 'replace'), re.M)
        bins = build([m.group(1)])
        if not bins:
            return 2
        return subprocess.run([bins[m.group(1)], 'replay', os.path.abspath(sys.argv[2])],
                              env=run_env(), preexec_fn=big_stack).returncode
    pid = sys.argv[2]
    bins = build([pid])
    if not bins:
        return 2
    known_findings(pid)
    sys.stdout.flush()
    rc = subprocess.run([bins[pid]], env=run_env(), preexec_fn=big_stack).returncode
    return rc


if __name__ == '__main__':
    sys.exit(main())
