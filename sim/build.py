#!/usr/bin/env python3
"""Builds the simulator with the sources of /repo into /verif/.build/simrun."""
import fcntl, glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo')
OUT = os.environ.get('SIM_OUT', os.path.join(ROOT, '.build'))
OBJ = os.path.join(OUT, 'obj')
INC = ['include', 'src/common', 'src/common/internal', 'src/json', 'src/json/internal', 'src/transport', 'src/transport/internal',
       'src/server', 'src/server/internal', 'src/client', 'src/client/internal', 'src/connection_pool', 'src/connection_pool/internal',
       'src/gateway', 'src/gateway/internal']
BASE = ['gcc', '-O1', '-g', '-std=gnu99', '-w', '-D_GNU_SOURCE', '-U_FORTIFY_SOURCE', '-fno-builtin', '-fno-pie', '-fno-omit-frame-pointer',
        '-fno-optimize-sibling-calls', '-fcf-protection=none']
REPOF = BASE + ['-fstack-protector-strong', '-fsanitize=thread', '--param', 'tsan-distinguish-volatile=1']
HARNF = BASE + ['-fno-stack-protector']
# no -fno-builtin tricks needed in the simulator itself
SIMF = ['gcc', '-O2', '-g', '-std=gnu99', '-Wall', '-Wextra', '-Wno-unused-parameter', '-U_FORTIFY_SOURCE', '-fno-pie',
        '-fno-omit-frame-pointer', '-fno-optimize-sibling-calls', '-fno-stack-protector', '-fcf-protection=none', '-fno-tree-loop-distribute-patterns']
# names of the simulator's interface that happen to look like a libc function
NOTLIBC = {'log', 'access', 'block', 'fail', 'hash', 'join', 'limit', 'group', 'range', 'point', 'state', 'self', 'cost', 'now', 'wall', 'choose'}
SPECIAL = {'access': 'sim_access_path', '__assert_fail': 'sim_assert_fail', '__stack_chk_fail': 'sim_stack_chk_fail',
           '__errno_location': None}


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write('build failed: %s\n%s\n' % (' '.join(cmd), r.stdout))
        sys.exit(2)
    return r.stdout


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:32]


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def undefined(o):
    return {l.split()[-1] for l in run(['nm', '-u', o]).splitlines() if l.strip()}


def defined(objs):
    s = set()
    for o in objs:
        for l in run(['nm', '--defined-only', '-g', o]).splitlines():
            p = l.split()
            if len(p) == 3:
                s.add(p[2])
    return s


def main():
    os.makedirs(OBJ, exist_ok=True)
    lock = open(os.path.join(OUT, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    inc = []
    for d in INC:
        if os.path.isdir(os.path.join(REPO, d)):
            inc += ['-I', os.path.join(REPO, d)]
    headers = sorted(glob.glob(REPO + '/src/**/*.h', recursive=True) + glob.glob(REPO + '/include/*.h'))
    hh = sha(*[p + ':' + hashlib.sha256(rd(p)).hexdigest() for p in headers])
    simh = sha(*[hashlib.sha256(rd(p)).hexdigest() for p in sorted(glob.glob(HERE + '/*.h') + glob.glob(ROOT + '/harness/*.h'))])
    jobs = []  # (source, object, command)
    srcs = sorted(glob.glob(REPO + '/src/**/*.c', recursive=True))
    compat = os.path.join(HERE, 'compat.h')
    def job(src, flags, extra, tag):
        key = sha(rd(src), os.path.basename(src), ' '.join(flags), extra)
        o = os.path.join(OBJ, '%s-%s-%s.o' % (tag, os.path.basename(src)[:-2], key))
        jobs.append((src, o, flags))
        return o
    small = {b'tcp_transport_internal.h': 'small_tcp.h', b'client_internal.h': 'small_client.h'}
    def forced(s):
        text, f = rd(s), ['-include', compat] + inc
        for k, v in small.items():
            if b'/' + k in text:
                f += ['-include', os.path.join(HERE, v)]
        return f
    repo_o = [job(s, REPOF + forced(s), hh + s + sha(rd(compat), *[rd(os.path.join(HERE, v)) for v in small.values()]), 'r') for s in srcs]
    gen = os.path.join(OUT, 'tsan.c')
    run([sys.executable, os.path.join(HERE, 'gen_tsan.py'), gen])
    sim_o = [job(s, SIMF + ['-I', HERE], simh, 's') for s in sorted(glob.glob(HERE + '/*.c')) + [gen]]
    harn_o = [job(s, HARNF + ['-include', compat, '-I', HERE, '-I', ROOT + '/harness'] + inc, hh + simh, 'h') for s in sorted(glob.glob(ROOT + '/harness/*.c'))]
    todo = [j for j in jobs if not os.path.exists(j[1])]
    def comp(j):
        src, o, flags = j
        tmp = o + '.tmp%d' % os.getpid()
        r = subprocess.run(flags + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            if r.stdout.strip():
                sys.stderr.write(r.stdout)
            os.rename(tmp, o)
        return (src, r.returncode, r.stdout)
    with ThreadPoolExecutor(8) as ex:
        bad = [x for x in ex.map(comp, todo) if x[1]]
    for src, _, out in bad:
        sys.stderr.write('compile failed: %s\n%s\n' % (src, out))
    if bad:
        sys.exit(2)
    exe = os.path.join(OUT, 'simrun')
    stamp = sha(*(sorted(os.path.basename(j[1]) for j in jobs) + [sha(rd(__file__))]))
    sfile = exe + '.stamp'
    if not (os.path.exists(exe) and os.path.exists(sfile) and rd(sfile).decode() == stamp):
        sdef = defined(sim_o)
        def mapping(und, harness):
            m = {}
            for u in und:
                if u in SPECIAL:
                    if SPECIAL[u]:
                        m[u] = SPECIAL[u]
                    continue
                b = u
                for p in ('__isoc99_', '__isoc23_'):
                    if b.startswith(p):
                        b = b[len(p):]
                if b in NOTLIBC:
                    continue
                if harness:
                    if b in ('malloc', 'calloc', 'realloc', 'strdup', 'strndup') and 'simh_' + b in sdef:
                        m[u] = 'simh_' + b
                    elif b == 'free' or b.startswith('pthread_') or b in ('time', 'gettimeofday', 'clock_gettime', 'usleep', 'sleep', 'nanosleep', 'rand', 'srand', 'send', 'recv', 'close', 'socket', 'connect', 'fopen', 'fclose', 'fread', 'fwrite', 'pipe', 'poll', 'select', 'read', 'write', 'shutdown', 'bind', 'listen', 'accept', 'setsockopt', 'fcntl', 'open', 'unlink', 'rename', 'sched_yield'):
                        if 'sim_' + b in sdef:
                            m[u] = 'sim_' + b
                elif 'sim_' + b in sdef:
                    m[u] = 'sim_' + b
            return m
        def redefine(objs, name, harness):
            o = os.path.join(OUT, name)
            run(['ld', '-r', '-o', o + '.in'] + objs)
            m = mapping(undefined(o + '.in'), harness)
            mf = o + '.map'
            with open(mf, 'w') as f:
                for k in sorted(m):
                    f.write('%s %s\n' % (k, m[k]))
            cmd = ['objcopy', '--redefine-syms', mf]
            if not harness:
                cmd += ['--rename-section', '.data=repo_data', '--rename-section', '.bss=repo_bss']
            run(cmd + [o + '.in', o])
            return o
        ro = redefine(repo_o, 'repo.o', False)
        ho = redefine(harn_o, 'harness.o', True) if harn_o else None
        tmp = exe + '.tmp'
        run(['gcc', '-no-pie', '-o', tmp] + sim_o + [ro] + ([ho] if ho else []) +
            ['-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,norelro', '-lssl', '-lcrypto', '-lm', '-lpthread', '-ldl'])
        os.rename(tmp, exe)
        with open(sfile, 'w') as f:
            f.write(stamp)
    # drop objects no longer used
    keep = {j[1] for j in jobs}
    olds = [p for p in glob.glob(OBJ + '/*.o') if p not in keep]
    if len(olds) > 900:
        for p in sorted(olds, key=os.path.getmtime)[:-500]:
            os.unlink(p)


main()
