#!/usr/bin/env python3
"""Builds the simulator against /repo's current sources. Content-hash cache in /verif/build."""
import os, sys, hashlib, subprocess, glob, concurrent.futures as cf, shutil, fcntl, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
SIM = os.path.join(VERIF, 'sim')
JOBS = int(os.environ.get('SIM_JOBS', str(os.cpu_count() or 8)))
INC = ['-I/usr/include/glib-2.0', '-I/usr/lib/x86_64-linux-gnu/glib-2.0/include', '-I/usr/include/lua5.1', '-I/usr/include/p11-kit-1']
SUT = ['-std=c99', '-O1', '-g1', '-D_FILE_OFFSET_BITS=64', '-D_LARGEFILE_SOURCE', '-D_LARGE_FILES', '-Wno-pointer-sign', '-fPIC', '-pthread',
       '-w', '-fno-omit-frame-pointer', '-fsanitize=address', '-fsanitize=bounds', '-fsanitize-trap=bounds', '-fsanitize-coverage=trace-pc', '-DUSE_SNI']
CXX = ['-std=c++17', '-O1', '-g1', '-fno-threadsafe-statics', '-fPIC', '-pthread', '-Wall', '-Wno-unused-function', '-fno-omit-frame-pointer', '-fno-builtin',
       '-U_FORTIFY_SOURCE']
MODLIBS = {'deflate': ['-lbz2', '-lz'], 'openssl': ['-lssl', '-lcrypto', '-lidn'], 'gnutls': ['-lgnutls', '-lidn'], 'lua': ['-llua5.1'], 'memcached': ['-llua5.1']}
MODEXTRA = {'fastcgi': ['fastcgi_stream.c'], 'gnutls': ['gnutls_filter.c', 'gnutls_ocsp.c'], 'openssl': ['openssl_filter.c']}

class BuildError(Exception): pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def rd(p):
    with open(p, 'rb') as f: return f.read()

def run(cmd, cwd=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')[-6000:])
    return r.stdout

def headers_hash(dirs, pats):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if any(f.endswith(p) for p in pats):
                    p = os.path.join(root, f); h.update(os.path.relpath(p, d).encode()); h.update(rd(p))
    return h.hexdigest()

def cached(key, suffix, make):
    out = os.path.join(BUILD, 'cache', key + suffix)
    if os.path.exists(out): return out
    tmp = out + '.tmp%d.%d' % (os.getpid(), id(make))
    make(tmp)
    os.rename(tmp, out)
    return out

def build(verbose=False):
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, 'cache'), exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    hh = headers_hash([os.path.join(REPO, 'include'), os.path.join(REPO, 'src'), os.path.join(SIM, 'include')], ['.h', '_impl.c'])
    sh = headers_hash([SIM], ['.h'])
    ex = cf.ThreadPoolExecutor(JOBS)
    def cc(src, extra=(), tag=''):
        flags = SUT + list(extra) + INC
        srcdir = os.path.dirname(src)
        key = sha('cc', ' '.join(flags), hh, os.path.basename(src), rd(src))
        inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(SIM, 'include')]
        if src.startswith(REPO): inc.append('-I' + srcdir)
        return cached(key, '.o', lambda t: run(['gcc'] + flags + inc + ['-c', src, '-o', t]))
    def ragel(src, t):
        key = sha('ragel', t, os.path.basename(src), rd(src))
        d = os.path.join(BUILD, 'cache', 'rl-' + key); os.makedirs(d, exist_ok=True)
        out = os.path.join(d, os.path.basename(src)[:-3] + '.c')
        if not os.path.exists(out):
            run(['ragel', '-C', t, '-o', out + '.tmp', src]); os.rename(out + '.tmp', out)
        return out
    def rl_cc(src, t, extra=()): return cc(ragel(src, t), ['-I' + os.path.dirname(src)] + list(extra))
    def cxx(src):
        key = sha('cxx', ' '.join(CXX), sh, os.path.basename(src), rd(src))
        return cached(key, '.o', lambda t: run(['g++'] + CXX + ['-I' + SIM, '-c', src, '-o', t]))
    S = lambda *p: os.path.join(REPO, 'src', *p)
    F = {}
    def sub(group, fn, *a): F.setdefault(group, []).append(ex.submit(fn, *a))
    # slow ones first
    sub('worker', rl_cc, S('main', 'config_parser.rl'), '-T0')
    for f in sorted(glob.glob(os.path.join(SIM, '*.cc'))): sub('simangel' if os.path.basename(f).startswith('sa_') else 'simworker' if os.path.basename(f).startswith('s_') else 'sim', cxx, f)
    for f in sorted(glob.glob(S('main', '*.rl'))):
        if not f.endswith('config_parser.rl'): sub('worker', rl_cc, f, '-T1')
    for f in sorted(glob.glob(S('common', '*.rl'))): sub('common', rl_cc, f, '-T1')
    for f in sorted(glob.glob(S('angel', '*.rl'))): sub('angel', rl_cc, f, '-T1')
    for f in sorted(glob.glob(S('main', '*.c'))):
        b = os.path.basename(f)
        if b in ('subrequest_lua.c', 'lemon.c', 'lempar.c'): continue
        sub('worker', cc, f, ['-Dmain=worker_main'] if b == 'lighttpd_worker.c' else [])
    for f in sorted(glob.glob(S('common', '*.c'))):
        b = os.path.basename(f)
        if b in ('value_impl.c', 'profiler.c'): continue
        if b == 'mempool.c':
            names = ('li_mempool_align_page_size', 'li_mempool_alloc', 'li_mempool_free', 'li_mempool_cleanup')
            sub('common', cc, f, ['-D%s=pool_%s' % (n, n) for n in names])
            sub('common', cc, f, ['-D%s=sys_%s' % (n, n) for n in names] + ['-DMEMPOOL_MALLOC'])
            sub('common', cc, os.path.join(SIM, 'mempool_switch.c'), [])
        else: sub('common', cc, f)
    for f in sorted(glob.glob(S('angel', '*.c'))):
        sub('angel', cc, f, ['-Dmain=angel_main'] if f.endswith('angel_main.c') else [])
    mods = {}
    for f in sorted(glob.glob(S('modules', 'mod_*.c'))):
        n = os.path.basename(f)[4:-2]
        mods[n] = [ex.submit(cc, f)] + [ex.submit(cc, S('modules', e)) for e in MODEXTRA.get(n, []) if os.path.exists(S('modules', e))]
    known = set(sum(MODEXTRA.values(), []))
    for f in sorted(glob.glob(S('modules', '*.c'))):   # helper files added later: link them into every module
        b = os.path.basename(f)
        if not b.startswith('mod_') and b not in known:
            for n in mods: mods[n].append(ex.submit(cc, f))
    O = {g: [f.result() for f in fs] for g, fs in F.items()}
    M = {n: [f.result() for f in fs] for n, fs in mods.items()}
    libs = ['-lgthread-2.0', '-lgmodule-2.0', '-lglib-2.0', '-lev', '-lunwind', '-lcrypt', '-llua5.1', '-lm', '-lz', '-lbz2', '-lssl', '-lcrypto', '-lgnutls', '-lpthread', '-ldl']
    # one directory per content so that concurrent checks never overwrite a running binary
    key = sha('set', ' '.join(sum(O.values(), []) + sum(M.values(), [])))
    out = os.path.join(BUILD, 'set-' + key)
    if not os.path.exists(os.path.join(out, 'ok')):
        os.makedirs(os.path.join(out, 'modules'), exist_ok=True)
        def ld(name, objs):
            run(['g++', '-no-pie', '-fsanitize=address', '-static-libstdc++', '-static-libgcc', '-rdynamic', '-pthread', '-Wl,-E', '-o', os.path.join(out, name)] + objs + libs)
        js = [ex.submit(ld, 'simworker', O['sim'] + O.get('simworker', []) + O['worker'] + O['common']),
              ex.submit(ld, 'simangel', O['sim'] + O.get('simangel', []) + O['angel'] + O['common'])]
        for n, objs in M.items():
            js.append(ex.submit(run, ['gcc', '-shared', '-fsanitize=address', '-pthread', '-o', os.path.join(out, 'modules', 'libmod_%s.so' % n)] + objs + MODLIBS.get(n, [])))
        for j in js: j.result()
        open(os.path.join(out, 'ok'), 'w').close()
    # prune old sets (keep 4 most recent)
    os.utime(out)
    sets = sorted(glob.glob(os.path.join(BUILD, 'set-*')), key=os.path.getmtime)
    for s in sets[:-6]: shutil.rmtree(s, ignore_errors=True)
    if verbose: print('build %.1fs -> %s' % (time.time() - t0, out))
    return out

if __name__ == '__main__':
    try: print(build(True))
    except BuildError as e: print(e); sys.exit(2)
