#!/usr/bin/env python3
"""Build the simulator binaries from /repo's current working tree.

Object files are cached in /verif/build keyed by a hash of every input, so a
check that runs on an unchanged tree links nothing and a changed tree rebuilds
exactly what its content requires."""
import concurrent.futures, fcntl, glob, hashlib, os, re, subprocess, sys

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
OUT = os.environ.get('SIM_BUILD', os.path.join(V, 'build'))
CXX = 'g++'
BASE = ['-U_FORTIFY_SOURCE', '-std=c++17', '-g', '-fno-omit-frame-pointer', '-no-pie', '-fno-pie', '-w', '-pthread']
RUNTIME = BASE + ['-O2', '-fno-builtin-memcpy', '-fno-builtin-memset', '-fno-builtin-memmove', '-fno-builtin-memcmp', '-I' + V + '/sim/core']
INSTR = BASE + ['-O1', '-fno-rtti', '-fsanitize=thread,bool,enum,shift,signed-integer-overflow,bounds,null,return,integer-divide-by-zero,float-cast-overflow,vla-bound,unreachable,alignment',
         '-fsanitize-undefined-trap-on-error', '-fno-inline-small-functions', '-fno-optimize-sibling-calls',
         '-I' + SRC, '-I' + V + '/sim/include', '-I' + V + '/sim/core']
EXTRA = []  # developer's tools only
WRAP = ['-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp']


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()


def headers(root):
    r = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(('.h', '.hpp', '.inc', '.ipp', '.inl')):
                r.append(os.path.join(d, f))
    return r


def repo_sources():
    r = []
    for d, _, fs in os.walk(os.path.join(SRC, 'arpc')):
        for f in fs:
            if f.endswith(('.cpp', '.cc', '.cxx')):
                r.append(os.path.join(d, f))
    return sorted(r)


class BuildError(Exception):
    pass


def deps(src, flags):
    p = subprocess.run([CXX] + flags + ['-MM', '-MG', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        return None
    t = p.stdout.replace('\\\n', ' ')
    t = t.split(':', 1)[1].split()
    return [x for x in t if os.path.exists(x)]


def compile_one(job):
    src, flags, objdir, allh = job
    ds = deps(src, flags)
    key = sha(CXX, ' '.join(flags), src, tree_hash(ds) if ds else allh + tree_hash([src]))
    obj = os.path.join(objdir, os.path.basename(src) + '.' + key + '.o')
    if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid()
        p = subprocess.run([CXX] + flags + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError('cannot compile %s\n%s' % (src, p.stdout[-6000:]))
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj


def scen_sources(sub, prop):
    r = sorted(glob.glob(V + '/sim/' + sub + '/*.cpp'), key=lambda s: -os.path.getsize(s))
    # <id>_name.cpp belongs to one property only.
    return [s for s in r if not prop or not re.match(r'[a-z]\d\d_', os.path.basename(s)) or os.path.basename(s).startswith(prop.lower() + '_')]


def build(which='all', prop=None):
    os.makedirs(OUT + '/obj', exist_ok=True)
    lock = open(OUT + '/lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        allh = tree_hash(headers(SRC) + headers(V + '/sim'))
        res = {}
        jobs = []
        plan = {}
        if which in ('all', 'arpc'):
            js = []
            for s in scen_sources('scen', prop):
                js.append((s, INSTR, OUT + '/obj', allh))
            for s in repo_sources():
                js.append((s, INSTR, OUT + '/obj', allh))
            for s in sorted(glob.glob(V + '/sim/core/*.cpp')) + EXTRA:
                js.append((s, RUNTIME, OUT + '/obj', allh))
            plan['simarpc'] = (js, [CXX] + BASE + WRAP, ['-ldl', '-rdynamic'])
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            futs = {}
            for name, (js, _, _) in plan.items():
                futs[name] = [ex.submit(compile_one, j) for j in js]
            objs = {}
            errs = []
            for name, fs in futs.items():
                objs[name] = []
                for f in fs:
                    try:
                        objs[name].append(f.result())
                    except BuildError as e:
                        errs.append(str(e))
            if errs:
                raise BuildError('\n'.join(errs))
        for name, (js, link, libs) in plan.items():
            key = sha(name, *objs[name], *link, *libs)
            exe = os.path.join(OUT, name + '.' + key)
            if not os.path.exists(exe):
                tmp = exe + '.%d.tmp' % os.getpid()
                p = subprocess.run(link + objs[name] + ['-o', tmp] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    raise BuildError('cannot link %s\n%s' % (name, p.stdout[-6000:]))
                os.replace(tmp, exe)
            else:
                os.utime(exe)
            res[name] = exe
        # Keep the cache bounded.
        fs = sorted(glob.glob(OUT + '/obj/*.o'), key=os.path.getmtime, reverse=True)
        for f in fs[600:]:
            os.unlink(f)
        es = sorted([f for f in glob.glob(OUT + '/sim*.*') if not f.endswith('.tmp')], key=os.path.getmtime, reverse=True)
        for f in es[80:]:
            os.unlink(f)
        return res if prop is None else next(iter(res.values()))
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


if __name__ == '__main__':
    try:
        if sys.argv[1:] == ['setup']:
            print(build('arpc'))
            sys.exit(0)
        r = build(sys.argv[1] if len(sys.argv) > 1 else 'all', sys.argv[2] if len(sys.argv) > 2 else None)
        for k, v in (r.items() if isinstance(r, dict) else [('exe', r)]):
            print(k, v)
    except BuildError as e:
        print(e)
        sys.exit(2)
