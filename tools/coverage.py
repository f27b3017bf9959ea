#!/usr/bin/env python3
"""Developer's tool:  coverage.py SECONDS PROP...   Which lines of /repo/src do the
scenarios of these properties (default: all) never execute?  Lines that appear in
several instantiations count as executed if any one was."""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.environ.setdefault('SIM_BUILD', '/tmp/simcov')
import build, registry
build.INSTR = build.INSTR + ['-fsanitize-coverage=trace-pc']
build.EXTRA = [V + '/tools/cov/cov.cpp']
secs = sys.argv[1]
props = sys.argv[2:] or sorted(registry.CHECKS)
hit, allsites = set(), {}
for prop in props:
    exe = build.build('arpc', prop)
    cov = build.OUT + '/cov'
    if os.path.exists(cov):
        os.unlink(cov)
    env = dict(os.environ, SIM_COV_FILE=cov)
    n = os.cpu_count()
    ps = [subprocess.Popen([exe, 'batch', '--prop', prop, '--seed', '1', '--time', secs, '--worker', str(w), '--nworkers', str(n), '--out', '%s.%d.json' % (cov, w), '--known', 'try-again-outcome,custom-version-not-hashed'],
                           env=env, stdout=subprocess.DEVNULL) for w in range(n)]
    for p in ps:
        p.wait()
    m = open(cov, 'rb').read()
    sites = []
    for l in subprocess.run(['objdump', '-d', '--no-show-raw-insn', exe], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        if want := (sites and sites[-1] is None):
            sites[-1] = int(l.split(':')[0], 16)
        if 'call' in l and '__sanitizer_cov_trace_pc' in l:
            sites.append(None)
    sites = [s for s in sites if s]
    p = subprocess.run(['addr2line', '-e', exe], input='\n'.join(hex(s - 1) for s in sites), stdout=subprocess.PIPE, text=True)
    for s, l in zip(sites, p.stdout.splitlines()):
        l = l.split(' ')[0]
        if build.SRC not in l:
            continue
        f, line = l[l.index(build.SRC) + len(build.SRC) + 1:].rsplit(':', 1)
        if not line.isdigit():
            continue
        k = (f, int(line))
        allsites.setdefault(k, False)
        if m[s - 0x400000]:
            allsites[k] = True
    print(prop, len(sites), file=sys.stderr)
tot = len(allsites)
print('%d of %d lines with basic blocks executed' % (sum(allsites.values()), tot))
cur = None
for (f, l), h in sorted(allsites.items()):
    if not h:
        print('%s:%d: %s' % (f, l, open(os.path.join(build.SRC, f)).read().split('\n')[l - 1].strip()))
