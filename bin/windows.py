#!/usr/bin/env python3
"""Regenerates spec/windows-*.ndjson, the concurrent scenarios TLC finds in Windows.tla: windows.py [configurations]"""
import os, re, shutil, subprocess, sys, tempfile
from vlib import SPEC, JARS

CONFIGS = ['tab2', 'tab3', 'cover', 'chain', 'range']


def generate(cfg, workers=8, timeout=800):
    d = tempfile.mkdtemp()
    try:
        p = subprocess.run(['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx4g', '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', d,
                            '-noGenerateSpecTE', '-config', 'Windows_%s.cfg' % cfg, 'Windows.tla'], cwd=SPEC, capture_output=True, text=True, timeout=timeout)
    finally:
        shutil.rmtree(d)
    if 'No error has been found' not in p.stdout:
        raise RuntimeError('TLC failed on Windows_%s:\n%s' % (cfg, p.stdout[-2000:]))
    q = [m.group(1).encode().decode('unicode_escape') for m in re.finditer(r'<<"EDGE", "(.*)">>', p.stdout)]
    return '\n'.join(sorted(q)) + '\n'


def path(cfg):
    return os.path.join(SPEC, 'windows-%s.ndjson' % cfg)


if __name__ == '__main__':
    for c in sys.argv[1:] or CONFIGS:
        with open(path(c), 'w') as f:
            f.write(generate(c))
