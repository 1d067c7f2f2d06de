"""Compiles the C++ drivers from the repository's current sources."""
import atexit
import os
import shutil
import subprocess
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def build(repo, variants):
    """variants: {name: (impl, with codec)} -> directory with the programs"""
    d = os.path.join(ROOT, 'build', str(os.getpid()))
    os.makedirs(d, exist_ok=True)

    def clean():
        shutil.rmtree(d, ignore_errors=True)
        try:
            os.rmdir(os.path.dirname(d))
        except OSError:
            pass
    atexit.register(clean)
    fails = []

    def one(name, impl, codec):
        src = os.path.join(repo, 'compressor', impl)
        files = ['header_freq_tables.cc', 'utils.cc']
        if codec:
            files.append('spdy4_headers_codec.cc')
        cmd = (['g++', '-std=c++11', '-O1', '-g', '-w', '-DNDEBUG',
                '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address',
                '-fno-omit-frame-pointer', '-include', 'cstdint', '-include',
                'cmath', '-include', 'array', '-I' + src]
               + (['-DWITH_CODEC'] if codec else [])
               + [os.path.join(HERE, 'cpp', 'driver.cc')]
               + [os.path.join(src, f) for f in files]
               + ['-o', os.path.join(d, name)])
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            fails.append((name, p.stdout.decode('utf-8', 'replace')[-2000:]))
    ts = [threading.Thread(target=one, args=(n,) + v)
          for n, v in variants.items()]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if fails:
        raise RuntimeError('does not compile: %s' % (fails,))
    os.environ['VERIF_CPP'] = d
    return d
