"""Build hermite_cpp from /repo's working tree, outside /repo, keyed by its sources."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
LIB = '/usr/lib/x86_64-linux-gnu'


class BuildError(Exception):
    pass


def source_hash(variant):
    h = hashlib.sha256(variant.encode())
    if variant == 'asan':
        with open(os.path.join(VERIF, 'checks', 'native', 'monitors.hpp'), 'rb') as fd:
            h.update(fd.read())
    root = os.path.join(REPO, 'cpp')
    for base, dirs, files in sorted(os.walk(root)):
        dirs[:] = sorted(d for d in dirs if d not in ('build', 'boost'))
        for f in sorted(files):
            path = os.path.join(base, f)
            h.update(os.path.relpath(path, root).encode() + b'\0')
            with open(path, 'rb') as fd:
                h.update(fd.read())
            h.update(b'\0')
    return h.hexdigest()[:16]


def run(cmd, env, log):
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors='replace')
    log.append('$ ' + ' '.join(cmd) + '\n' + r.stdout)
    if r.returncode != 0:
        raise BuildError('\n'.join(log)[-8000:])


def build(variant='release'):
    """Return the directory that contains hermite_cpp.so."""
    os.makedirs(BUILD, exist_ok=True)
    key = variant + '-' + source_hash(variant)
    dest = os.path.join(BUILD, key)
    with open(os.path.join(BUILD, variant + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.isfile(os.path.join(dest, 'lib', 'hermite_cpp.so')):
            return os.path.join(dest, 'lib')
        for old in os.listdir(BUILD):
            if old.startswith(variant + '-'):
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        tmp = dest + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        env = dict(os.environ, CC='gcc', CXX='g++', LC_ALL='C.UTF-8',
                   PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
        log = []
        cmd = ['cmake', '-S', os.path.join(REPO, 'cpp'), '-B', tmp, '-G', 'Ninja', '-Wno-dev',
               '-DCMAKE_BUILD_TYPE=release',
               '-DCMAKE_POLICY_VERSION_MINIMUM=3.5',
               '-DCMAKE_LIBRARY_OUTPUT_DIRECTORY=' + os.path.join(tmp, 'lib'),
               '-DBoost_NO_BOOST_CMAKE=ON']
        for comp in ('PYTHON3', 'NUMPY3'):
            name = comp[:-1].lower()
            for kind in ('RELEASE', 'DEBUG'):
                cmd.append('-DBoost_%s_LIBRARY_%s=%s/libboost_%s312.so' % (comp, kind, LIB, name))
        if variant == 'asan':
            # Standard-library assertions catch operator[] past size() even
            # inside the capacity of the allocation.
            flags = ('-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined '
                     '-fno-sanitize=vptr -fno-sanitize-recover=undefined '
                     '-D_GLIBCXX_ASSERTIONS -include ' + os.path.join(VERIF, 'checks', 'native', 'monitors.hpp'))
            # Replace the optimisation flags of the project (they come last).
            cmd += ['-DCMAKE_CXX_FLAGS=' + flags,
                    '-DCMAKE_BUILD_TYPE=verifasan',
                    '-DCMAKE_CXX_FLAGS_VERIFASAN=' + flags]
        run(cmd, env, log)
        run(['ninja', '-C', tmp, 'hermite_cpp'], env, log)
        if not os.path.isfile(os.path.join(tmp, 'lib', 'hermite_cpp.so')):
            raise BuildError('hermite_cpp.so was not produced\n' + '\n'.join(log)[-4000:])
        shutil.rmtree(dest, ignore_errors=True)
        os.rename(tmp, dest)
    return os.path.join(dest, 'lib')


if __name__ == '__main__':
    for v in sys.argv[1:] or ['release']:
        print(v, build(v))
