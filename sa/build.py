"""Builds the extractor and extracts the analysed program from /repo's current source (cached by content hash)."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PCX_REPO', '/repo')
CACHE = os.path.join(V, '.cache')
STOP = 'core::fmt\ncore::panicking\nalloc::raw_vec\nstd::sync'


class BuildError(Exception):
    pass


def hash_tree(h, root, exts):
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'node_modules'))
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
                h.update(b'\0')


def run(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(f'{" ".join(cmd)} failed:\n' + r.stdout[-6000:])
    return r.stdout


def sysroot():
    return run(['rustc', '+nightly', '--print', 'sysroot']).strip()


def extractor():
    h = hashlib.sha256()
    hash_tree(h, os.path.join(V, 'extractor'), ('.rs',))
    out = os.path.join(CACHE, 'pcx-' + h.hexdigest()[:16])
    if not os.path.exists(out):
        run(['rustc', '+nightly', '--edition', '2021', '-O', 'main.rs', '-o', out + '.tmp'], cwd=os.path.join(V, 'extractor'))
        os.rename(out + '.tmp', out)
    return out, h.hexdigest()


def extract(crate='harness'):
    """-> path of the JSON describing the analysed program"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, eh = extractor()
        h = hashlib.sha256(eh.encode())
        hash_tree(h, REPO, ('.rs', '.toml', '.lock'))
        hash_tree(h, os.path.join(V, crate), ('.rs', '.toml', '.lock'))
        h.update(STOP.encode())
        out = os.path.join(CACHE, f'{crate}-{h.hexdigest()[:20]}.json')
        if os.path.exists(out):
            return out
        fdir = out[:-5] + '.facts'
        # older extractions are of no further use
        for f in os.listdir(CACHE):
            if f.startswith(crate + '-') and f.endswith('.json'):
                os.remove(os.path.join(CACHE, f))
            if f.startswith(crate + '-') and f.endswith('.facts'):
                shutil.rmtree(os.path.join(CACHE, f))
        tgt = os.path.join(CACHE, 'target-' + crate)
        env = dict(os.environ)
        env['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
        env.update(RUSTC_WRAPPER=exe, PCX_OUT=out + '.tmp', PCX_STOP=STOP, PCX_FACTS=fdir, CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL='0')
        env.pop('RUSTFLAGS', None)
        env['RUSTFLAGS'] = '--cap-lints allow --cfg parcom_verif'
        # never trust a warm fingerprint for the code under analysis
        for sub in ('.fingerprint', 'build'):
            fp = os.path.join(tgt, 'debug', sub)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith(('parcom', 'vharness')):
                        shutil.rmtree(os.path.join(fp, d))
        run(['cargo', '+nightly', 'check', '--offline', '--quiet'], env=env, cwd=os.path.join(V, crate))
        if not os.path.exists(out + '.tmp') or not os.path.isdir(fdir):
            raise BuildError('extractor produced no output')
        os.rename(out + '.tmp', out)
        return out


if __name__ == '__main__':
    print(extract(*sys.argv[1:]))
