"""Builds the engine and the harness (symbolic and native) from /repo's tree."""
import fcntl, glob, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TGT = os.path.join(VERIF, 'target')
HARN = os.path.join(VERIF, 'harness')
SXE = os.path.join(VERIF, 'engine/target/release/sxe')
TRIPLE = 'x86_64-unknown-linux-gnu'
NAT = os.path.join(TGT, 'nat', 'nat', 'harness')


def env():
    e = dict(os.environ)
    e.update(HOME='/root', LANG='C.UTF-8', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    for k in ('CHANOMARC', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    return e


def tool(n):
    return os.path.join(os.path.expanduser('/root'), '.rustup/toolchains/stable-' + TRIPLE, 'lib/rustlib', TRIPLE, 'bin', n)


class BuildError(Exception):
    pass


def sh(cmd, cwd, e, what):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('%s failed:\n%s' % (what, r.stdout[-4000:]))
    return r.stdout


def engine():
    sh(['cargo', 'build', '--release', '--offline'], os.path.join(VERIF, 'engine'), env(), 'engine build')


def programs(feat):
    """the sources of the programs as modules of the harness"""
    d = os.path.join(TGT, 'gen')
    os.makedirs(d, exist_ok=True)

    def gen(src, name, here, root, extra):
        t = open(src, encoding='utf-8').read()

        def mod(m):
            for p in (os.path.join(here, m[3] + '.rs'), os.path.join(here, m[3], 'mod.rs')):
                if os.path.exists(p):
                    below = os.path.dirname(p) if p.endswith('mod.rs') else p[:-3]
                    q = gen(p, name + '.' + m[3], below, root, '')
                    return '%s#[path = "%s"] %smod %s;' % (m[1], q, m[2] or '', m[3])
            return m[0]
        t = re.sub(r'^(\s*)(pub(?:\([^)]*\))?\s+)?mod\s+(\w+)\s*;', mod, t, flags=re.M)
        t = re.sub(r'(?<![$\w])crate::', root + '::', t) + extra
        p = os.path.join(d, name + '.rs')
        if not os.path.exists(p) or open(p, encoding='utf-8').read() != t:
            open(p, 'w', encoding='utf-8').write(t)
        return p

    for f in feat:
        for name, src in PROGRAMS[f]:
            if not os.path.exists(src):
                raise BuildError('%s is gone' % src)
            gen(src, name, os.path.dirname(src), 'crate::%s::%s' % (MODULE[f], name),
                '\npub fn sx_main() -> std::process::ExitCode { std::process::Termination::report(main()) }\n' if f == 'cli' else '')


PROGRAMS = {'cli': [('cli', '/repo/src/main.rs'), ('output', '/repo/src/bin/output.rs')], 'py': [('py', '/repo/bindings/python3/src/lib.rs')]}
MODULE = {'cli': 'p_cli', 'py': 'p_py'}


def start_native(feat):
    e = env()
    e['CARGO_TARGET_DIR'] = os.path.join(TGT, 'nat')
    subprocess.run(['cargo', 'clean', '--offline', '--profile', 'nat', '-p', 'chanoma', '-p', 'harness'], cwd=HARN,
                   env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return subprocess.Popen(['cargo', 'build', '--offline', '--profile', 'nat', '--features', ','.join(['native'] + feat)], cwd=HARN, env=e,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def symbolic(entries, out, feat):
    """bitcode of the harness with everything it reaches -> textual IR"""
    e = env()
    e['CARGO_TARGET_DIR'] = os.path.join(TGT, 'sym')
    e['RUSTFLAGS'] = '-C no-prepopulate-passes -C save-temps -C linker=/bin/true'
    deps = os.path.join(TGT, 'sym', TRIPLE, 'release', 'deps')
    subprocess.run(['cargo', 'clean', '--offline', '--release', '--target', TRIPLE, '-p', 'chanoma', '-p', 'harness'],
                   cwd=HARN, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for f in glob.glob(os.path.join(deps, 'harness*')):
        os.remove(f)
    sh(['cargo', 'build', '--release', '--offline', '--target', TRIPLE] + (['--features', ','.join(feat)] if feat else []), HARN, e, 'harness build')
    bc = glob.glob(os.path.join(deps, 'harness*.lto.input.bc'))
    if len(bc) != 1:
        raise BuildError('expected one bitcode file, found %r' % bc)
    a = out + '.bc'
    sh([tool('opt'), '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(entries), bc[0], '-o', a],
       VERIF, e, 'opt 1')
    f = 'sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,sroa,instcombine<no-verify-fixpoint>,simplifycfg'
    sh([tool('opt'), '-passes=function(%s),globaldce' % f, a, '-S', '-o', out], VERIF, e, 'opt 2')
    os.remove(a)
    # the temporaries of save-temps are large
    for f in glob.glob(os.path.join(deps, 'harness*')):
        os.remove(f)


class Lock:
    def __enter__(self):
        os.makedirs(TGT, exist_ok=True)
        self.f = open(os.path.join(TGT, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def all(entries, out, sym=True, feat=()):
    feat = list(feat)
    with Lock():
        if not os.path.exists(os.path.join(HARN, 'Cargo.lock')):
            raise BuildError('no Cargo.lock')
        engine()
        programs(feat)
        p = start_native(feat)
        try:
            if sym:
                symbolic(entries, out, feat)
        finally:
            o, _ = p.communicate()
        if p.returncode != 0:
            raise BuildError('native harness build failed:\n' + o[-4000:])
        nat = out + '.nat'
        shutil.copy(NAT, nat)
        return nat


if __name__ == '__main__':
    # setup_cmd: build everything once so that the checks only rebuild what depends on /repo
    os.makedirs(TGT, exist_ok=True)
    d = os.path.join(TGT, 'setup.ll')
    for f in ((), ('cli',), ('py',)):
        all(['h_p01_a'], d, feat=f)
    os.remove(d)
    os.remove(d + '.nat')
    print('setup done')
