"""Builds the harness crate from /repo's working tree: LLVM IR for the symbolic
executor, and a native program that replays counterexamples."""
import glob
import os
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
TYPES = {'h': 'Half', 's': 'Single', 'd': 'Double', 'q': 'Quad', 'b': 'BFloat', 'e5': 'Float8E5M2',
         'e4': 'Float8E4M3FN', 'x': 'X87DoubleExtended', 'dd': 'DoubleDouble', 't6': 'T6', 't7': 'T7', 'n6': 'N6'}
TRIPLE = 'x86_64-unknown-linux-gnu'
NIGHTLY = 'nightly'
NATIVE = '1.98.1'


class BuildError(Exception):
    pass


def entry(op, *fs):
    return '_'.join(('z', op) + fs)


# printing entries: format string and what else it needs
SHOWS = {
    'show': '"{}"',
    'show0': '"{:1$}", 0',          # width 0: always scientific
    'showa': '"{:#1$}", 0',         # the same, padded to the precision
    'showw': '"{:40}"',             # up to 40 zeros before it becomes scientific
    'showp0': '"{:.0}"',
    'showp1': '"{:.1}"',
    'showp3': '"{:.3}"',
    'showp20': '"{:#.20}"',
}


def wrap_line(name):
    p = name.split('_')
    op, fs = p[1], [TYPES[x] for x in p[2:]]
    if op == 'parse':
        return 'wp!(%s, %s);\n' % (name, fs[0])
    if op in SHOWS:
        return 'ws!(%s, %s, %s);\n' % (name, fs[0], SHOWS[op])
    g = '::<%s>' % ', '.join(fs) if fs else ''
    return 'w!(%s, crate::%s%s);\n' % (name, op, g)


def toolchain(tc):
    base = os.path.expanduser('~/.rustup/toolchains')
    for d in sorted(os.listdir(base)):
        if d == tc or d == tc + '-' + TRIPLE:
            return os.path.join(base, d)
    raise BuildError('toolchain %s missing' % tc)


def native_toolchain():
    base = os.path.expanduser('~/.rustup/toolchains')
    have = [d[:-len(TRIPLE) - 1] for d in sorted(os.listdir(base)) if d.endswith(TRIPLE)]
    for t in [NATIVE, 'stable'] + [x for x in have if not x.startswith('nightly')]:
        if t in have:
            return t
    return NIGHTLY


def run(cmd, cwd, env=None, log=None):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR', 'CARGO_BUILD_RUSTFLAGS', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-4000:]))
    return p.stdout.decode(errors='replace')


def make_crate(d, entries):
    os.makedirs(d + '/src', exist_ok=True)
    src = open(HERE + '/harness/lib.rs').read()
    src += ''.join(wrap_line(n) for n in entries)
    with open(d + '/src/lib.rs', 'w') as f:
        f.write(src)
    arms, parms, sarms = '', '', ''
    for n in entries:
        op = n.split('_')[1]
        if op == 'parse':
            parms += '        "%s" => h::%s(s, r, o),\n' % (n, n)
        elif op in SHOWS:
            sarms += '        "%s" => h::%s(a, b, o),\n' % (n, n)
        else:
            arms += '        "%s" => h::%s(a, b, c, k, r, o),\n' % (n, n)
    with open(d + '/src/main.rs', 'w') as f:
        f.write(open(HERE + '/harness/main.rs').read().replace('/*ARMS*/', arms).replace('/*PARSE*/', parms)
                .replace('/*SHOW*/', sarms))
    with open(d + '/Cargo.toml', 'w') as f:
        f.write('''[package]
name = "h"
version = "0.0.0"
edition = "2021"
[lib]
[[bin]]
name = "replay"
path = "src/main.rs"
[dependencies]
rustc_apfloat = { path = "%s" }
[workspace]
[profile.release]
opt-level = 3
codegen-units = 1
panic = "abort"
debug = false
overflow-checks = true
debug-assertions = false
[profile.release.package.rustc_apfloat]
debug-assertions = true
overflow-checks = true
[profile.dev]
opt-level = 1
debug = false
codegen-units = 4
[profile.fast]
inherits = "release"
overflow-checks = false
panic = "unwind"
codegen-units = 4
opt-level = 1
[profile.fast.package.rustc_apfloat]
debug-assertions = false
overflow-checks = false
''' % REPO)
    shutil.copy(REPO + '/Cargo.lock', d + '/Cargo.lock')


PASSES = ('internalize,globaldce,cgscc(inline<only-mandatory>),'
          'function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>),'
          'cgscc(inline),function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,early-cse,simplifycfg),'
          'globaldce,function(loop-simplify,lcssa)')


def build_ir(d, entries, full=False, inline=200):
    """-> path of the textual IR.  full=True also links core/alloc (string code)."""
    t0 = time.time()
    make_crate(d, entries)
    out = d + '/out'
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    flags = '--cap-lints allow --emit=llvm-bc,link -C no-prepopulate-passes'
    cmd = ['cargo', 'build', '--lib', '--release', '--offline', '--target', TRIPLE, '--target-dir', d + '/target']
    if full:
        flags += ' -C panic=immediate-abort -Zunstable-options'
        cmd += ['-Zbuild-std=core,alloc']
        # std is built as a dependency of the lib when it is not no_std; keep core/alloc only
        s = open(d + '/src/lib.rs').read()
        open(d + '/src/lib.rs', 'w').write('#![no_std]\n' + s)
    for f in glob.glob(d + '/target/%s/release/**/*.bc' % TRIPLE, recursive=True):
        os.remove(f)
    # make cargo recompile the crates whose IR we need
    for f in glob.glob(d + '/target/%s/release/.fingerprint/h-*' % TRIPLE) + \
            glob.glob(d + '/target/%s/release/.fingerprint/rustc_apfloat-*' % TRIPLE):
        shutil.rmtree(f, ignore_errors=True)
    run(cmd, d, {'RUSTUP_TOOLCHAIN': NIGHTLY, 'RUSTFLAGS': flags})
    bcs = {}
    for f in glob.glob(d + '/target/%s/release/**/*.bc' % TRIPLE, recursive=True):
        base = os.path.basename(f).split('-')[0]
        bcs[base] = f
    tools = toolchain(NIGHTLY) + '/lib/rustlib/%s/bin/' % TRIPLE
    order = [n for n in ('h', 'rustc_apfloat', 'smallvec', 'bitflags', 'alloc', 'core') if n in bcs]
    if 'h' not in bcs or 'rustc_apfloat' not in bcs:
        raise BuildError('no bitcode produced: %s' % sorted(bcs))
    run([tools + 'llvm-link', '--only-needed'] + [bcs[n] for n in order] + ['-o', out + '/all.bc'], d)
    run([tools + 'opt', '-passes=' + PASSES, '--inline-threshold=%d' % inline,
         '-internalize-public-api-list=' + ','.join(entries), out + '/all.bc', '-S', '-o', out + '/all.ll'], d)
    return out + '/all.ll', time.time() - t0


def build_native(d, profile='dev'):
    """replay program: 'dev' has debug assertions and overflow checks, 'fast' has neither"""
    s = open(d + '/src/lib.rs').read()
    if s.startswith('#![no_std]\n'):
        open(d + '/src/lib.rs', 'w').write(s[len('#![no_std]\n'):])
    run(['cargo', 'build', '--bin', 'replay', '--profile', profile, '--offline', '--target-dir', d + '/ntarget'], d,
        {'RUSTUP_TOOLCHAIN': native_toolchain(), 'RUSTFLAGS': '--cap-lints allow'})
    return d + '/ntarget/%s/replay' % ('debug' if profile == 'dev' else profile)
