"""Bounded supplements: native harnesses (in /verif/native) compiled against /repo's current tree and run there.
They never count as proof; they decide what the verifier leaves undecided and supply failing inputs."""
import os, re, subprocess, tempfile, time
from . import build

NAT = os.path.join(build.VERIF, 'native')


def compile_task(ctx, name, src, defs, fallback, opt, san, args, shards, n, seed, rule, timeout):
    out = '%s.exe' % name
    extra = ['-fsanitize=' + san, '-fno-omit-frame-pointer'] if san else []
    exe, used = None, None
    errs = []
    for dd in [defs] + ([fallback] if fallback is not None else []):
        try:
            exe = ctx.chk.scratch.exe([os.path.join(NAT, src)], out, defs=dd, opt=opt, extra=extra)
            used = dd
            break
        except build.BuildError as e:
            errs.append(str(e)[-700:])
        except subprocess.TimeoutExpired:
            errs.append('compiler time-out')
    if exe is None:
        ctx.fail_obl('bounded supplement ' + name, 'does not build: ' + ' '.join(errs)[-900:])
        return
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='halt_on_error=1', TSAN_OPTIONS='halt_on_error=1')
    procs = []
    for k in range(shards):
        pf = ctx.chk.scratch.path('%s.p%d' % (name, k))
        a = [exe] + [str(x).format(n=n, seed=seed + 100 * k) for x in args]
        procs.append((k, pf, a, subprocess.Popen(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                                                env=dict(env, PROGRESS=pf))))
    fails, evals = [], 0
    end = time.time() + timeout
    for k, pf, a, p in procs:
        hang = False
        try:
            o, _ = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
            hang = True
        if 'FATAL: ThreadSanitizer' in o and 'WARNING: ThreadSanitizer' not in o:
            continue   # the sanitizer itself does not run here
        m = re.search(r'DONE histories (\d+) checks (\d+)', o)
        for l in o.splitlines():
            if l.startswith('FAIL '):
                fails.append(dict(failure=l[:3000], command=' '.join(os.path.basename(x) for x in a), source='/verif/native/' + src, defs=used))
        if m:
            evals += int(m.group(2))
        elif not any(l.startswith('FAIL ') for l in o.splitlines()):
            idx = None
            try:
                idx = open(pf).read().split()[0]
            except Exception:
                pass
            if hang and not os.environ.get('VC_NAT_HANG_FAILS', '1') == '1':
                continue
            log = ''
            if idx is not None:
                try:
                    r = subprocess.run(a + [idx], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                                       env=dict(env, ECHO='1'), timeout=20)
                    log = r.stdout[:2500]
                    if hang and re.search(r'DONE histories', r.stdout):
                        continue   # merely slow
                except subprocess.TimeoutExpired as e:
                    log = (e.stdout or b'')[:2500]
                    log = log.decode(errors='replace') if isinstance(log, bytes) else log
            fails.append(dict(failure='%s in history %s' % ('data race' if 'ThreadSanitizer: data race' in o else 'does not terminate' if hang else 'the program is ended (code %s)' % p.returncode, idx),
                              history=log, output=(o[o.index('WARNING: Thr'):][:3000] if 'WARNING: ThreadSan' in o else o[-1200:]), command=' '.join(os.path.basename(x) for x in a), source='/verif/native/' + src, defs=used))
    ctx.native(name, evals, fails, rule, sample=dict(suite=name, checks=evals, args=args))
    if os.path.exists(exe):
        os.unlink(exe)


def add(chk, name, src, defs=(), fallback=None, opt='-O0', san='', args=('{n}', '{seed}'), shards=4, n=(1000, 20000), rule='', timeout=None):
    """register a native suite; n = (quick, thorough) histories per shard"""
    th = chk.thorough
    chk.tasks.insert(0, (name, compile_task, name, src, list(defs), fallback, opt, san, args, shards, n[1] if th else n[0], chk.seed * 1000 + 17, rule,
                         timeout or (900 if th else 150)))


def tape(chk, suite, n=(700, 20000)):
    rule = 'random histories of tape operations (lengths up to 60, blocks of 4) against an independent model; property %s' % suite
    for cfg, d in (('default', []), ('reuse_slots', ['-DXAD_TAPE_REUSE_SLOTS'])):
        add(chk, 'tape_%s_%s' % (suite, cfg), 'tape.cpp', d + ['-DSMALL_CHUNK'], d, args=(suite, '{n}', '{seed}'), shards=4, n=n, rule=rule)
    add(chk, 'tape_%s_asan' % suite, 'tape.cpp', ['-DXAD_TAPE_REUSE_SLOTS', '-DSMALL_CHUNK', '-DCHUNK=2'], ['-DXAD_TAPE_REUSE_SLOTS'], san='address', args=(suite, '{n}', '{seed}'),
        shards=2, n=(n[0] // 3, n[1] // 4), rule=rule + ' (address sanitizer)')


def second(chk, n=(150, 6000)):
    """second-order modes on random polynomial programs with many zero values, against exact jets"""
    add(chk, 'second_order', 'second.cpp', opt='-O1', args=('{n}', '{seed}'), shards=4, n=n,
        rule='random programs of up to 6 operations over 1..3 inputs, all second-order modes against exact second-order jets')


def hashes(chk, n=(2000, 200000)):
    add(chk, 'hash', 'hash.cpp', opt='-O1', args=('{n}', '{seed}'), shards=2, n=n,
        rule='hash of every kind of active type for special and random values and derivatives, against the hash of the number')
