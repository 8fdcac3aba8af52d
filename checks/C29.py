from ppv import *
from tools import *
import toolcases, random, pwd, signal, socket, tempfile, threading, tty

ENVS = [{}, {'LANG': 'fr_FR.UTF-8', 'LC_ALL': 'tr_TR.UTF-8', 'LC_NUMERIC': 'de_DE'}, {'LC_ALL': 'C.UTF-8'}, {'POSIXLY_CORRECT': '1', 'TZ': 'Asia/Tokyo'},
        {'MALLOC_PERTURB_': '165', 'HOME': '/nonexistent', 'TMPDIR': '/nonexistent'}, {'MALLOC_PERTURB_': '90', 'MALLOC_TOP_PAD_': '0', 'MALLOC_MMAP_THRESHOLD_': '0'},
        {'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0', 'MALLOC_PERTURB_': '255'}, {'GLIBC_TUNABLES': 'glibc.malloc.mxfast=0:glibc.malloc.perturb=1'},
        {'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0'}, {'GLIBC_TUNABLES': 'glibc.malloc.mmap_threshold=64'},
        {'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=1'}, {'GLIBC_TUNABLES': 'glibc.malloc.tcache_max=32:glibc.malloc.top_pad=1'},
        {'X' * 50: 'y' * 60000, 'LD_BIND_NOW': '1'}, {'COLUMNS': '10', 'TERM': 'dumb', 'IFS': ' ', 'OMP_NUM_THREADS': '1'}]


def main():
    chk = Check('C29', 'every tool run on the same contents under other environments, directories, file names and forms (relative, linked, strange names, '
                'other times and modes), heap layouts and contents, descriptors, limits and users, several at once, and under a memory checker '
                'that tracks uninitialised data; non-trivial = a run whose surroundings differ from the first')
    exe = tools(*toolcases.NAMES, flavour='rel')
    san = tools(*toolcases.NAMES)
    r = chk.rng
    nobody = pwd.getpwnam('nobody').pw_uid
    try:                                    # may this run change its user?
        subprocess.run(['true'], preexec_fn=lambda: (os.setgid(nobody), os.setuid(nobody)), check=True)
    except Exception:
        nobody = None

    rc, _, out = __import__('ppv')._compile(['gcc', '-shared', '-fPIC', '-O1', os.path.join(HARNESS, 'envwatch.c'), '-o', os.path.join(chk.scratch, 'envwatch.so')])
    if rc:
        raise HarnessError('envwatch.c: ' + out)
    # locales that group digits, write a decimal comma, fold letters in their own way
    locdir, envs = os.path.join(chk.scratch, 'locales'), list(ENVS)
    os.mkdir(locdir)

    def locale(a):
        src, cs = a
        name = '%s.%s' % (src, cs)
        try:
            subprocess.run(['localedef', '-i', src, '-f', cs, '--no-archive', os.path.join(locdir, name)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
        except (OSError, subprocess.TimeoutExpired):
            return None
        return name if os.path.exists(os.path.join(locdir, name, 'LC_NUMERIC')) else None
    with ThreadPoolExecutor(4) as ex:
        made = [x for x in ex.map(locale, [('de_DE', 'UTF-8'), ('tr_TR', 'UTF-8'), ('fr_FR', 'ISO-8859-1'), ('ja_JP', 'EUC-JP')]) if x]
    for x in made:
        envs += [{'LOCPATH': locdir, 'LC_ALL': x, 'LANG': x}] * 2 + [{'LOCPATH': locdir, 'LANG': x}]
    chk.count('locales_made', len(made))

    try:
        for fd in os.openpty():
            os.close(fd)
        outs = ['pipe', 'pipe', 'pipe', 'file', 'terminal', 'socket']
    except OSError:
        outs = ['pipe', 'pipe', 'file', 'socket']

    def trie(w):
        return run([exe['make_trie_dictionary'], w], env=san_env()).out
    cases = []
    for n in range(chk.scale(6, 40)):
        cases += toolcases.make(r, os.path.join(chk.scratch, 'd%d' % n), n % 3, trie)
    for c in cases:
        os.chmod(os.path.dirname(c.argv[0]), 0o755)
    os.chmod(chk.scratch, 0o755)
    full = run_many([([exe[c.tool]] + c.argv, b'', None) for c in cases])

    def plan(c, n):
        """-> (description, flavour, argv, run keywords): the same run in other surroundings"""
        rr = random.Random('%s/%d' % (chk.seed, n))
        what, argv, kw = [], list(c.argv), dict(env={'PATH': '/usr/bin:/bin'}, pre=[], close=[], stdin=None, cwd='/')
        e = rr.choice(envs)
        kw['env'].update(e)
        what.append('environment %s' % {k[:20]: v[:20] for k, v in e.items()})
        form = rr.choice(['same', 'relative', 'copy', 'copy', 'symlink', 'dots', 'proc'])
        what.append('files: ' + form)
        d = os.path.join(chk.scratch, 'v%d' % n)
        os.mkdir(d)
        os.chmod(d, 0o755)
        names = {}
        for k in c.files:
            f = c.argv[k]
            if form == 'relative':
                argv[k], kw['cwd'] = os.path.basename(f), os.path.dirname(f)
            elif form in ('copy', 'symlink'):
                if f not in names:
                    names[f] = os.path.join(d, '%d' % k + rr.choice(['', ' sp ace', 'é€', '-l', '.P4', '\n', '*?', 'x' * 200, '%s%n', '.gz', '.txt',
                                                                              '.pbm', '.pgm', '.ppm', '.pnm', '.png', '.raw', '.inv', '.bak', '~', '.tmp', '.dict', ':0', '.d/']).rstrip('/'))
                    if rr.random() < .15 and '-' not in [os.path.basename(q) for q in names.values()]:
                        names[f] = os.path.join(d, '-')
                    if form == 'copy':
                        shutil.copyfile(f, names[f])
                        os.chmod(names[f], rr.choice([0o444, 0o644, 0o777]))
                        os.utime(names[f], (rr.choice([0, 1 << 31, 10 ** 9]),) * 2)
                    else:
                        os.symlink(f, names[f])
                argv[k] = names[f]
                if rr.random() < .3 or os.path.basename(names[f]) == '-' and rr.random() < .7:
                    argv[k], kw['cwd'] = './' + os.path.basename(names[f]), d
            elif form == 'dots':
                argv[k] = os.path.dirname(f) + '/.//../' + os.path.basename(os.path.dirname(f)) + '/' + os.path.basename(f)
            elif form == 'proc':
                argv[k] = '/proc/self/root' + f
        if kw['cwd'] == d:                      # every name relative to the directory, or none
            argv = [a if i not in c.files or not a.startswith(d) else './' + os.path.basename(a) for i, a in enumerate(argv)]
            if rr.random() < .5:
                argv = [a[2:] if i in c.files and a.startswith('./') and not a.startswith('./-l') else a for i, a in enumerate(argv)]
        i = rr.choice(['null', 'closed', 'noise', 'full'])
        kw['stdin'] = i
        what.append('stdin ' + i)
        kw['out'] = rr.choice(outs)
        what.append('stdout ' + kw['out'])
        if rr.random() < .2:
            kw['close'].append(2)
            what.append('stderr closed')
        if rr.random() < .3:
            kw['lim'] = rr.choice([(resource.RLIMIT_STACK, 1 << 20), (resource.RLIMIT_NOFILE, 8), (resource.RLIMIT_STACK, resource.RLIM_INFINITY), (resource.RLIMIT_AS, 1 << 31)])
            what.append('limit %d %d' % kw['lim'])
        if rr.random() < .2 and form != 'proc' and nobody:
            kw['uid'] = nobody
            what.append('user nobody')
        fl = rr.choice(['rel', 'rel', 'rel', 'san'])
        if fl == 'san' and kw.get('lim', (0,))[0] == resource.RLIMIT_AS or 'uid' in kw:
            fl = 'rel'
        if fl == 'san':
            kw['env'].update({k: v for k, v in san_env(rr.choice([0, 0x78, 0x2d, 0xff])).items() if k.endswith('SAN_OPTIONS')})
            kw['env'].pop('GLIBC_TUNABLES', None)
        what.append(fl)
        prog = (san if fl == 'san' else exe)[c.tool]
        if rr.random() < .3:
            l = os.path.join(d, rr.choice(['a', 'prog name', '-x', 'show_glyphs']))
            shutil.copy(prog, l)
            prog = l
            what.append('program as ' + os.path.basename(l))
        elif 'uid' in kw:
            shutil.copy(prog, os.path.join(d, 'prog'))
            prog = os.path.join(d, 'prog')
        return '; '.join(what), [prog] + argv, kw

    def other_out(argv, i, pre, kw):
        """the run with its standard output on a file, a terminal or a socket"""
        kind = kw['out']
        if kind == 'file':
            with tempfile.TemporaryFile(dir=chk.scratch) as f:
                p = subprocess.run(argv, stdin=i, stdout=f, stderr=subprocess.PIPE, env=kw['env'], cwd=kw['cwd'], preexec_fn=pre, timeout=600)
                f.seek(0)
                return Run(p.returncode, f.read(), p.stderr)
        if kind == 'terminal':
            a, b = os.openpty()
            tty.setraw(b)
        else:
            x, y = socket.socketpair()
            a, b = x.detach(), y.detach()
        got = []

        def drain():
            while 1:
                try:
                    t = os.read(a, 65536)
                except OSError:
                    break
                if not t:
                    break
                got.append(t)
        th = threading.Thread(target=drain)
        try:
            try:
                th.start()
                p = subprocess.run(argv, stdin=i, stdout=b, stderr=subprocess.PIPE, env=kw['env'], cwd=kw['cwd'], preexec_fn=pre, timeout=600)
            finally:
                os.close(b)
            th.join(60)
        finally:
            if not th.is_alive():
                os.close(a)
        return Run(p.returncode, b''.join(got), p.stderr)

    def start(argv, kw):
        def pre():
            resource.setrlimit(resource.RLIMIT_CPU, (60, 65))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if kw.get('lim'):
                resource.setrlimit(kw['lim'][0], (kw['lim'][1],) * 2)
            if kw.get('uid'):
                os.setgid(kw['uid'])
                os.setuid(kw['uid'])
            for f in kw['close'] + ([0] if kw['stdin'] == 'closed' else []):
                os.close(f)
        i = {'null': subprocess.DEVNULL, 'closed': None, 'noise': noise, 'full': full_dev}[kw['stdin']]
        for _ in range(2):
            try:
                if kw['out'] == 'pipe':
                    p = subprocess.run(argv, stdin=i, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=kw['env'], cwd=kw['cwd'], preexec_fn=pre, timeout=600)
                    res = Run(p.returncode, p.stdout, p.stderr)
                else:
                    res = other_out(argv, i, pre, kw)
            except subprocess.TimeoutExpired as e:
                res = Run(-9, b'', b'', True)
            if not (res.timed_out or res.rc in (-24, -9)):
                break
        return res
    noise, full_dev = open('/dev/urandom', 'rb'), open('/dev/full', 'rb')
    jobs = []
    for c, (res,) in zip(cases, full):
        c.res = res
        if res.fault or res.rc:
            chk.violation('failed:' + c.tool, '%s fails on a valid run: %s' % (c.tool, res.fault or res.rc), '%s\n%s' % (c.argv, res.err.decode('latin1')[-2000:]))
            continue
        for k in range(chk.scale(12, 30)):
            jobs.append((c,) + plan(c, len(jobs)))
    r.shuffle(jobs)
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(lambda j: start(j[2], j[3]), jobs))
    for (c, what, argv, kw), x in zip(jobs, rs):
        rp = '%s\nfirst run: %s\nin: %s\n%s\nexit %d\nstderr: %s' % (argv, c.argv, kw['cwd'], what, x.rc, x.err.decode('latin1')[-1500:])
        chk.eval((c.tool, c.argv[0], what), True)
        if tool_fault(chk, c.tool, x, rp):
            continue
        if x.rc:
            chk.violation('failed:' + c.tool, '%s fails (exit %d) in other surroundings: %s' % (c.tool, x.rc, what), rp)
        elif x.out != c.res.out:
            chk.violation('differs:' + c.tool, '%s gives another output in other surroundings: %s' % (c.tool, what),
                          rp + '\nexpected %d bytes: %r\ngot %d bytes: %r' % (len(c.res.out), c.res.out[:1500], len(x.out), x.out[:1500]))
        else:
            chk.count('bytes_compared', len(x.out))
            chk.sample('%s: %s: same %d bytes' % (c.tool, what, len(x.out)))
    # variables of the environment that the tools ask for: their values do not matter
    watched = [c for n, c in enumerate(cases) if c.res.rc == 0]

    def asked(a):
        n, c = a
        log = os.path.join(chk.scratch, 'asked%d' % n)
        x = run([exe[c.tool]] + c.argv, b'', env={'PATH': '/usr/bin:/bin', 'LD_PRELOAD': os.path.join(chk.scratch, 'envwatch.so'), 'WATCH': log})
        return x, open(log).read().split() if os.path.exists(log) else []
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(asked, enumerate(watched)))
    chk.count('runs_with_environment_watched', len(rs))
    more, seen = [], {}
    for c, (x, names) in zip(watched, rs):
        for v in sorted(set(names)):
            if seen.setdefault((c.tool, v), 0) < 12:
                seen[c.tool, v] += 1
                more += [(c, v, w) for w in ('', '0', '1', '2', '7', '64', '200', '255', '1000', '-1', 'yes', 'no', 'debug', 'é', c.argv[-1])]
    chk.count('variables_asked_for', len(seen))

    def with_variable(j):
        c, v, w = j
        return run([exe[c.tool]] + c.argv, b'', env={'PATH': '/usr/bin:/bin', v: w})
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(with_variable, more))
    for (c, v, w), x in zip(more, rs):
        chk.eval((c.tool, c.argv[0], v, w), True)
        if x.rc or x.out != c.res.out:
            chk.violation('variable:' + c.tool, '%s gives another result with %s=%s in the environment' % (c.tool, v, w),
                          '%s=%s %s %s\nexit %d\nexpected %r\ngot %r' % (v, w, c.tool, ' '.join(c.argv), x.rc, c.res.out[:1500], x.out[:1500]))
    # uninitialised data
    small = [c for n, c in enumerate(cases) if os.path.basename(os.path.dirname(c.argv[0])) in ('d0', 'd1', 'd3') or chk.thorough]

    def check(c):
        for _ in range(2):
            x = run(['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=no', exe[c.tool]] + c.argv, b'', cpu=150)
            if not (x.timed_out or x.rc in (-24, -9)):
                break
        return x
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(check, small))
    for c, x in zip(small, rs):
        err = x.err.decode('latin1')
        chk.eval((c.tool, c.argv[0], 'memory checker'), True)
        rp = '%s %s\nexit %d\n%s' % (c.tool, ' '.join(c.argv), x.rc, err[-5000:])
        m = re.search(r'==\d+== (Conditional jump|Use of uninit|Syscall param|Invalid|Mismatched|Source and dest|Process term)[^\n]*', err)
        if m:
            chk.violation('memory:%s:%s' % (c.tool, m.group(1).replace(' ', '_')), '%s: %s' % (c.tool, m.group(0)), rp)
        elif x.timed_out or x.rc in (-24, -9):
            raise HarnessError('memory checker too slow: ' + rp[:300])
        elif x.rc or x.out != c.res.out:
            if b'valgrind' in x.err:
                raise HarnessError(rp[:1000])
            chk.violation('differs:' + c.tool, '%s gives another output under the memory checker' % c.tool, rp)
        else:
            chk.count('runs_with_definedness_tracked')
    chk.need(chk.counts.get('runs_with_definedness_tracked', 0) or chk.violations, 'no run under the memory checker')
    return chk.finish()
