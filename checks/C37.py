import resource, signal, tempfile
from ppv import *
from tools import *
import models, gen, dbgen, toolcases

MEMORY = 40 << 10        # KB a run may use beyond the one with the true number
WORK = 12 * 10 ** 6      # instructions it may execute beyond
VALUES = [10 ** 6, 3 * 10 ** 7, 10 ** 9, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 64 - 1, 10 ** 30]


SECONDS = 6              # processor time a run of some milliseconds may take


def measure(argv, as_bytes=3 << 30, cpu=20):
    """exit status, peak memory in KB, standard error, processor time"""
    def limits():
        resource.setrlimit(resource.RLIMIT_AS, (as_bytes, as_bytes))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    with tempfile.TemporaryFile() as err:
        p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, preexec_fn=limits, env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C'})
        _, st, ru = os.wait4(p.pid, 0)
        p.returncode = os.waitstatus_to_exitcode(st)
        err.seek(0)
        return p.returncode, ru.ru_maxrss, err.read(), ru.ru_utime + ru.ru_stime


def numbers(b, skip=()):
    """places of the numbers of a text: (begin, end)"""
    return [m.span() for m in re.finditer(rb'(?<![^\s])\d+(?![^\s])', b)]


def main():
    chk = Check('C37', 'every tool on files of which one number (image size, label count, line, table size, feature value, list length, dictionary position, '
                'child count, line flag) is replaced by 10^6 .. 10^30, the file being as long as before; peak memory and instructions are measured; '
                'non-trivial = the number announces more than the file holds')
    exe = tools(*toolcases.NAMES, flavour='rel')
    r = chk.rng
    serial = [0]

    def put(b):
        serial[0] += 1
        p = os.path.join(chk.scratch, 'f%d' % serial[0])
        open(p, 'wb').write(b if isinstance(b, bytes) else b.encode())
        return p

    def glyph_counts(b):
        """the image sizes and label counts of a glyph file, and a line number"""
        ls, at, out = b.split(b'\n'), 0, []
        pos = 0
        i = 0
        while i + 1 < len(ls) and ls[i]:
            w, h = ls[i].split(b' ')[:2]
            out += [('image width', pos, pos + len(w)), ('image height', pos + len(w) + 1, pos + len(w) + 1 + len(h))]
            pos += len(ls[i]) + 1
            out.append(('label count', pos, pos + len(ls[i + 1])))
            n = int(ls[i + 1])
            pos += len(ls[i + 1]) + 1
            for l in ls[i + 2:i + 2 + n]:
                k = l.rindex(b' ') + 1
                out.append(('line number', pos + k, pos + len(l)))
                pos += len(l) + 1
            i += 2 + n
        return out

    def pnm_numbers(b):
        return [('picture size' if k < 2 else 'highest value', m.start(), m.end()) for k, m in enumerate(list(re.finditer(rb'(?<=[\n ])\d+(?=[\n ])', b))[:3 if b[1:2] in b'36' else 2])]

    def pick(l, n):
        kinds = {}
        for x in l:
            kinds.setdefault(x[0], []).append(x)
        return [x for v in kinds.values() for x in r.sample(v, min(n, len(v))) + [v[0], v[-1]]]

    jobs = []            # (tool, argv, kind, value or None, base)

    def case(tool, argv, k, places):
        base = len(jobs)
        jobs.append((tool, argv, 'unchanged', None, None))
        b = open(argv[k], 'rb').read()
        for kind, i, j in places:
            vs = list(VALUES) if chk.thorough else [r.choice(VALUES), 3 * 10 ** 7]
            for v in dict.fromkeys(vs):
                f = put(b[:i] + b'%d' % v + b[j:])
                jobs.append((tool, argv[:k] + [f] + argv[k + 1:], kind, v, base))
    for n in range(chk.scale(2, 20)):
        db = toolcases.distinct(dbgen.synth_db(r, 4) if n % 2 else dbgen.real_db(r, 6))[:6]
        g = dbgen.text(db).encode()
        d = models.datas_text([dbgen.features(q) for q, _ in db]).encode()
        words = sorted({x for _, v in db for x, _ in v})
        w = put(''.join(x + '\n' for x in words) + 'ab\nabc\n')
        t = run([exe['make_trie_dictionary'], w], env=san_env()).out
        l = ''.join('%s 1 2 4 2\n' % x for x in words).encode()
        pg, pd, pt, pl = put(g), put(d), put(t), put(l)
        img = next(i for i in (gen.text_line(r, 60, 14) for _ in range(50)) if len(models.boxes(i)) >= 2)
        pics = [put(pnm_of(img, k, r)) for k in '146']
        pi = pics[n % 3]
        trans = put(' '.join('x' for _ in models.boxes(img)))
        gl = glyph_counts(g)
        case('normalize_glyphs', [pg], 0, pick(gl, 1))
        case('normalize_glyphs', [pg, pg], 1, pick(gl, 0))
        case('write_datas', [pg], 0, pick(gl, 1))
        full = [pg, pd, pi, pl, pt]
        case('ocr2_extract_text', full, 0, pick(gl, 1))
        nums = [('table', i, j) for i, j in numbers(d)]
        # the size, values of every line of the table (every feature), of the last two more: lists
        lines = {}
        for x in nums:
            lines.setdefault(d.count(b'\n', 0, x[1]), []).append(x)
        places = [('table size',) + nums[0][1:]]
        for k, v in lines.items():
            if k:
                places += [('table line %d' % k,) + r.choice(v)[1:]]
        places += [('first list length',) + lines[max(lines)][0][1:], ('last value',) + nums[-1][1:]]
        case('ocr2_extract_text', full, 1, places)
        for p in pics:
            b = pnm_numbers(open(p, 'rb').read())
            case('show_glyphs', [p], 0, b)
            case('write_glyphs', [p, trans, 'f'], 0, b)
        case('ocr2_extract_text', full, 2, pnm_numbers(open(pi, 'rb').read()))
        case('ocr2_extract_text', full, 3, [('line flag', i, j) for i, j in r.sample(numbers(l), min(4, len(numbers(l))))])
        case('ocr2_extract_text', full, 4, [('dictionary', i, j) for i, j in numbers(t)[:4] + r.sample(numbers(t), 4)])

    bad = []

    def cost(j):
        tool, argv, kind, v, base = j
        if len(bad) > 5:                                # enough is known
            return None, None
        for _ in range(2):
            m = measure([exe[tool]] + argv)
            if m[3] < SECONDS:
                break
        if m[3] > SECONDS or m[1] > 1 << 18:            # no point in counting
            bad.append(j)
            return m, None
        for _ in range(2):
            x = run(['valgrind', '--tool=callgrind', '--callgrind-out-file=/dev/null', exe[tool]] + argv, b'', cpu=60, as_bytes=7 << 29)
            if not (x.timed_out or x.rc in (-24, -9)):
                break
        c = re.search(rb'Collected : (\d+)', x.err)
        if c and int(c.group(1)) > 200 * 10 ** 6:
            bad.append(j)
        return m, int(c.group(1)) if c else None
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(cost, jobs))
    most_mem = most_work = 0
    for (tool, argv, kind, v, base), (m, c) in zip(jobs, rs):
        if m is None:
            continue
        text = ''
        if v is not None:
            k = next(i for i, a in enumerate(argv) if a != jobs[base][1][i])
            text = open(argv[k], 'rb').read()[:3000].decode('latin1')
        rp = '%s %s\n%s is %s\nfile:\n%s\nexit %d, peak memory %d KB, instructions %s\n%s' % (tool, ' '.join(argv), kind, v, text, m[0], m[1], c, m[2].decode('latin1')[-800:])
        if v is None:
            if m[0] or c is None:
                raise HarnessError('unchanged run: ' + rp)
            continue
        m0, c0 = rs[base]
        if m0 is None:
            continue
        rp += '\nwith the true number: peak memory %d KB, %d instructions' % (m0[1], c0)
        chk.eval((tool, kind, v, text[:500]), True)
        chk.count('runs_measured')
        chk.count('places_' + re.sub(r' \d+$', '', kind).replace(' ', '_'))
        chk.count('runs_accepted' if not m[0] else 'runs_refused')
        if m[3] > SECONDS:
            chk.violation('time:%s:%s' % (tool, kind), '%s takes %.1f s of processor time twice: %s is %d in a file of %d bytes' % (tool, m[3], kind, v, len(text)), rp)
            continue
        if m[0] < 0 and m[0] != -6:
            chk.violation('crash:' + tool, '%s ends by signal %d: %s is %d' % (tool, -m[0], kind, v), rp)
            continue
        if m[1] - m0[1] > MEMORY:
            chk.violation('memory:%s:%s' % (tool, kind), '%s needs %d MB because %s is %d in a file of %d bytes' % (tool, m[1] >> 10, kind, v, len(text)), rp)
            continue
        if c is None:
            raise HarnessError('instruction counter: ' + rp)
        most_mem, most_work = max(most_mem, m[1] - m0[1]), max(most_work, c - c0)
        if c - c0 > WORK + c0:
            chk.violation('work:%s:%s' % (tool, kind), '%s executes %d instructions instead of %d because %s is %d' % (tool, c, c0, kind, v), rp)
            continue
        chk.sample('%s, %s %d: exit %d, %d KB, %d instructions (unchanged: %d KB, %d)' % (tool, kind, v, m[0], m[1], c, m0[1], c0))
    chk.counts['most_memory_beyond_kb'] = most_mem
    chk.counts['most_instructions_beyond'] = most_work
    chk.need(chk.counts.get('runs_measured', 0) > 200 or chk.violations, 'too few runs measured')
    return chk.finish()
