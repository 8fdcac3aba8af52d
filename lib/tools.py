"""Running the command line tools and telling orderly exits from faults."""
import os
from concurrent.futures import ThreadPoolExecutor
import models
from pnm import color_for_gray
from ppv import run, san_env, build, tool_target, NCPU, fault_key, HarnessError


def tools(*names, flavour='san'):
    t = {}
    for n in names:
        t.update(tool_target(n))
    return build(t, flavour)


def orderly_fault(r):
    """An uncaught exception ends the tool with SIGABRT: for the caller a visible failure, not a fault."""
    if r.fault == 'signal 6' and b'terminate called after throwing' in r.err:
        return None
    return r.fault


def run_many(cmds, cpu=60, fills=(None,), env=None):
    """cmds: [(argv, stdin or b'', cwd)]. -> [[Run per fill]] in order, retried once on a watchdog stop."""
    hung = []

    def one(job):
        (argv, stdin, cwd), fill = job
        for k in range(2):
            few = len(hung) > 2             # the others need not take as long to show it
            r = run(argv, stdin, cpu=min(cpu, 8) if few else cpu, env=san_env(fill, extra=env), cwd=cwd)
            if not (r.timed_out or r.rc in (-24, -9)):
                break
            if few:
                break
        else:
            hung.append(1)
        return r
    jobs = [(c, f) for c in cmds for f in fills]
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(one, jobs))
    n = len(fills)
    return [rs[i * n:(i + 1) * n] for i in range(len(cmds))]


def tool_fault(chk, name, r, replay):
    """Reports memory and undefined-behaviour faults of a tool run; True when there was one."""
    f = orderly_fault(r)
    if f:
        if r.timed_out:
            raise HarnessError('%s: watchdog twice: %s' % (name, replay[:300]))
        chk.violation('fault:' + fault_key(f, r.err.decode('latin1')), '%s: %s' % (name, f),
                      replay + '\n\n' + r.err.decode('latin1')[-4000:])
        return True
    return False


def pnm_of(img, kind='4', r=None, lum=128):
    """an image file of the picture (a set bit of a P4 and a light pixel of a P6 read as: P4 set = background,
    P6 light = letter)"""
    w, h, s = img
    if kind == '4':
        rb = (w + 7) // 8
        out = bytearray(rb * h)
        for y in range(h):
            for x in range(w):
                if s[y * w + x] == '-':
                    out[y * rb + x // 8] |= 128 >> (x % 8)
        return b'P4\n%d %d\n' % (w, h) + bytes(out)
    if kind == '1':
        return b'P1\n%d %d\n' % (w, h) + s.replace('x', '1').replace('-', '0').encode() + b'\n'
    if r is not None and r.random() < .5:       # colours next to the threshold
        cs = [bytes(color_for_gray(r, lum + d)) for d in (-1, 0)]
        if [models.p6_gray(*c) for c in cs] == [lum - 1, lum]:
            return b'P6\n%d %d\n255\n' % (w, h) + b''.join(cs[c == 'x'] for c in s)
    lo, hi = (20, 220) if r is None else (r.randrange(0, 90), r.randrange(175, 256))
    if not lo < lum <= hi:
        gray = lambda v: models.p6_gray(v, v, v)
        lo = max(v for v in range(256) if gray(v) < lum)
        hi = min(v for v in range(256) if gray(v) >= lum)
    return b'P6\n%d %d\n255\n' % (w, h) + b''.join(bytes([hi] * 3) if c == 'x' else bytes([lo] * 3) for c in s)


WORDS = ['a', 'b', 'é', 'ж', '€', '!', 'ab', '/\\', 'rn', 'W', 'ё', '0', "'", '"', '#', '-', 'Щ', 'л', 'œ', '𝄞', 'il1', 'x' * 9, '.', '1', '7 '.strip()]
FONTS = ['f', 'Arial', 'dejavu_11', 'Trebuchet.b', 'é', '0', '-l', '12']


def glyph_text(img, views):
    return '%d %d %s\n%d\n' % (*img, len(views)) + ''.join('%s %s %d\n' % v for v in views)
