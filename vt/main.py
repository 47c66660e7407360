"""Runs one check: main.py ID quick|thorough | --replay FILE. See DESIGN.md."""
import gc
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
TREE = os.path.abspath(os.environ['VERIF_TREE'])
sys.path.insert(0, TREE)
sys.path.insert(0, VERIF)
warnings.simplefilter('ignore')

import numpy as N
N.seterr(all='ignore')
from vt import pbt
from vt.pbt import Draw, Violation, Reject, case_rng, shrink, short_hash

CASE_LIMIT = 120      # s; a case takes milliseconds
WALL_CAP = {'quick': 500., 'thorough': 3000.}


class Hang(Exception):
    pass


def on_alarm(sig, frame):
    raise Hang()


def blame(tb):
    """'code' if the innermost frame that is ours or the code's is the code's, else 'harness'."""
    where = 'harness'
    for fs in traceback.extract_tb(tb):
        if fs.filename.startswith('<'):
            continue
        f = os.path.abspath(fs.filename)
        if f.startswith(TREE + os.sep):
            where = 'code'
        elif f.startswith(VERIF + os.sep):
            where = 'harness'
    return where


class HarnessError(Exception):
    pass


def run_case(sub, draw):
    """None if it held (or was rejected: 'reject'), else the message."""
    N.random.seed(12345)
    signal.alarm(CASE_LIMIT)
    try:
        sub.fn(draw)
        return None
    except Reject:
        return 'reject'
    except Violation as e:
        return 'V: ' + str(e)
    except Hang:
        return 'V: the case did not finish in %d s' % CASE_LIMIT
    except Exception as e:
        if blame(sys.exc_info()[2]) == 'code':
            last = [fs for fs in traceback.extract_tb(sys.exc_info()[2])
                    if os.path.abspath(fs.filename).startswith(TREE)][-1]
            return 'V: %s: %s raised at %s:%d (%s)' % (type(e).__name__, e, os.path.relpath(last.filename, TREE),
                                                      last.lineno, last.name)
        if os.environ.get('VERIF_DEV'):
            raise HarnessError(traceback.format_exc())
        # what the code returned or offers is not what its interface says (the harness runs clean on the sound tree)
        last = traceback.extract_tb(sys.exc_info()[2])[-1]
        return 'V: %s: %s, when using what the code gave, at %s:%d' % (type(e).__name__, e, os.path.basename(last.filename), last.lineno)
    finally:
        signal.alarm(0)


def render(v, depth=0):
    if isinstance(v, N.ndarray):
        return render(v.tolist(), depth)
    if isinstance(v, (N.floating, N.integer, N.bool_)):
        return v.item()
    if isinstance(v, dict):
        return dict((str(k), render(x, depth + 1)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        out = [render(x, depth + 1) for x in v[:40]]
        if len(v) > 40:
            out.append('... %d in all' % len(v))
        return out
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)


def notes(draw):
    return dict((k, render(v)) for k, v in draw.notes)


COLLECT_ABOVE = [400 << 20]


def spare_memory():
    """PyPy's collector does not see how large the arrays are; collect when the process has become large."""
    try:
        with open('/proc/self/statm') as f:
            rss = int(f.read().split()[1]) * 4096
    except (IOError, ValueError, IndexError):
        return
    if rss > COLLECT_ABOVE[0]:
        gc.collect()
        with open('/proc/self/statm') as f:
            rss = int(f.read().split()[1]) * 4096
        COLLECT_ABOVE[0] = max(400 << 20, rss + (200 << 20))


def worker(conn, mod, subs, tier, seed, w, nw, t_end, stop):
    try:
        signal.signal(signal.SIGALRM, on_alarm)
        out = {'subs': {}, 'fail': None, 'error': None, 'capped': False}
        for sub in subs:
            st = out['subs'][sub.name] = {'evaluations': 0, 'rejected': 0, 'events': {}, 'nontrivial': set(),
                                          'sample': None}
            n = sub.count(tier)
            for i in range(w, n, nw):
                if stop.is_set():
                    break
                if time.time() > t_end:
                    out['capped'] = True
                    break
                d = Draw(rng=case_rng(seed, mod.ID, sub.name, i))
                r = run_case(sub, d)
                if r == 'reject':
                    st['rejected'] += 1
                    continue
                st['evaluations'] += 1
                spare_memory()
                for k, v in d.events.items():
                    st['events'][k] = st['events'].get(k, 0) + v
                if d.is_nontrivial:
                    st['nontrivial'].add(short_hash(d.choices))
                    if st['sample'] is None and d.notes:
                        st['sample'] = (i, json.dumps(notes(d))[:1500])
                if r is not None:
                    out['fail'] = (sub.name, i, d.choices, r)
                    stop.set()
                    break
            if stop.is_set():
                break
        conn.send(out)
    except BaseException:
        conn.send({'subs': {}, 'fail': None, 'error': traceback.format_exc(), 'capped': False})
    conn.close()


def known_slugs(pid):
    out = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            if line.startswith('KNOWN-FINDING: property=%s ' % pid):
                rest = line[len('KNOWN-FINDING: property=%s ' % pid):].strip()
                slug, text = rest.split(' ', 1)
                out[slug.strip('[]')] = text
    return out


def main():
    pid, mode = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import tracer
    assert os.path.abspath(tracer.__file__).startswith(TREE + os.sep), tracer.__file__
    mod = importlib.import_module('checks.' + pid.lower())
    subs = mod.SUBS
    byname = dict((s.name, s) for s in subs)
    signal.signal(signal.SIGALRM, on_alarm)
    mod.KNOWN = known_slugs(pid)
    from vt import common
    common.KNOWN.update(mod.KNOWN)

    if mode == '--replay':
        rec = json.load(open(sys.argv[3]))
        d = Draw(prefix=rec['choices'], verbose=True)
        r = run_case(byname[rec['sub']], d)
        print(json.dumps(notes(d), indent=1))
        if r is None or r == 'reject':
            print('the case holds')
            return 0
        print(r[3:])
        print('VIOLATION property=%s replay=%s' % (pid, sys.argv[3]))
        return 1

    tier = 'thorough' if mode == 'thorough' else 'quick'
    only = os.environ.get('VERIF_SUB')
    if only:
        subs = [s for s in subs if s.name in only.split(',')]
    nw = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    stop = multiprocessing.Event()
    procs = []
    for w in range(nw):
        a, b = multiprocessing.Pipe(False)
        p = multiprocessing.Process(target=worker, args=(b, mod, subs, tier, seed, w, nw, t0 + WALL_CAP[tier], stop))
        p.start()
        b.close()
        procs.append((p, a))
    outs = []
    for p, a in procs:
        try:
            outs.append(a.recv())
        except EOFError:
            outs.append({'subs': {}, 'fail': None, 'error': 'worker died', 'capped': False})
        p.join()

    errors = [o['error'] for o in outs if o['error']]
    fails = [o['fail'] for o in outs if o['fail']]
    total = {'evaluations': 0, 'rejected': 0}
    distinct = 0
    per = {}
    samples = []
    for s in subs:
        ev = {}
        nt = set()
        e = rj = 0
        smp = []
        for o in outs:
            st = o['subs'].get(s.name)
            if not st:
                continue
            e += st['evaluations']
            rj += st['rejected']
            nt |= st['nontrivial']
            for k, v in st['events'].items():
                ev[k] = ev.get(k, 0) + v
            if st['sample']:
                smp.append(st['sample'])
        if smp:
            i, txt = min(smp)
            samples.append({'sub': s.name, 'case': i, 'input': txt})
        total['evaluations'] += e
        total['rejected'] += rj
        distinct += len(nt)
        per[s.name] = {'evaluations': e, 'rejected': rj, 'distinct_nontrivial': len(nt), 'events': ev,
                       'rule': s.rule}
    rc = 0
    lines = []
    if fails:
        order = [s.name for s in subs]
        name, i, choices, msg = min(fails, key=lambda f: (order.index(f[0]), f[1]))
        sub = byname[name]

        def again(c):
            d = Draw(prefix=c)
            try:
                r = run_case(sub, d)
            except HarnessError:
                return None
            return d.choices if (r is not None and r != 'reject') else None
        best, runs = shrink(again, choices, max_runs=500, max_s=float(os.environ.get('VERIF_SHRINK', '40')))
        d = Draw(prefix=best, verbose=True)
        r = run_case(sub, d)
        if r is None or r == 'reject':      # not reproducible after shrinking: keep the original
            best = choices
            d = Draw(prefix=best, verbose=True)
            r = run_case(sub, d)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (pid, name.replace(' ', '_'), i))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'sub': name, 'case': i, 'seed': seed, 'message': (r or msg)[3:],
                       'choices': best, 'original_length': len(choices), 'shrink_runs': runs,
                       'input': notes(d)}, f, indent=1)
        lines.append('%s/%s case %d: %s' % (pid, name, i, (r or msg)[3:]))
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    elif errors:
        sys.stderr.write(errors[0] + '\n')
        rc = 2

    known_printed = []
    if rc != 2:
        for slug, probe in sorted(getattr(mod, 'PROBES', {}).items()):
            if slug in mod.KNOWN:
                try:
                    still = probe()
                except Exception as e:
                    still = True
                if still:
                    lines.append('KNOWN-FINDING: property=%s [%s] %s' % (pid, slug, mod.KNOWN[slug]))
                    known_printed.append(slug)

    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total['evaluations'], 'distinct_nontrivial': distinct, 'rejected': total['rejected'],
            'rule': mod.RULE, 'samples': samples or ['none'], 'sub_checks': per,
            'stopped_early_by_wall_cap': any(o['capped'] for o in outs),
            'known_findings_seen': known_printed,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 3), 'violations': 1 if rc == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    if os.environ.get('VERIF_STATS'):
        for s in subs:
            print(s.name, json.dumps(dict((k, v) for k, v in per[s.name].items() if k != 'rule')))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d rejected, %.1f s, rc=%d' % (
        pid, tier, seed, total['evaluations'], distinct, total['rejected'], time.time() - t0, rc))
    return rc


if __name__ == '__main__':
    sys.exit(main())
