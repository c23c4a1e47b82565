#!/usr/bin/env python3
"""check.py <property>: decides one property of the library from its current source."""
import os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner
from runner import *
import props, structural


def engine_check(pid, work, res):
    runs, kinds, need, assumptions, method = props.ENGINE[pid]
    fns, lines = set(), set()
    counts = {}
    t0, total = time.time(), 3400 if runner.TIER == 'thorough' else 820

    def use(opts, d):
        nonlocal fns, lines
        tag = opts.get('fn', '?')
        if d['incomplete']:
            res.incomplete.append('%s: %s' % (tag, d['incomplete']))
        for v in d['violations']:
            v['entry'] = tag
            if v['kind'] in kinds:
                res.violations.append(v)
            else:
                res.notes.append('belongs to another property: %s [%s] %s' % (v['where'], v['kind'], v['msg']))
        for k, (a, b) in d['obligations'].items():
            if k in kinds:
                res.add(k, a, b)
        for k, n in d['counts'].items():
            counts[k] = counts.get(k, 0) + n
        fns |= set(d['functions'])
        lines |= set(d['lines'])

    def left():
        return max(60, int(total - (time.time() - t0)))

    # the entries of the tables, which aren't the nearest ones, are looked at in any case
    if pid in props.DIRECTED and runner.TIER == 'quick':
        for table, kind in props.DIRECTED[pid]:
            d = work.analyse(*table, limit=120)
            ks = sorted({int(k) for v in d['violations'] for k in re.findall(r'10\^(-?\d+)', v['msg'])})
            res.coverage['directed'] = res.coverage.get('directed', []) + ks
            runs = [(m, src, dict(o, at=k)) for k in ks[:4] for m, src, o in [kind]] + runs
    runs = [(m, src, dict(o, kinds=','.join(sorted(kinds)))) for m, src, o in runs]
    # runs of a single process are done side by side
    alone = [r for r in runs if r[2].get('j') != 1 or r[0] != 'parse']
    beside = [r for r in runs if r not in alone]
    for mode, src, opts in alone:
        use(opts, work.analyse(mode, src, opts, limit=left()))
        if res.violations and runner.TIER == 'quick':
            break
    else:
        if beside:
            stop = lambda d: runner.TIER == 'quick' and any(v['kind'] in kinds for v in d['violations'])
            for (mode, src, opts), d in zip(beside, work.analyse_all(beside, left(), stop)):
                if d is not None:
                    use(opts, d)
    ours = [f for f in fns if 'floaxie::' in f]
    if not res.violations:
        for k in need:
            if not res.obligations.get(k, [0])[0]:
                res.incomplete.append('no instance of the rule "%s"' % k)
        if len(ours) < 1:
            res.incomplete.append('entry points do not reach the library')
    res.coverage.update({'analysed': counts, 'library_functions': len(ours), 'functions': len(fns), 'source_lines': len(lines),
                         'function_names': sorted(x.split('(')[0][-90:] for x in ours)[:60]})
    return assumptions, method


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2] == 'thorough':
        runner.TIER = 'thorough'
    t0 = time.time()
    work = Work(pid)
    res = Result()
    try:
        check_repo()
        assumptions, method, level = [], [], 'proof'
        if pid in props.ENGINE:
            a, m = engine_check(pid, work, res)
            assumptions += a
            method.append(m)
        if pid in structural.RULES and not (res.violations and runner.TIER == 'quick'):
            if pid not in props.ENGINE:
                level = 'other'
            a, m = structural.RULES[pid](work, res)
            assumptions += a
            method.append(m)
        if not method:
            raise Broken('unknown property ' + pid)
        return finish(pid, work, res, level, assumptions, props.BASE, t0, '; '.join(method))
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s: internal error' % pid)
        return 3
    finally:
        work.close()


sys.exit(main())
