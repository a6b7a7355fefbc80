import argparse
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    c = sub.add_parser('check')
    c.add_argument('prop')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    c.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    c.add_argument('--runs', type=int)
    c.add_argument('--workers', type=int)
    c.add_argument('--cap', type=float)
    r = sub.add_parser('replay')
    r.add_argument('file')
    d = sub.add_parser('digests')
    d.add_argument('prop')
    d.add_argument('--tier', default='quick')
    d.add_argument('--seed', type=int, default=1)
    d.add_argument('--runs', type=int, default=400)
    d.add_argument('--workers', type=int, default=8)
    a = sub.add_parser('show')
    a.add_argument('prop')
    a.add_argument('idx', type=int)
    a.add_argument('--seed', type=int, default=1)
    a.add_argument('--tier', default='quick')
    args = ap.parse_args()
    from . import core
    if args.cmd == 'check':
        if args.tier not in ('quick', 'thorough'):
            args.tier = 'quick'
        try:
            rc = core.check(args.prop, args.tier, args.seed, args.workers, args.runs, args.cap)
        finally:
            core.drop_scratch()
        sys.exit(rc)
    if args.cmd == 'replay':
        try:
            info, v = core.replay_file(args.file)
        finally:
            core.drop_scratch()
        if v:
            print('%s\n%s' % (v['kind'], v['detail']))
            print('VIOLATION property=%s replay=%s' % (info['property'], args.file))
            same = v == info.get('violation')
            print('identical to the recorded violation: %s' % same)
            sys.exit(1)
        print('property=%s held on this replay' % info['property'])
        sys.exit(0)
    if args.cmd == 'digests':
        dg, errors, stuck, viols = core.digests(args.prop, args.tier, args.seed, args.runs, args.workers)
        for i, h in dg:
            print(i, h)
        for e in errors:
            print('ERROR', e)
        for s in stuck:
            print('STUCK', s)
        for s in viols:
            print('VIOL', s)
        sys.exit(0)
    if args.cmd == 'show':
        import json
        from . import world
        mod = core.module(args.prop)
        world.install()
        plan = mod.gen(core.rng_for(args.seed, args.prop, args.idx), args.tier)
        print(json.dumps(plan, indent=1))
        res = core.execute(mod, plan)
        print(res.viol, res.faults, res.probes, res.simtime, res.nontrivial)
        for ln in res.log:
            print(ln)
        core.drop_scratch()


if __name__ == '__main__':
    main()
