"""Command line:  check PROP [--tier quick|thorough] [--seconds S] [--runs N]  |  replay FILE  |  run PROP INDEX  |
digests PROP N [--out FILE]  |  selftest"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != here]


def main(argv):
    import argparse
    ap = argparse.ArgumentParser(prog='dst')
    sub = ap.add_subparsers(dest='cmd', required=True)
    c = sub.add_parser('check')
    c.add_argument('prop')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=('quick', 'thorough'))
    c.add_argument('--seconds', type=float)
    c.add_argument('--runs', type=int)
    c.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
    r = sub.add_parser('replay')
    r.add_argument('file')
    r.add_argument('--quiet', action='store_true')
    o = sub.add_parser('run')
    o.add_argument('prop')
    o.add_argument('index', type=int)
    o.add_argument('--tier', default='quick')
    o.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
    d = sub.add_parser('digests')
    d.add_argument('prop')
    d.add_argument('n', type=int)
    d.add_argument('--tier', default='quick')
    d.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
    d.add_argument('--out')
    sub.add_parser('setup')
    s = sub.add_parser('selftest')
    s.add_argument('props', nargs='*')
    s.add_argument('--n', type=int, default=8)
    a = ap.parse_args(argv)
    from dst import boot
    boot.reexec()
    from dst import runner
    if a.cmd == 'setup':
        boot.boot()
        print('ready: code under test imported from %s' % boot.REPO)
        return 0
    if a.cmd == 'check':
        return runner.check(a.prop, a.tier, a.seed, a.seconds, a.runs)
    if a.cmd == 'replay':
        return runner.replay(a.file, not a.quiet)
    if a.cmd == 'digests':
        return runner.determinism(a.prop, a.tier, a.seed, a.n, a.out)
    if a.cmd == 'run':
        import json
        mod = runner.load(a.prop)
        boot.boot()
        if hasattr(mod, 'warm'):
            mod.warm()
        scn = runner.normal(runner.scenario(mod, a.seed, a.index, a.tier))
        print(json.dumps(scn))
        kind, res = runner.execute(mod, scn)
        print(kind)
        if kind == 'ok':
            for line in res['trace']:
                print('  ' + line)
            print(res['verdict'], res['kind'], res['message'])
            print(res['stats'])
        else:
            print(res)
        return 0
    from dst import selftest
    return selftest.main(a.props, a.n)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
