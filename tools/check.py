#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decides one property on /repo's working tree.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself failed."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import VERIF, ToolError


def known_findings():
    out = {}
    for line in open(VERIF + '/known-findings.txt'):
        if line.startswith('finding: property='):
            head, _, what = line[len('finding: property='):].strip().partition(' ')
            tag, _, what = what.partition(' ')
            out[tag] = (head, what)
    return out


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = os.environ.get('VERIF_SEED', '1')
    t0 = time.time()
    if prop[0] == 'V' and prop != 'V12':
        import vchecks as m
    elif prop == 'V12':
        import panics as m
    elif prop[0] == 'B':
        import bchecks as m
    elif prop[0] == 'O':
        import ochecks as m
    elif prop == 'C03':
        import jchecks as m
    else:
        import cchecks as m
    r = m.check(prop, tier, seed)
    kfs = known_findings()
    for tag in sorted(set(r.get('kf_tags', [])) | ({'V08-padding'} if prop == 'V08' and r['kf'] else set())):
        print('KNOWN-FINDING: property=%s %s' % kfs[tag])
    cov = dict(states=r['states'], transitions=r['transitions'], traces_validated_against_impl=r['traces'], samples=r['samples'])
    cov.update(r.get('notes', {}))
    ev = dict(property=prop, tier=tier, seed=int(seed) if seed.isdigit() else 0, level='model_checking', coverage=cov,
              wall_s=round(time.time() - t0, 1))
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    v = r['violation']
    if v:
        os.makedirs(VERIF + '/replay', exist_ok=True)
        path = '%s/replay/%s-%s.json' % (VERIF, prop, tier)
        json.dump(v, open(path, 'w'), indent=1)
        print('%s' % str(v.get('why'))[:600])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1)
    print('%s %s: %s, %d traces, %d states, %.0f s' % (prop, tier, 'violated' if v else 'held', r['traces'], r['states'], time.time() - t0))
    return 1 if v else 0


if __name__ == '__main__':
    try:
        rc = main()
    except ToolError as e:
        print('ERROR: %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        common.cleanup()
    sys.exit(rc)
