"""Driver of all checks:  check.py PROPERTY [quick|thorough]

exit 0: held on everything explored (listed known findings are printed)
exit 1: VIOLATION property=<id> replay=<path>
exit 2: the check itself could not be carried out"""
import importlib, json, os, sys, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import run

FAMILY = {'S': 'fam_s', 'P': 'fam_p', 'G': 'fam_g', 'W': 'fam_w', 'M': 'fam_m'}


class Report(object):
    """what one run found and covered"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.viol = []       # (text, replay record)
        self.known = []
        self.cov = {}
        self.level = 'model_checking'
        self.assumptions = []
        self.findings = findings(pid)

    def quick(self):
        return self.tier == 'quick'

    def violation(self, text, rec, key=None):
        """key: identifies the failing input; listed in the known findings or not"""
        if key is not None and key in self.findings:
            if key not in [k for k, _ in self.known]:
                self.known.append((key, self.findings[key]))
            return
        self.viol.append((text, rec))

    def is_known(self, key):
        return key in self.findings


def findings(pid):
    """lines  known: property=<id> key=<key> <what fails>"""
    res = {}
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        w = l.split(None, 3)
        if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + pid and w[2].startswith('key='):
            res[w[2][4:]] = w[3].strip()
    return res


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    rep = Report(pid, tier, seed)
    try:
        bdir = run._build.build()
        importlib.import_module(FAMILY[pid[0]]).check(rep, bdir)
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.cleanup()
    ev = dict(property=pid, tier=tier, seed=seed, level=rep.level, coverage=rep.cov, assumptions=rep.assumptions,
              wall_s=round(time.time() - t0, 1), violations=len(rep.viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, t in rep.known:
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, t, k))
    for k, v in rep.cov.items():
        if isinstance(v, (int, float)):
            print('%s: %s' % (k, v))
    if not rep.viol:
        print('OK property=%s tier=%s seed=%d (%.1f s)' % (pid, tier, seed, time.time() - t0))
        return 0
    rdir = os.path.join(VERIF, '.work')
    os.makedirs(rdir, exist_ok=True)
    for k, (text, rec) in enumerate(rep.viol[:5]):
        p = os.path.join(rdir, 'replay-%s-%d.json' % (pid, k))
        with open(p, 'w') as f:
            json.dump(dict(property=pid, what=text, **rec), f)
        print(text)
        print('VIOLATION property=%s replay=%s' % (pid, p))
    return 1


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
