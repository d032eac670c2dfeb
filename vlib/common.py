"""Runner plumbing shared by all checks: outcomes, evidence, replay files."""
import os
import sys
import json
import hashlib
import time
import shutil
import tempfile
import traceback
import warnings

warnings.simplefilter('ignore')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FREESIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')


CURRENT = None


def case(data):
    """record one generated input (bytes or text) of the current check"""
    if CURRENT is not None:
        CURRENT.case(data)


class Ctx(object):
    """one run of the check of one property"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.quick = tier == 'quick'
        self.seed = SEED
        self.t0 = time.time()
        self.violations = []      # replayed on the real code
        self.evaluations = 0
        self.bounded = {}         # what was sampled: name -> count
        self.notes = []
        self.cases, self.samples, self.trivial = set(), [], 8
        self.tmp = tempfile.mkdtemp(prefix='vf_%s_' % pid)
        self.known = load_known(pid)
        self.known_hit = set()

    def path(self, name):
        return os.path.join(self.tmp, name)

    def elapsed(self):
        return time.time() - self.t0

    def case(self, data):
        b = data if isinstance(data, bytes) else repr(data).encode()
        h = hashlib.sha1(b).digest()[:10]
        if len(b) > self.trivial and h not in self.cases:
            self.cases.add(h)
            if len(self.samples) < 3 and len(self.cases) % 7 == 1:
                self.samples.append(b[:600].decode('latin-1'))

    def budget(self, quick, thorough):
        return quick if self.quick else thorough

    def count(self, what, n=1):
        self.evaluations += n
        self.bounded[what] = self.bounded.get(what, 0) + n

    def fail(self, what, input_=None):
        """a violation observed on the real code"""
        for k in self.known:
            if k['match'] in what:
                self.known_hit.add(k['what'])
                return
        self.violations.append((what, input_))
        if len(self.violations) >= 5:
            raise StopCheck()

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


class StopCheck(Exception):
    pass


def load_known(pid):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings']
            if k['property'] == pid and k['status'] == 'open']


def write_replay(pid, obj):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s.json' % pid)
    with open(p, 'w') as f:
        json.dump(obj, f, indent=1, default=repr)
    return p


def import_freesif():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import freesif
    p = os.path.dirname(os.path.abspath(freesif.__file__))
    assert p == os.path.join(REPO, 'freesif'), p
    return freesif
