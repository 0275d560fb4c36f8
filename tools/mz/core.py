"""Frame of a check: accounting, violations, evidence."""
import json
import os
import sys
import time
import traceback

from . import build, serve, tlc

ROOT = build.ROOT


class Stop(Exception):
    pass


class Check:
    """one run of the check of one property."""

    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.violations = 0
        self.known = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.findings = load_findings(pid)
        self.seen_known = set()

    # ---- accounting
    def add(self, run):
        self.states += run.states
        self.transitions += run.transitions
        return run

    def tlc(self, module, **kw):
        r = self.add(tlc.run(module, **kw))
        self.note(module + (':' + str(kw.get('consts', {}).get('Mode')) if 'Mode' in (kw.get('consts') or {}) else ''), states=r.states, transitions=r.transitions, emitted=len(r.records))
        return r

    def note(self, name, **kw):
        d = self.extra.setdefault('parts', {}).setdefault(name, {})
        for k, v in kw.items():
            d[k] = d.get(k, 0) + v if isinstance(v, (int, float)) else v

    def ok(self, n=1, part=None):
        self.validated += n
        if part:
            self.note(part, validated=n)

    def sample(self, x):
        if len(self.samples) < 8:
            self.samples.append(x if len(str(x)) < 2000 else str(x)[:2000])

    # ---- outcome
    def fail(self, what, key=None, **detail):
        """a violation; key identifies it for the known findings file."""
        for f in self.findings:
            if key is not None and f['key'] == key:
                if key not in self.seen_known:
                    self.seen_known.add(key)
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, f['text']), flush=True)
                return
        self.violations += 1
        d = os.path.join(ROOT, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.pid, self.violations))
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'what': what, 'key': key, **detail}, f, indent=1, default=lambda b: b.decode('utf-8', 'replace') if isinstance(b, bytes) else str(b))
        print('VIOLATION property=%s replay=%s' % (self.pid, path), flush=True)
        print('  ' + what[:600], flush=True)
        for k, v in detail.items():
            print('    %s: %s' % (k, (v.decode('utf-8', 'replace') if isinstance(v, bytes) else str(v))[:1200]), flush=True)
        if self.violations >= 5:
            raise Stop()

    def write_evidence(self):
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.validated, 'samples': self.samples or ['-']}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': self.violations}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        p = os.path.join(ROOT, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)


def load_findings(pid):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2].strip()
                key, text = rest.split(' ', 1)
                out.append({'key': key[4:], 'text': text})
    return out


def main(pid, fn, level='model_checking'):
    c = Check(pid, level)
    try:
        fn(c)
    except Stop:
        pass
    except serve.Crash as e:
        c.violations += 0
        try:
            c.fail('the code under test crashed or hung: %s' % e, request=e.request, status=e.status)
        except Stop:
            pass
    except build.BuildError as e:
        print('ERROR: build: %s' % e, flush=True)
        return 3
    except tlc.TlcError as e:
        print('ERROR: model: %s' % e, flush=True)
        return 4
    except Exception:
        traceback.print_exc()
        return 5
    c.write_evidence()
    print('%s %s: %d violations, %d states, %d transitions, %d validated, %.1f s' % (
        pid, c.tier, c.violations, c.states, c.transitions, c.validated, time.time() - c.t0), flush=True)
    return 1 if c.violations else 0
