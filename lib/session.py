"""One run of one check: scenarios -> real library -> recorded history -> TLC."""
import concurrent.futures as cf
import json
import os
import sys
import time
import traceback

import vlib
from vlib import Infra, NCPU, Scratch, VERIF

EVID = os.path.join(VERIF, 'evidence')


class Violation(Exception):
    def __init__(self, path):
        self.path = path


def stopped(event):
    """the process ran out of time or was ended"""
    e = json.loads(event)
    return e['op'] == 'hang' or e['op'] == 'crash' and e['st'] == 9


class Session:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.scratch = Scratch()
        self.states = self.transitions = 0
        self.validated = 0          # scenarios accepted
        self.events = 0
        self.families = {}
        self.models = {}
        self.samples = []
        self.corrupt_rejected = 0
        self.violations = []
        self.notes = {}

    # ------------------------------------------------------------- models
    def model(self, module, cfg, label=None, workers=NCPU, heap='6g',
              extra=(), parse=None):
        """Exhaustive TLC run of a model; an invariant violation there is an
        error of the specification, not of the library."""
        t = time.time()
        rc, out = vlib.tlc(module, cfg, self.scratch, 'mc-' + module,
                           heap=heap, extra=['-workers', str(workers)] +
                           list(extra))
        if rc:
            raise Infra('model %s: TLC exit %d\n%s' %
                        (module, rc, out[-3000:]))
        g, d, depth = vlib.tlc_stats(out)
        self.states += d
        self.transitions += g
        self.models[label or module] = dict(states=d, transitions=g,
                                            depth=depth,
                                            wall_s=round(time.time() - t, 1))
        return out

    # ------------------------------------------------------------ replays
    def replay(self, label, driver, module, aspects, scenarios,
               variants=('plain',), shards=None, corrupt=None,
               constants=''):
        """Runs scenarios on the real library and validates the recorded
        histories.  corrupt(events) -> events or None makes one false history
        out of a true one; the specification must reject it."""
        t = time.time()
        scenarios = list(scenarios)
        if not scenarios:
            return
        for variant in variants:
            exe = vlib.build(driver, variant)
            n = shards or min(NCPU, len(scenarios))
            # balance by size: longest first, to the lightest shard
            order = sorted(range(len(scenarios)),
                           key=lambda i: -sum(map(len, scenarios[i])))
            load = [0] * n
            part = [[] for _ in range(n)]
            for i in order:
                k = load.index(min(load))
                part[k].append(i)
                load[k] += sum(map(len, scenarios[i])) + 500
            part = [p for p in part if p]

            def one(k):
                idx = part[k]
                tag = '%s-%s-%d' % (label, variant, k)
                logs, err = vlib.run_driver(exe, [scenarios[i] for i in idx],
                                            self.scratch, tag)
                flat = [e for lg in logs for e in lg]
                ok, m, why = vlib.validate(module, flat, aspects,
                                           self.scratch, tag, constants)
                if ok:
                    cor = None
                    if corrupt and k == 0:
                        for lg in logs:
                            cor = corrupt(lg)
                            if cor:
                                break
                    return None, len(flat), len(idx), logs[0], cor
                pos = 0
                for j, lg in enumerate(logs):
                    if m < pos + len(lg):
                        break
                    pos += len(lg)
                return (idx[j], m - pos, why), m, j, logs[j], None

            with cf.ThreadPoolExecutor(NCPU) as ex:
                res = list(ex.map(one, range(len(part))))
            bad = [r for r in res if r[0]]
            for r in res:
                self.events += r[1]
                self.transitions += r[1]
                self.states += r[1] + 1
                self.validated += r[2]
            for b in bad:
                self.confirm(label, driver, variant, module, aspects,
                             scenarios[b[0][0]], constants)
            # accepted when repeated alone: chance (threads, memory left
            # uninitialised) had a part.  The history was recorded from the
            # library all the same; only a call that was stopped from
            # outside says nothing
            for (i, m, why), _, _, lg, _ in bad:
                if m < len(lg) and stopped(lg[m]):
                    continue
                ok, m, why = vlib.validate(module, lg, aspects, self.scratch,
                                           'again', constants)
                if not ok:
                    self.report(label, driver, variant, module, aspects,
                                scenarios[i], lg, m,
                                'not in every run; ' + why, '')
            if bad:
                raise Infra('%s: a history was rejected once and accepted '
                            'when repeated' % label)
            if len(self.samples) < 3:
                self.samples.append(dict(family=label, history=[
                    e if len(e) < 400 else e[:400] + '...'
                    for e in res[0][3][:6]]))
            if corrupt:
                c = res[0][4]
                if not c:
                    raise Infra('%s: nothing to corrupt' % label)
                ok, m, why = vlib.validate(module, c, aspects, self.scratch,
                                           label + '-corrupt', constants)
                if ok:
                    raise Infra('%s: the specification accepts a corrupted '
                                'history' % label)
                self.corrupt_rejected += 1
        self.families[label] = dict(scenarios=len(scenarios),
                                    builds=list(variants),
                                    wall_s=round(time.time() - t, 1))

    def confirm(self, label, driver, variant, module, aspects, scenario,
                constants=''):
        """Runs one scenario again, alone; a second rejection is a violation."""
        exe = vlib.build(driver, variant)
        logs, err = vlib.run_driver(exe, [scenario], self.scratch, 'confirm')
        ok, m, why = vlib.validate(module, logs[0], aspects, self.scratch,
                                   'confirm', constants)
        if not ok:
            self.report(label, driver, variant, module, aspects, scenario,
                        logs[0], m, why, err)

    def report(self, label, driver, variant, module, aspects, scenario,
               history, m, why, err):
        rej = history[m] if m < len(history) else '(end of history)'
        path = self.save(label, dict(
            property=self.pid, family=label, driver=driver, variant=variant,
            module=module, aspects=sorted(aspects) if aspects is not None
            else None, scenario=scenario, history=history, rejected_at=m,
            rejected_event=rej, why=why, stderr=err[-4000:]))
        sys.stderr.write('rejected (%s): %s\n%s\n' % (label, rej[:1500],
                                                      why[-600:]))
        raise Violation(path)

    def save(self, label, obj):
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, 'replay-%s-%s.json' % (self.pid, label))
        with open(path, 'w') as f:
            json.dump(obj, f, indent=1)
        return path

    # ----------------------------------------------------------- evidence
    def evidence(self, level, technique, extra=None):
        cov = dict(technique=technique, states=self.states,
                   transitions=self.transitions,
                   traces_validated_against_impl=self.validated,
                   events_validated=self.events,
                   corrupted_histories_rejected=self.corrupt_rejected,
                   models=self.models, families=self.families,
                   samples=self.samples, replays=self.violations)
        cov.update(extra or {})
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level=level, coverage=cov, violations=len(self.violations),
                  wall_s=round(time.time() - self.t0, 1))
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def run(pid, fn, level, technique, tier, seed):
    s = Session(pid, tier, seed)
    rc = 0
    try:
        with s.scratch:
            fn(s)
    except Violation as v:
        s.violations.append(v.path)
        print('VIOLATION property=%s replay=%s' % (pid, v.path))
        rc = 1
    except Infra as e:
        print('INFRASTRUCTURE property=%s: %s' % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    s.evidence(level, technique)
    if rc == 0:
        print('OK property=%s scenarios=%d events=%d states=%d wall=%.1fs' %
              (pid, s.validated, s.events, s.states, time.time() - s.t0))
    return rc
