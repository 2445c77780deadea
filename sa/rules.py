"""Obligation bookkeeping: deciding, refuting, reporting and evidence for one property."""
from __future__ import annotations

import json
import os
import time
import traceback

from . import terms as tm
from . import witness as wit
from .terms import T, Term, TRUE, FALSE, c_and, c_or, c_not
from .values import *
from .world import world, World, PKG

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, msg, witness=None, where=None):
        super().__init__(msg)
        self.msg, self.witness, self.where = msg, witness, where


class Undecided(Exception):
    pass


class Broken(Exception):
    """the analysis lost its anchors: neither held nor violated"""


class Check:
    def __init__(self, pid, repo, tier='quick', seed=1):
        self.pid, self.repo, self.tier, self.seed = pid, repo, tier, seed
        wit.SEED = seed
        self.thorough = tier == 'thorough'
        self.results = []         # dict(key, rule, where, status, msg, atoms)
        self.atoms = 0
        self.t0 = time.time()
        self.cov_funcs = {}
        self.cov_calls = set()
        self.w = None
        self.samples = []
        self.scenarios = 0
        self.cfgs = set()
        self.pin = TRUE            # case of a data-dependent gate met while reading results

    # ------------------------------------------------------------------ scenarios
    def world(self, jax=True, keep=False):
        w = world(self.repo, jax)
        if not keep:
            tm.fresh_order()
        w.fresh()
        self.w = w
        if self.pin is not TRUE:
            w.assume(self.pin)
        self.cfgs.add('jax' if jax else 'nojax')
        return w

    def ob(self, key, rule, thunk, anchor=None):
        """one obligation; thunk returns normally when it is discharged"""
        self.scenarios += 1
        n0 = self.atoms
        r = {'key': key, 'rule': rule, 'anchor': anchor}
        before = dict(self.w.it.cov_funcs) if self.w else {}
        t1 = time.time()
        left = self.BUDGET - (t1 - self.t0)
        tm.DEADLINE[0] = t1 + max(0.5, min(self.PER * (3 if self.thorough else 1), left))
        try:
            self.cases(thunk)
            r.update(status='discharged')
        except Violation as e:
            r.update(status='violated', msg=e.msg, witness=e.witness, site=e.where)
        except (Undecided, tm.Undecided) as e:
            r.update(status='undecided', msg=str(e))
        except Unsupported as e:
            r.update(status='undecided', msg=f'not modelled: {e.msg} at {e.where or (self.w.it.where() if self.w else "?")}')
        except NeedSplit as e:
            r.update(status='undecided', msg='data-dependent gate at the driver')
        except (RecursionError, MemoryError) as e:
            r.update(status='undecided', msg=type(e).__name__)
        except Broken:
            raise
        except PathDead:
            r.update(status='undecided', msg='the scenario set-up raises on every path: ' + self.last_raise())
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            r.update(status='undecided', msg=f'analyser error {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})')
        self.pin = TRUE
        tm.DEADLINE[0] = None
        r['atoms'] = self.atoms - n0
        r['wall'] = round(time.time() - t1, 3)
        if self.w:
            after = self.w.it.cov_funcs
            touched = [k for k in after if after[k] != before.get(k)]
            r['path'] = touched[-12:]
            for k in touched:
                self.cov_funcs[k] = self.cov_funcs.get(k, 0) + 1
            self.cov_calls |= self.w.it.cov_calls
        self.results.append(r)
        return r['status']

    def cases(self, thunk, depth=0):
        """run thunk; when a result read by the driver depends on a gate, decide each case of the gate on its own"""
        w = self.w
        it = w.it if w else None
        saved = (it.st.fork(), list(it.log), dict(it.hooks), dict(it.spies)) if it else None
        pin = self.pin
        try:
            thunk()
            return
        except NeedSplit as e:
            if depth >= self.CASES or it is None or e.cond.v is None:
                raise
            c = e.cond
        for k in (c, c_not(c)):
            p = c_and(pin, k)
            if p is FALSE or self.infeasible(p):
                continue
            self.w = w
            w.fresh()
            it.st = saved[0].fork()
            it.log[:] = saved[1]
            it.hooks, it.spies = dict(saved[2]), dict(saved[3])
            self.pin = p
            w.assume(p)
            try:
                self.cases(thunk, depth + 1)
            finally:
                self.pin = pin

    def last_raise(self):
        it = self.w.it
        rs = [e for e in it.log if e['kind'] == 'raise']
        if not rs:
            return '?'
        e = rs[-1]
        return f"at {e['where']}"

    # ------------------------------------------------------------------ deciding
    TRIES, CASES = 240, 6
    PER, BUDGET = 60, 600          # seconds per obligation, for the whole run

    def pr(self, assume=TRUE):
        return tm.Prover(assume)

    def fail(self, msg, witness=None, where=None):
        raise Violation(msg, witness, where)

    def _tries(self):
        return self.TRIES * (4 if self.thorough else 1)

    def eq(self, a, b, what, assume=TRUE, where=None):
        """terms a (found) and b (required) denote the same number under assume"""
        assume = c_and(assume, self.pin)
        self.atoms += 1
        a, b = T(a), T(b)
        if a == b:
            return
        why = ''
        try:
            p = tm.Prover(assume)
            if p.equal(a, b):
                return
            if p.counter:
                why = tm.show_lits(p.counter[0])
        except tm.Undecided as e:
            why = str(e)
        w, n = wit.equal(a, b, assume, self._tries())
        if w is None:
            raise Undecided(f'{what}: normal forms differ, no separating valuation in {n} (case {why})')
        self.fail(f'{what}: found {tm.show(a)[:300]} ; required {tm.show(b)[:300]}', wshow(w), where)

    def le(self, a, b, what, assume=TRUE, where=None, strict=False):
        """a <= b under assume"""
        assume = c_and(assume, self.pin)
        self.atoms += 1
        a, b = T(a), T(b)
        why = ''
        try:
            p = tm.Prover(assume)
            if p.le(a, b, strict):
                return
            if p.counter:
                why = tm.show_lits(p.counter[0])
        except tm.Undecided as e:
            why = str(e)
        w, n = wit.above(a, b, assume, self._tries())
        if w is None:
            raise Undecided(f'{what}: bound not entailed, no violating valuation in {n} (case {why})')
        self.fail(f'{what}: {tm.show(a)[:240]} may exceed {tm.show(b)[:160]}', wshow(w), where)

    def true(self, c, what, assume=TRUE, where=None):
        """condition c holds under assume"""
        assume = c_and(assume, self.pin)
        self.atoms += 1
        bad = c_and(assume, c_not(c))
        if bad is FALSE:
            return
        why = ''
        try:
            p = tm.Prover(assume)
            if p.cond_implied(c):
                return
            if p.counter:
                why = tm.show_lits(p.counter[0])
        except tm.Undecided as e:
            why = str(e)
        w, n = wit.cond_true(bad, TRUE, self._tries())
        if w is None:
            raise Undecided(f'{what}: not entailed, no violating valuation in {n} (case {why})')
        self.fail(f'{what} fails when {tm.show_cond(bad)[:300]}', wshow(w), where)

    def iff(self, a, b, what, assume=TRUE, where=None):
        """a <-> b under assume"""
        assume = c_and(assume, self.pin)
        self.atoms += 1
        x = c_and(assume, tm.c_ite(a, c_not(b), b))
        if x is FALSE:
            return
        why = ''
        try:
            p = tm.Prover(assume)
            if p.cond_equal(c_and(assume, a), c_and(assume, b)):
                return
        except tm.Undecided as e:
            why = str(e)
        w, n = wit.cond_true(x, TRUE, self._tries())
        if w is None:
            raise Undecided(f'{what}: conditions differ syntactically, no separating valuation in {n} {why}')
        self.fail(f'{what}: found {tm.show_cond(a)[:260]} ; required {tm.show_cond(b)[:260]}', wshow(w), where)

    def sure(self, ok, msg, where=None):
        """structural requirement (no valuation involved)"""
        self.atoms += 1
        if not ok:
            w = None
            if self.pin is not TRUE:
                w, n = wit.cond_true(self.pin, TRUE, self._tries())
                if w is None:
                    raise Undecided(f'{msg}: case not shown to be reachable')
            self.fail(msg, wshow(w) if w else None, where)

    # ------------------------------------------------------------------ outcomes
    def returns(self, out, what, assume=None):
        """the call returns normally on every valuation satisfying assume (default: its entry condition)"""
        self.atoms += 1
        if not out.raises:
            if out.state is None:
                raise Undecided(f'{what}: no exit reached')
            return out.value
        c = c_and(out.raise_cond(), self.pin)
        if assume is not None:
            c = c_and(c, assume)
        if c is FALSE:
            return out.value
        st, exc, cls = out.raises[0]
        name, msg = out.w.excname(st, exc)
        site = [e['where'] for e in out.events if e['kind'] == 'raise']
        w, n = wit.cond_true(c, TRUE, self._tries())
        if w is None and self.infeasible(c):
            return out.value
        if w is None:
            raise Undecided(f'{what}: may raise {name} {msg} under {tm.show_cond(c)[:200]}')
        self.fail(f'{what}: raises {name}{msg[5:]} when {tm.show_cond(c)[:200]}', wshow(w), site[-1] if site else None)

    def infeasible(self, c):
        try:
            return tm.Prover().cond_equal(c, FALSE)
        except tm.Undecided:
            return False

    def raises(self, out, names, what, when=TRUE):
        """the call raises one of the named exceptions under `when` (no normal return, no other exception)"""
        self.atoms += 1
        when = c_and(when, self.pin)
        site = [e['where'] for e in out.events if e['kind'] == 'raise']
        if out.state is not None:
            c = c_and(out.ok_pc, when)
            if c is not FALSE:
                w, n = wit.cond_true(c, TRUE, self._tries())
                if w is not None:
                    self.fail(f'{what}: accepted (returns normally) instead of raising {"/".join(names)}', wshow(w))
                if not self.infeasible(c):
                    raise Undecided(f'{what}: normal return not excluded')
        for st, exc, cls in out.raises:
            if c_and(st.pc, when) is FALSE:
                continue
            if not any(k.name in names for k in cls.mro):
                name, msg = out.w.excname(st, exc)
                self.fail(f'{what}: raises {name}{msg[5:]} instead of {"/".join(names)}', None, site[-1] if site else None)

    # ------------------------------------------------------------------ access
    def api(self, path):
        o = self.w.get(path)
        if o is None:
            for m, why in self.w.problems:
                if (PKG + '.' + path).startswith(m + '.'):
                    raise Undecided(f'module {m} not analysable: {why}')
            raise Broken(f'public object {path} not found in the source tree')
        return o

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


def wshow(w):
    return {k: (str(v) if getattr(v, 'denominator', 1) == 1 else f'{float(v):.6g}') for k, v in sorted((w or {}).items())}


# ---------------------------------------------------------------------- known findings
def known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:') and f'property={pid} ' in line:
                body = line.split('key=', 1)[1]
                key, _, desc = body.partition(' :: ')
                out[key.strip()] = desc.strip()
    return out


def finish(c, meta, minimum):
    """print the verdict, write the evidence; returns the exit status"""
    kn = known(c.pid)
    by = {'discharged': [], 'violated': [], 'undecided': []}
    for r in c.results:
        by[r['status']].append(r)
    viol = []
    for r in by['violated']:
        if r['key'] in kn:
            print(f'KNOWN-FINDING: property={c.pid} {r["key"]}: {kn[r["key"]]}')
            r['known'] = True
        else:
            viol.append(r)
    total = len(c.results)
    funcs = sorted(k for k in c.cov_funcs if k.startswith(PKG))
    ev = {
        'property': c.pid, 'tier': c.tier, 'seed': c.seed, 'level': meta['level'],
        'coverage': {
            'obligations': total,
            'discharged': len(by['discharged']),
            'checker_cmd': f'python3 check.py {c.pid}',
            'trusted_base': ['CPython ast parser', 'sa/ abstract interpreter and library models (numpy, scipy, jax, pint, pydantic)', 'rational arithmetic'],
            'atomic_facts_decided': c.atoms,
            'undecided': len(by['undecided']),
            'violated': len(by['violated']),
            'functions_analysed': funcs,
            'function_count': len(funcs),
            'call_sites': len([s for s in c.cov_calls]),
            'program_configurations': sorted(c.cfgs),
            'rule': meta['rule'],
            'samples': [{k: r.get(k) for k in ('key', 'rule', 'status', 'atoms', 'path')} for r in c.results[:: max(1, total // 12)]][:14] + c.samples,
            'undecided_list': [{'key': r['key'], 'why': r.get('msg')} for r in by['undecided']][:60],
            'all_obligations': [f"{r['status'][0].upper()} {r['key']}" for r in c.results],
            'explanation': meta.get('explanation', ''),
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(time.time() - c.t0, 3),
        'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{c.pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{c.pid}: {total} obligations ({c.atoms} atomic facts), {len(by["discharged"])} discharged, {len(by["undecided"])} undecided, '
          f'{len(by["violated"])} violated; {len(funcs)} functions analysed; {ev["wall_s"]}s')
    for r in by['undecided'][:12]:
        print(f'UNDECIDED {r["key"]}: {str(r.get("msg"))[:300]}')
    if viol:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f'{c.pid}.txt')
        with open(path, 'w') as f:
            for r in viol:
                f.write(f'property   {c.pid}\nobligation {r["key"]}\nrule       {r["rule"]}\nanchor     {r.get("anchor")}\nconstruct  {r.get("site") or (r.get("path") or ["?"])[-1]}\n'
                        f'call path  {" <- ".join(reversed(r.get("path") or []))}\nviolation  {r["msg"]}\nwitness    {r.get("witness")}\n\n')
        for r in viol[:10]:
            print(f'  {r["key"]}: {r["msg"][:400]}')
            if r.get('site'):
                print(f'    at {r["site"]}')
            if r.get('witness'):
                print(f'    witness {str(r["witness"])[:300]}')
        print(f'VIOLATION property={c.pid} replay={os.path.relpath(path, VERIF)}')
        return 1
    if total < minimum:
        print(f'ANALYSIS-BROKEN property={c.pid}: {total} obligations, at least {minimum} expected')
        return 2
    if not by['discharged'] and not by['violated']:
        print(f'ANALYSIS-BROKEN property={c.pid}: nothing could be decided')
        return 2
    return 0
