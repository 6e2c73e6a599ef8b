"""Spoils the transition functions of the specification, one at a time, and checks that the independent statements
of the properties (props.qnt) or the inductive models notice it: the audits say something.

usage: specmutants.py [name...]
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L, R, C, N, B, S = 'ledger', 'registry', 'converter', 'network', 'base', 'system'
# (name, property whose behaviours are simulated, module, old, new)
M = [
    ('self-transfer', 'C01', L, 'k.bal.bump(from, -v).bump(dst, v)', 'k.bal.put(dst, at(k.bal, dst) + v).put(from, at(k.bal, from) - v)'),
    ('overdraw', 'C01', L, 'else if (at(k.bal, from) < v) bad("short")', 'else if (at(k.bal, from) + 1 < v) bad("short")'),
    ('silent-recipient', 'C02', L, '    else bad("nohandler")', '    else good(w)'),
    ('refusal-ignored', 'C02', L, 'if (w.box == "refuse") bad("refused")\n      else {\n        val r = emit(good(w), {',
     'if (w.box == "refuse") good(w)\n      else {\n        val r = emit(good(w), {'),
    ('mint-by-nominee', 'C03', L, 'else if (sender != ownerOf(w, t)) bad("notowner")\n    else if (not(validAddr(dst)))',
     'else if (sender != ownerOf(w, t) and sender != nomineeOf(w, t)) bad("notowner")\n    else if (not(validAddr(dst)))'),
    ('burn-anybody', 'C03', L, 'else if (sender != from and sender != ownerOf(w, t)) bad("notholder")', 'else if (sender == "") bad("notholder")'),
    ('frozen-moves', 'C04', L, 'if (k.kind == "flex" and not(k.open)) bad("frozen")', 'if (k.kind == "flex" and not(k.open) and v > 1) bad("frozen")'),
    ('withdraw-keeps', 'C05', L, 'else sendIcx(burn(w, t, sender, v), t, dst, v)', 'else sendIcx(burn(w, t, sender, v - 1), t, dst, v)'),
    ('deposit-double', 'C05', L, 'good(mint(w, t, from, v))', 'good(mint(w, t, from, v + 1))'),
    ('own-nominee', 'C06', B, 'else if (new == ownerOf(w, a)) bad("isowner")\n    else good', 'else good'),
    ('nomination-stays', 'C06', B, 'good(withOwner(w, a, sender, ZERO))', 'good(withOwner(w, a, sender, ownerOf(w, a)))'),
    ('manager-any', 'C07', C, 'if (sender != v.nmgr) bad("notnominee")', 'if (sender != v.nmgr and sender != v.owner) bad("notnominee")'),
    ('manager-adds', 'C08', C, '    if (sender != v.owner) bad("notowner")\n    else if (not(activeKnown(w, c))) bad("notoken")',
     '    if (not(isOwnerOrManager(w, c, sender))) bad("notowner")\n    else if (not(activeKnown(w, c))) bad("notoken")'),
    ('register-account', 'C09', R, 'else if (not(isContract(a))) bad("notcontract")', 'else if (a == "eve") bad("notcontract")'),
    ('follow-locked', 'C10', C, 'if (not(v.allow) and sender != v.owner) bad("locked")', 'if (not(v.allow) and sender == "ali") bad("locked")'),
    ('restore-open', 'C10', C, 'reg: v.preg, allow: false', 'reg: v.preg, allow: v.allow'),
    ('overweight', 'C11', C, 'else if (v.total + weight > PPM) bad("overweight")', 'else if (v.total + weight > PPM + 1) bad("overweight")'),
    ('total-forgotten', 'C11', C, 'val total = v.total - k.w + weight', 'val total = v.total + weight'),
    ('add-active', 'C11', C, 'else if (active(w, c)) bad("active")\n    else if (not(validAddr(t)))', 'else if (not(validAddr(t)))'),
    ('fee-beyond', 'C12', C, 'else if (fee < 0 or fee > v.maxFee) bad("badfee")', 'else if (fee < 0 or fee > v.maxFee + 1) bad("badfee")'),
    ('fee-once', 'C12', C, 'else gross * (PPM - fee)^2 / (PPM * PPM)', 'else gross * (PPM - fee) / PPM'),
    ('off-converts', 'C13', C, 'if (not(v.on)) bad("off")', 'if (not(v.on) and min > 1) bad("off")'),
    ('no-purchases', 'C13', C, '        else if (not(v.cn.get(dst).buy)) noQuote("nobuy")', '        else if (not(v.cn.get(src).buy)) noQuote("nobuy")'),
    ('inactive-converts', 'C14', C, 'else if (not(active(w, c))) noQuote("inactive")', 'else if (not(activeKnown(w, c))) noQuote("inactive")'),
    ('anybody-deposits', 'C15', C, 'if (w.rg.get(k.reg).net != from) bad("notnetwork")', 'if (w.rg.get(k.reg).net != from and d.k != "none") bad("notnetwork")\n    else if (d.k == "none") good(w)'),
    ('unburnt', 'C16', C, 'destroy(bumpVirtual(w, c, dst, -q.net), src, c, c, amt)', 'destroy(bumpVirtual(w, c, dst, -q.net), src, c, c, max2(amt - 1, 1))'),
    ('virtual-forgotten', 'C17', C, 'issue(bumpVirtual(w, c, src, amt), dst, c, trader, q.net)', 'issue(w, dst, c, trader, q.net)'),
    ('priced-after', 'C18', C, 'val b = connBalance(w, c, src) - (if (v.cn.get(src).virt) 0 else received)', 'val b = connBalance(w, c, src)'),
    ('path-quote-gross', 'C19', N, 'path[2 * k], path[2 * k + 2], s.net, 0)', 'path[2 * k], path[2 * k + 2], s.gross, 0)'),
    ('minimum-forgotten', 'C20', N, 'else if (walk.amt < min)', 'else if (walk.amt < 0)'),
    ('even-path', 'C21', N, 'j > i).forall(j => path[i] != path[j])', 'j > i + 2).forall(j => path[i] != path[j])'),
    ('network-keeps', 'C22', N, 'amt: if (r.ok) balOf(r.w, dst, n) - before else 0 }', 'amt: if (r.ok) max2(balOf(r.w, dst, n) - before - 1, 0) else 0 }'),
    ('network-all', 'C22', N, 'amt: if (r.ok) balOf(r.w, dst, n) - before else 0 }', 'amt: if (r.ok) balOf(r.w, dst, n) else 0 }'),
    ('icx-unregistered', 'C23', N, 'if (w1.nt.get(n).icxt.contains(path[last])) icxWithdrawTo', 'if (isIcxTok(w1, path[last])) icxWithdrawTo'),
    ('to-sender', 'C24', N, 'd.path, v, d.min, if (d.ben == NONE) from else d.ben', 'd.path, v, d.min, from'),
    ('unannounced', 'C28', C, 'i.emit(conversion).emit(priceEv(i.w, c, src))', 'i.emit(conversion)'),
    ('no-transfer-event', 'C28', L, '           .emit(transferEv(t, from, t, v, NODATA))', ''),
    ('withdraw-connector', 'C29', C, 'else if (has(w.cv, h) and active(w, h) and isConn(w.cv.get(h), t)) bad("active")', ''),
    ('withdraw-anybody', 'C29', C, 'else if (sender != ownerOf(w, h)) bad("notowner")\n    else if (v <= 0)', 'else if (v <= 0)'),
]
# (name, module, old, new, inductive model, initial states, step)
PROOFS = [
    ('p-mint', L, '{ ...k, supply: k.supply + v, bal', '{ ...k, supply: k.supply, bal', 'custody', 'flexInit', 'flexStep'),
    ('p-overdraw', L, 'else if (at(k.bal, from) < v) bad("short")', 'else if (at(k.bal, from) + 1 < v) bad("short")', 'custody', 'plainInit', 'plainStep'),
    ('p-withdraw', L, 'else sendIcx(burn(w, t, sender, v), t, dst, v)', 'else sendIcx(burn(w, t, sender, v - 1), t, dst, v)', 'custody', 'icxInit', 'icxLeaves'),
    ('p-manager', C, 'if (sender != v.nmgr) bad("notnominee")', 'if (sender != v.nmgr and sender != v.owner) bad("notnominee")', 'control', 'someState', 'management'),
    ('p-restore', C, 'reg: v.preg, allow: false', 'reg: v.preg, allow: v.allow', 'control', 'someState', 'registries'),
    ('p-total', C, 'val total = v.total - k.w + weight', 'val total = v.total + weight', 'control', 'someState', 'connectors'),
]
CODE = '''
import sys, os
sys.path.insert(0, 'harness')
import exchange, itf
from sim import Simulation, SimulatorError, main_module
pid = sys.argv[1]
exchange.CPUS = int(os.environ.get('CPUS', '8'))
legs = exchange.P[pid][0]
os.makedirs('.work/m', exist_ok=True)
open('.work/m/main.qnt', 'w').write(main_module(legs))
sim = Simulation('.work/m/main.qnt', exchange.plan(legs, exchange.P[pid][2], 1, pid + '/0', os.path.abspath('.work/m')))
n = 0
for m in sim:
    n += 1
    broken = itf.load(m['trace'])[-1]['broken']
    os.unlink(m['trace'])
    if broken:
        print('BROKEN', *sorted(broken), 'after', n)
        sim.stop()
        break
'''


def main():
    only = sys.argv[1:]
    bad = 0
    d = tempfile.mkdtemp(prefix='specmut-')
    try:
        for x in ('bin', 'harness', 'spec'):
            shutil.copytree(os.path.join(VERIF, x), os.path.join(d, x))
        for name, *rest in M + PROOFS:
            if only and name not in only:
                continue
            proof = len(rest) == 6
            mod, old, new = rest[:3] if proof else rest[1:4]
            saved = {}
            # network and nested have the same transitions, without and with calls back
            for path in [os.path.join(d, 'spec', x + '.qnt') for x in ((N, 'nested') if mod == N else (mod,))]:
                text = open(path).read()
                if text.count(old) == 1:
                    saved[path] = text
                    open(path, 'w').write(text.replace(old, new))
            if not saved:
                print(f'{name}: the text does not occur once')
                bad += 1
                continue
            try:
                if proof:
                    code = f"import sys; sys.path.insert(0, 'harness'); import proofs; os = proofs.os; os.makedirs('.work', exist_ok=True); " \
                           f"print(proofs.prove('{rest[3]}', '{rest[4]}', '{rest[5]}', 23456, 400)[0])"
                    r = subprocess.run([sys.executable, '-c', code], cwd=d, capture_output=True, text=True)
                    said = r.stdout.strip() or r.stderr[-300:]
                    ok = said == 'refuted'
                else:
                    r = subprocess.run([sys.executable, '-c', CODE, rest[0]], cwd=d, capture_output=True, text=True)
                    said = r.stdout.strip() or r.stderr[-300:]
                    ok = 'BROKEN' in said
                print(f'{name}: {"noticed" if ok else "NOT NOTICED"}: {said[:200]}', flush=True)
                bad += not ok
            finally:
                for path, text in saved.items():
                    open(path, 'w').write(text)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
