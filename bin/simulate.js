#!/usr/bin/env node
/*
 * Runs Quint's own front end and simulator (the one behind `quint run --backend=typescript`) from
 * one process, so that one start-up serves many simulation jobs. Types and effects are checked
 * once by `quint typecheck` (setup_cmd and thorough runs), not here.
 *
 *   node simulate.js main.qnt < jobs      (one JSON object per line)
 *   job: {init, step, inv, steps, samples, seed, out}: writes ITF traces to <out>_<k>.json
 *   job: {eval: [expressions]}: evaluates constant expressions
 * For every trace a line {"trace": file, "status": ...} is printed, for every evaluation a line
 * {"values": [...]}.
 */
const fs = require('fs');
const path = require('path');
const Q = (process.env.QUINT_DIST || '/opt/veriftools/quint/node_modules/@informalsystems/quint/dist/src') + '/';
const P = require(Q + 'parsing/quintParserFrontend');
const { newIdGenerator, zerog } = require(Q + 'idGenerator');
const { fileSourceResolver } = require(Q + 'parsing/sourceResolver');
const { walkExpression } = require(Q + 'ir/IRVisitor');
const { Evaluator } = require(Q + 'runtime/impl/evaluator');
const { newTraceRecorder } = require(Q + 'runtime/trace');
const { newRng } = require(Q + 'rng');
const { toItf } = require(Q + 'itf');

const say = o => fs.writeSync(1, JSON.stringify(o) + '\n');
const die = m => { say({ error: String(m).slice(0, 3000) }); process.exit(3); };

const file = path.resolve(process.argv[2]);
const text = fs.readFileSync(file, 'utf8');
const idGen = newIdGenerator();
const sources = fileSourceResolver(new Map([[file, text]]));
const p1 = P.parsePhase1fromText(idGen, text, file);
const p2 = P.parsePhase2sourceResolution(idGen, sources, sources.lookupPath(path.dirname(file), path.basename(file)), p1);
const p3 = P.parsePhase3importAndNameResolution(p2);
const p4 = P.parsePhase4toposort(p3);
if (p4.errors.length > 0) die(p4.errors.map(e => e.message).join('; '));

function expr(s) {
  const r = P.parseExpressionOrDeclaration(s, '<input>', idGen, p4.sourceMap);
  if (r.kind !== 'expr') die('not an expression: ' + s);
  p4.resolver.switchToModule('main');
  walkExpression(p4.resolver, r.expr);
  if (p4.resolver.errors.length > 0) die(p4.resolver.errors[0].message);
  return r.expr;
}
const errorText = es => es.map(e => e.message + ' ' + JSON.stringify(e.reference === undefined ? '' :
  (l => l ? l.source + ':' + (l.start.line + 1) : '')(p4.sourceMap.get(e.reference)))).join('; ');

const lines = fs.readFileSync(0, 'utf8').split('\n').filter(l => l.trim() !== '');
for (const line of lines) {
  const job = JSON.parse(line);
  const rng = newRng(BigInt(job.seed || 1));
  const recorder = newTraceRecorder(0, rng, 1);
  const ev = new Evaluator(p4.resolver.table, recorder, rng, false);
  if (job.eval) {
    const out = [];
    for (const s of job.eval) {
      const r = ev.evaluate(expr(s));
      if (r.isLeft()) die(errorText([r.value]) + ' in ' + s.slice(0, 200));
      const itf = toItf(['v'], [{ kind: 'app', id: 0n, opcode: 'Rec', args: [{ kind: 'str', id: 0n, value: 'v' }, r.value] }]);
      out.push(itf.value.states[0].v);
    }
    say({ values: out });
    continue;
  }
  const init = expr(job.init), step = expr(job.step), inv = expr(job.inv || 'true');
  // the progress bar of the simulator writes to stderr when it is a terminal only
  for (let k = 0; k < job.samples; k++) {
    recorder.clear();
    const outFile = job.out + '_' + k + '.json';
    let status = 'none';
    const res = ev.simulate(init, step, inv, [], 1, job.steps, 1, (index, st, vars, states) => {
      const itf = toItf(vars, states);
      if (itf.isLeft()) die(itf.value);
      fs.writeFileSync(outFile, JSON.stringify({ vars: vars, states: itf.value.states }, (_k, v) => typeof v === 'bigint' ? v.toString() : v));
      status = st;
    });
    if (res.status === 'error') die(errorText(res.errors));
    say({ trace: outFile, status: status });
  }
}
