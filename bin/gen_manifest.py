"""writes MANIFEST.json from properties.jsonl"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRICE = {'C25', 'C26'}
PKG = {'C32'}
EXCHANGE = ('Behaviours of the specification spec/dex.qnt (random transactions aimed by the specification itself, from several set-ups) '
            'are audited against the property, stated independently in spec/props.qnt, and repeated step by step on the real contracts '
            'run by the real iconservice machinery on an in-memory store; after every transaction outcome, every public getter, every '
            'balance and the event log are compared. Bounded: sampled behaviours, deterministic in VERIF_SEED. Trusted: the mini node '
            'of harness/chain.py and the Quint simulator.')
NOTES = {
    'C25': 'spec/prices.qnt decides, with exact integer arithmetic, on which side of the curve a return lies and by how much; it judges what the '
           'real formula contract returned for sampled inputs of every region, including both sides of the internal thresholds. Weights whose '
           'reduced denominator exceeds 1000 are covered through C26 only.',
    'C26': 'spec/formula.qnt is the published algorithm on exact integers; inputs chosen by spec/prices.qnt around every internal threshold and at '
           'random are answered by the specification and the real contract, and must agree to the unit. Sampled, deterministic in VERIF_SEED.',
    'C27': 'Round trips, splits and larger amounts are judged by spec/prices.qnt on the real formula, and round trips on the real contracts '
           'are chosen and audited by spec/dex.qnt.',
    'C32': 'Histories of builds, edits and cleans chosen and predicted by spec/pkg.qnt are repeated on the real builder in a scratch directory as an '
           'unprivileged user; the whole output tree and the zip archives are compared after every step.',
    'C33': 'spec/pkg.qnt computes the import closure of each package from the imports found in the sources and judges completeness; every package is '
           'also imported in isolation, and behaviours of the whole exchange are repeated on the contracts loaded from their packages alone.',
    'C35': 'spec/tables.qnt derives the constants and code results for the shipped and for random settings from first principles (series in 440-bit '
           'fixed point, searches, recurrences) and asserts that the shipped ones are those of spec/formula.qnt; the real scripts are run with '
           'the same settings, what they print is executed and compared, and the helper library answers generated questions. Sampled settings.',
    'C36': 'spec/interface.qnt states the interface; what every contract declares is compared with it, and behaviours of the exchange are repeated with '
           'all requests and questions as named texts converted by the real iconservice, preceded by badly formed and unpublished requests that must '
           'be refused. Declarations are compared completely, behaviours are sampled, deterministic in VERIF_SEED.',
    'C34': 'Histories over several stores and databases chosen and predicted by spec/storage.qnt are repeated on the real class over the real '
           'iconservice containers; every field of every store is read after every step.',
}
TECH = {
    'C25': 'Quint specification of the curve judging recorded results of the real formula',
    'C26': 'Quint specification of the fixed-point algorithm, differential replay on the real formula',
    'C27': 'Quint specification: generated round trips replayed on the real contracts, recorded results judged',
    'C32': 'Quint specification of the builder, simulated histories replayed on the real builder',
    'C33': 'Quint specification of package closure judging the real packages, plus model-based replay on packaged contracts',
    'C35': 'Quint specification of the generated constants, differential replay on the real generator scripts',
    'C36': 'Quint specification of the published interface compared with the declarations; model-based replay of requests in wire form',
    'C34': 'Quint specification of attribute storage, simulated histories replayed on the real class',
}
LEVEL = 'model_checking'
extra = {}
try:
    extra = json.load(open(os.path.join(VERIF, 'bin', 'proved.json')))
except OSError:
    pass
checks = []
for line in open(os.path.join(VERIF, 'properties.jsonl')):
    p = json.loads(line)['id']
    checks.append({'property': p, 'quick_cmd': f'bin/check.py {p}', 'thorough_cmd': f'VERIF_TIER=thorough bin/check.py {p}',
                   'evidence_file': f'evidence/{p}.json',
                   'technique': TECH.get(p, 'Quint specification, simulated behaviours audited and replayed on the real contracts')
                   + ('; inductive invariant by Apalache' if p in extra else ''),
                   'level': LEVEL, 'level_note': NOTES.get(p, EXCHANGE) + (' ' + extra[p] if p in extra else '')})
json.dump({'version': 1, 'setup_cmd': 'bin/setup.sh',
           'checks': checks, 'not_applicable': [],
           'notes': 'Specifications in spec/ (Quint), binding in harness/, entry point bin/check.py. No hooks in /repo are needed. '
                    'VERIF_SEED chooses all random numbers.'},
          open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
