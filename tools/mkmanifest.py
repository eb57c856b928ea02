#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR = ('TLA+ (Tracker.tla) model checked with TLC; its transitions replayed on the code and the recorded executions '
      'validated with TLC (TrackerTrace.tla)')
TN = ('Exhaustive for the small model; on the code: every step of the replayed model programs and of seeded random programs '
      'is checked against the specification (millimetre tolerances). Trusts TLC, the driver\'s observation through the public API '
      'and its independent geodesy.')
CLAIMS = {p: (TR, TN) for p in 'C01 C02 C03 C04 C05 C06 C07 C09 C10 C11 C19'.split()}
GR = ('TLA+ (Generator.tla) model checked with TLC, safety and liveness; its transitions replayed as control sequences on the running '
      'generator and all recorded executions explained by TLC (GeneratorTrace.tla)')
GN = ('Exhaustive for the small model; on the code: TLC must find an order of hidden ticks and calls that explains every recorded '
      'execution. Schedules are those that gated callbacks, concurrent calls and repetition produce, not all. Trusts TLC and the driver.')
CLAIMS.update({p: (GR, GN) for p in 'C14 C16 C21 C22'.split()})
CLAIMS['C15'] = ('TLA+ (Registry.tla) model checked with TLC; its transitions replayed on generators and concurrent call histories '
                 'checked for linearizability against it by TLC (RegistryTrace.tla)',
                 'Exhaustive for two generators and up to four trackers (two sharing an identifier after a restore); schedules of the concurrent '
                 'histories are sampled. Trusts TLC and the driver.')
CLAIMS['C17'] = ('TLA+ (Readers.tla) model checked with TLC; recorded histories of concurrent readers and writers of real trackers must be '
                 'explained by it, every read by one whole state (ReadersTrace.tla); run under the race detector as well',
                 'Exhaustive for the small model; on the code the schedules are those that repetition, spinning readers and the race detector produce, '
                 'not all. Trusts TLC, the driver and the race detector.')
def small(mod, what):
    return ('TLA+ (%s.tla) model checked with TLC; its transitions or enumerated cases replayed on the code and every recorded step '
            'validated with TLC (%sTrace.tla)' % (mod, mod),
            'Exhaustive for the small model; on the code: %s, plus seeded random programs. Trusts TLC and the driver\'s observation '
            'through the public API.' % what)
CLAIMS['C08'] = small('Values', 'every transition of the model on each kind of value and a grid of progress points')
CLAIMS['C12'] = small('Codec', 'every transition of the model, encoded and decoded in every format')
CLAIMS['C13'] = small('Decoders', 'every damage to one part of a document that the specification enumerates, pairs and triples of these, and bytes and nodes damaged at random')
CLAIMS['C23'] = small('Import', 'every document of the grammar the specification enumerates, written in several ways')
CLAIMS['C18'] = small('Settings', 'every constructor with every combination of boundary classes the specification enumerates')
CLAIMS['C20'] = small('Randoms', 'every level, boundary count and region the specification enumerates, several draws each')
CLAIMS['C24'] = small('Routes', 'every transition of the model')
CLAIMS['C25'] = small('Props', 'every transition of the model')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'],
                      technique=CLAIMS[p['id']][0], level='model_checking', level_note=CLAIMS[p['id']][1])
                 for p in props if p['id'] in CLAIMS],
         not_applicable=[dict(property=p['id'], reason='no check has been built yet') for p in props if p['id'] not in CLAIMS],
         notes='No hooks: the driver uses the public API. Checks build the driver against /repo in a scratch directory.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
