"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

OBS = 'runtime monitoring: public methods wrapped by an observer; '
T = {
    'C01': (OBS + 'KKT optimality oracle on every fit event',
            'Every fit observed is judged by the optimality conditions against an independent '
            'float64 photometry; the convex problem makes them necessary and sufficient.'),
    'C02': ('runtime monitoring: metamorphic monitor, catalogue runs against per-object runs',
            'All results of a catalogue are compared with those of each object alone and other '
            'orders, neighbours, containers.'),
    'C03': ('runtime monitoring: metamorphic monitor over scaled and reordered inputs',
            'Paired executions; factors from 1e-12 to 1e12.'),
    'C04': ('runtime monitoring: boundary workload with an independent range oracle',
            'Ends, neighbouring floats, nodes and outside values of random ranges and grids.'),
    'C05': ('runtime monitoring: every projection compared with an independent float64 integral',
            'Reference splines and integration written apart from the code.'),
    'C06': ('runtime monitoring: state monitor over redshift histories',
            'Every state after every step is judged against the rest-frame arrays.'),
    'C07': (OBS + 'independent photometry oracle on every reconstruction',
            'Reference projection of the templates, in float64.'),
    'C08': (OBS + 'definition oracle on every K-correction, identities on twin calls',
            'Decided where the model flux is above three times its rounding allowance.'),
    'C09': (OBS + 'm - DM - K oracle on every absolute magnitude',
            'Every value and every -9999 is decided from inputs alone.'),
    'C10': (OBS + 'oracle on reconstructed magnitudes and limits',
            'Every combination of the optional results.'),
    'C11': (OBS + 'definition oracle on every derived quantity',
            'Sums evaluated independently from weights, templates and distance.'),
    'C12': (OBS + 'KKT oracle on every draw, offline statistics of the recorded noise',
            'Statistical tests at 1e-11 each.'),
    'C13': (OBS + 'per-draw oracle on Monte Carlo propagation',
            'Every draw is evaluated alone and independently.'),
    'C14': ('runtime monitoring: save/load histories, state and result comparison, also across '
            'processes', 'Documented attributes and all results are compared.'),
    'C15': ('runtime monitoring: write/read histories with value comparison',
            'Every value of every file is compared.'),
    'C16': ('fault injection at every line, call and file opening, with a registry state monitor; '
            'histories against a model of the registry',
            'Faults are injected at points of recorded executions; the registry is compared entry '
            'by entry after each.'),
    'C17': ('runtime monitoring: derived attributes of every bandpass against their definitions',
            'All shipped bandpasses and random new ones; known findings listed.'),
    'C18': ('runtime monitoring: listing histories against a model of directory and registry',
            'Hostile directory contents; files and registry are watched for changes.'),
    'C19': ('runtime monitoring: conversions against float64 definitions and re-encoding',
            'Every value is decided.'),
    'C20': ('runtime monitoring: paired objects with the correction on and off, interleaved '
            'histories', 'Every result of pairs is compared.'),
    'C21': ('runtime monitoring: every value against its float64 definition',
            'Unchanged values are compared bitwise.'),
    'C22': ('runtime monitoring: conversions against the float64 AB source',
            'Every value is decided.'),
    'C23': ('runtime monitoring: digests of arguments, objects, templates and registry around '
            'every call; interleaved histories against objects alone',
            'Digests cover documented attributes and interpolators.'),
    'C24': ('runtime monitoring: rejection monitor over enumerated wrong shapes, state monitor',
            'Every array argument of every method, with neighbouring, swapped, broadcastable and '
            'equal-size shapes.'),
    'C25': ('runtime monitoring: paired executions of both template modes and an independent '
            'projection', 'Numbers of templates on and around the group size and beyond.'),
    'C26': ('runtime monitoring: generated files parsed and compared number by number',
            'Every number of every file is compared.'),
    'C27': ('schedule injection: real threads under a tracing scheduler (interruption at every '
            'point, one preemption, random walks), lookup and result monitors',
            'Interleavings at lines, opcodes and calls of the code under test; free-running '
            'stress besides.'),
    'C28': ('runtime monitoring: figures read back and compared with the spectra asked for',
            'Every point of every line is compared.'),
    'C29': ('runtime monitoring: calls and objects with arguments left out against ones with the '
            'documented defaults, in histories',
            'Random subsets of arguments; the default grids and templates in full.'),
    'C30': ('runtime monitoring: open files, living objects and traced memory over windows of '
            'repetitions', 'Growth has to go on in every window, and in a second, longer series.'),
    'C31': ('fault injection: files cut, full disks, interrupted savings; loads compared with the '
            'complete object', 'Cuts at HDU boundaries and random bytes.'),
    'C32': ('runtime monitoring: the same scenario in processes of 33 environments, results '
            'compared', 'All environments in each run.'),
    'C33': ('runtime monitoring: state and results of originals and copies, also in fresh '
            'processes and pools; histories of changes to either',
            'Documented attributes and all results are compared.'),
    'C34': ('runtime monitoring: galaxies of the bundled catalogue through the documented steps '
            'and programs; every call, the photometry, the final numbers and the figures against '
            'an independent calculation',
            'The bulk of the galaxies is compared closely, as a few fits are nearly degenerate.'),
}

checks = []
for p in sorted(T):
    tech, note = T[p]
    checks.append(dict(
        property=p, quick_cmd='./run.sh {} --tier quick'.format(p),
        thorough_cmd='./run.sh {} --tier thorough'.format(p),
        evidence_file='evidence/{}.json'.format(p), technique=tech,
        level='fault_enumeration' if p == 'C16' else 'exploration',
        level_note=note + ' Trusts numpy, scipy and astropy, and the reference in kcmon/ref.py.'))

m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
         notes='Pure Python code: no memory or undefined-behaviour sanitizer applies; the monitors '
               'are in kcmon/. The code under test is imported from /repo/src; there are no hooks '
               'in /repo. See DESIGN.md.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
    json.dump(m, fp, indent=1)
    fp.write('\n')
