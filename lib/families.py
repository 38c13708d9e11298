"""The check of each property: which specifications are explored, which
behaviours are played into the real code, and which traces are judged."""
import json, os, re, random
from check import Broken, VERIF, q, tset, known_findings, load_line

FAMILIES = {}


def family(*ids):
    def deco(f):
        for i in ids:
            FAMILIES[i] = f
        return f
    return deco


# --------------------------------------------------------------------- codec
CODEC_GROUPS = {
    'C17': ['value'],
    'C18': ['value', 'encode'],
    'C19': ['corrupt', 'value'],
    'C20': ['trunc', 'corrupt'],
    'C21': ['value', 'encode', 'fit'],
}


def codec_round(run, seed, groups, nrand, npack):
    vec, out = run.path('vec-%d.ndjson' % seed), run.path('out-%d.ndjson' % seed)
    run.tlc('CodecGen', {'Seed': seed, 'VecFile': q(vec), 'CorpusFile': q(os.path.join(VERIF, 'corpus', 'packets.ndjson')),
                         'NRand': nrand, 'NPack': npack, 'Groups': tset(groups)}, count=False)
    run.drive('codec', vec, out)
    n = sum(1 for _ in open(out))
    if n == 0 or n != sum(1 for _ in open(vec)):
        raise Broken('driver produced %d lines' % n)
    run.judge('CodecTrace', {'TraceFile': q(out), 'Chains': 8}, out,
              'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Consumed\n')
    run.traces += n
    ops = run.notes.setdefault('calls_by_operation', {})
    digest = run.notes.setdefault('_d', set())
    for l in open(out):
        o = json.loads(l)
        k = o['g'] + '/' + o['op']
        ops[k] = ops.get(k, 0) + 1
        digest.add(json.dumps(o.get('b', o.get('v', o.get('recs')))))
        if len(run.samples) < 3 and ops[k] == 5:
            run.samples.append({x: o[x] for x in ('op', 'g', 't', 'b', 'v', 'h') if x in o})
    return out


def codec_model(run):
    run.tlc('CodecModel', {'Seed': run.seed, 'Step': 32 if run.quick else 4, 'Burst': 2 if run.quick else 6},
            'SPECIFICATION Spec\nINVARIANTS RoundTrip PacketOK CutRejected FlipRejected\nCHECK_DEADLOCK FALSE\n')


@family('C17', 'C18', 'C19', 'C20')
def codec(run):
    run.build()
    codec_model(run)
    groups = CODEC_GROUPS[run.pid]
    if run.quick:
        codec_round(run, run.seed, groups, 60, 300)
    else:
        import time
        k = 0
        while k < 1 or (time.time() - run.t0 < 420 and k < 12):
            codec_round(run, run.seed + 1000 * k, groups, 300, 1500)
            k += 1
        run.notes['rounds'] = k
    run.notes['distinct_inputs'] = len(run.notes.pop('_d'))
    run.notes['rule'] = ('inputs are generated by TLC from the layouts (every value of every flag byte, random field values, '
                         'prefixes, contradictory lengths, bit flips and bursts, real packets of the corpus); each is one call history of the library')
    run.assumptions = ['structures are compared field by field through their JSON tags',
                       'EGTS-plus data that is not in canonical protobuf form, and raw liquid-level data, are only checked for not crashing']
    return run.finish()

import gateway, progs  # noqa: registers the other properties
