"""Checks of the programs and the parts around the server."""
import json, os, time
from check import Broken, VERIF, q, tset
from families import family

JUDGE = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Consumed\n'


def lines_of(p):
    return sum(1 for _ in open(p))


def count(run, name, path, key):
    d = run.notes.setdefault(name, {})
    for l in open(path):
        k = key(json.loads(l))
        d[k] = d.get(k, 0) + 1


def design_errors(run, module, consts, extra, bugs, ok=(12, 13)):
    for b in bugs:
        out = run.tlc(module, dict(consts, Bug=q(b)), extra, ok_codes=ok, count=False)
        if 'violated' not in out:
            raise Broken('model %s does not notice design error %s' % (module, b))
    run.notes['design_errors_found_by_model'] = run.notes.get('design_errors_found_by_model', 0) + len(bugs)


PG_EXTRA = 'SPECIFICATION Spec\nINVARIANTS Reports SendsOnce Patient\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n'


@family('C22')
def packetgen(run):
    run.build()
    exe = run.build_repo('./cli/packet-gen', 'packet-gen')
    run.tlc('PacketGen', {'Limit': 3, 'Bug': q('none')}, PG_EXTRA)
    if not run.quick:
        design_errors(run, 'PacketGen', {'Limit': 2}, PG_EXTRA,
                      ['twice', 'sendall', 'ignorerst', 'anyrpid', 'lastrst', 'neverzero', 'firstpart', 'impatient'])
    t = time.time()
    k = 0
    while k < 1 or (not run.quick and k < 12 and time.time() - t < 300):
        seed = run.seed + 1000 * k
        vec, out = run.path('vec-%d' % seed), run.path('out-%d' % seed)
        run.tlc('PacketGenVec', {'Seed': seed, 'VecFile': q(vec), 'NRand': 450 if run.quick else 1500}, count=False)
        run.drive('pgen', exe, vec, out)
        run.judge('PacketGenTrace', {'TraceFile': q(out)}, out, JUDGE)
        run.traces += lines_of(out)
        count(run, 'runs_by_kind', out, lambda o: o['g'])
        if not run.samples:
            for l in open(out):
                o = json.loads(l)
                if len(run.samples) < 3 and o['g'] in ('model', 'good', 'lacking'):
                    run.samples.append({x: o[x] for x in ('g', 'cmd', 'exit', 'ms', 'says')})
        k += 1
    run.notes['rule'] = ('TLC generates arguments and answers: every abstract answer of the model as bytes, random, damaged, cut, delayed and oversized ones, '
                         'impossible arguments; the real binary is run once for each against a scripted server')
    run.assumptions = ['waiting is judged with a margin of seconds; the loopback and the machine deliver within it']
    return run.finish()


FAN_EXTRA = 'SPECIFICATION Spec\nINVARIANT Kept\nCHECK_DEADLOCK FALSE\n'


@family('C12')
def fanout(run):
    import gateway
    run.build()
    run.tlc('Fanout', {'Msgs': '{1, 2}', 'MaxStores': 2, 'Bug': q('none')}, FAN_EXTRA)
    run.tlc('Fanout', {'Msgs': '{1}', 'MaxStores': 4 if run.quick else 5, 'Bug': q('none')}, FAN_EXTRA)
    if not run.quick:
        design_errors(run, 'Fanout', {'Msgs': '{1, 2}', 'MaxStores': 2}, FAN_EXTRA, ['skiplast', 'stopfirst', 'retry', 'losterr', 'shared'])
    rounds = 1 if run.quick else 6
    for k in range(rounds):
        scen, out = run.path('fan-%d' % k), run.path('fan-out-%d' % k)
        run.tlc('FanoutGen', {'Seed': run.seed + 1000 * k, 'OutFile': q(scen), 'NRand': 300 if run.quick else 1500,
                              'MaxStores': 9, 'Full': 4}, count=False)
        run.drive('fanout', scen, out)
        run.judge('FanoutTrace', {'TraceFile': q(out)}, out, JUDGE)
        run.traces += lines_of(out)
        run.evaluations += sum(len(json.loads(l)['h']) for l in open(out))
        gateway.gate_round(run, run.seed + 1000 * k, gateway.merged('C12'), 60 if run.quick else 150)
    run.samples = [json.loads(open(out).readline()), json.loads(open(out).read().splitlines()[200])]
    run.notes['rule'] = ('every vector of outcomes of up to 4 storages for two saves in a row, a storage added in between or not; '
                         'random overlapping saves over up to 9 storages; '
                         'and the gateway with recorder storages that refuse particular records or are slow, behaviours of the Gate model among them')
    run.assumptions = ['storages are added between saves only, as the receiver does before it serves']
    return run.finish(record_of=gateway.scenario_of)


IDLE_EXTRA = 'SPECIFICATION Spec\nINVARIANT Kept\nCHECK_DEADLOCK FALSE\n'
TICK = 300


def idle_scenarios(run, seed, num, ttl, parts, first, tick=TICK):
    """timed behaviours of the idle model; two of them share one gateway"""
    out = run.tlc('IdleSim', {'Ttl': ttl, 'Parts': parts, 'MaxNow': 3 * ttl + 3 if ttl else 9, 'Holds': 'TRUE', 'Bug': q('none'), 'Seed': seed},
                  'SPECIFICATION SSpec\nINVARIANTS ShowScenario Kept\nCHECK_DEADLOCK FALSE\n', workers=1,
                  args=('-simulate', 'num=%d' % num, '-depth', '200', '-seed', str(seed)), count=False)
    beh = [json.loads(json.loads(l)[9:]) for l in out.splitlines() if l.startswith('"SCENARIO ')]
    if len(beh) < num * 0.5:
        raise Broken('only %d of %d simulated behaviours ended' % (len(beh), num))
    d = run.notes.setdefault('behaviours', {})
    for b in beh:
        k = 'ttl=%d %s' % (ttl, b['how'])
        d[k] = d.get(k, 0) + 1
    res = []
    for n, pair in enumerate(zip([b for b in beh if b['base'] == 0], [b for b in beh if b['base']])):
        steps = []
        for c in (1, 2):
            for o, s in enumerate(pair[c - 1]['steps']):
                s['c'] = c
                steps.append((s.pop('at'), c, o, s))
        steps.sort(key=lambda x: x[:3])
        play, at = [{'a': 'open', 'c': 1}, {'a': 'open', 'c': 2}], 0
        for t, _, _, s in steps:
            if t > at:
                at = t
                play.append({'a': 'until', 'ms': tick * t})
            play.append(s)
        res.append({'sc': first + len(res) + 1, 'kind': 'idle', 'stores': 1, 'nc': 2,
                    'ttl': tick * ttl if ttl else (0 if n % 2 else -1000), 'steps': play})
    return res


@family('C10')
def idle(run):
    import gateway
    run.build()
    for ttl in (3, 0):
        run.tlc('Idle', {'Ttl': ttl, 'Parts': 2, 'MaxNow': 7 if run.quick else 9, 'Holds': 'TRUE', 'Bug': q('none')}, IDLE_EXTRA)
    if not run.quick:
        design_errors(run, 'Idle', {'Ttl': 3, 'Parts': 2, 'MaxNow': 7, 'Holds': 'TRUE'}, IDLE_EXTRA,
                      ['never', 'absolute', 'perpacket', 'busyclock', 'lateeof'])
        design_errors(run, 'Idle', {'Ttl': 0, 'Parts': 2, 'MaxNow': 7, 'Holds': 'TRUE'}, IDLE_EXTRA, ['zero'])
    rounds = 1 if run.quick else 4
    for k in range(rounds):
        sc = []
        for parts in (1, 2, 3):
            sc += idle_scenarios(run, run.seed + 1000 * k + parts, 40 if run.quick else 80, 5, parts, len(sc))
            sc += idle_scenarios(run, run.seed + 1000 * k + 10 + parts, 8, 0, parts, len(sc))
        for parts in (1, 2):   # limits of several seconds: a limit that is a multiple of the one set shows
            sc += idle_scenarios(run, run.seed + 1000 * k + 20 + parts, 12, 5, parts, len(sc), 1100)
            sc += idle_scenarios(run, run.seed + 1000 * k + 30 + parts, 6, 3, parts, len(sc), 2500)
        scen, trace = run.path('idle-%d-scen.ndjson' % k), run.path('idle-%d-trace.ndjson' % k)
        with open(scen, 'w') as f:
            f.write('\n'.join(map(json.dumps, sc)) + '\n')
        run.drive('gate', scen, trace, 24, 2)
        out = run.judge('IdleTrace', {'TraceFile': q(trace), 'Slack': 2500, 'Eps': 15, 'Margin': 200}, trace, JUDGE)
        run.traces += len(sc)
        run.evaluations += lines_of(trace)
        un = out.count('"UNJUDGED"')
        run.notes['not_judged_because_the_machine_stalled'] = run.notes.get('not_judged_because_the_machine_stalled', 0) + un
        run.samples = run.samples or [{'steps': [[s['a'], s.get('c'), s.get('ms', len(s.get('b', [])))] for s in x['steps']], 'ttl': x['ttl']} for x in sc[:3]]
    # connections that end in every way leave nothing behind
    gateway.gate_round(run, run.seed, {'ends': 10 if run.quick else 60, 'plain': 4, 'volume': 4}, 0, tag='ends')
    run.notes['rule'] = ('timed behaviours of the idle model, two connections at a time on one gateway, one tick = 300 ms, limit 5 ticks or none, and limits of 5.5 s and 7.5 s; '
                         'a limit counts as kept when the connection is closed not before it and at most 2.5 s after it')
    run.assumptions = ['the machine delivers data and timers within 2.5 s; where the driver itself was late by more than the margin the connection is not judged further']
    return run.finish(record_of=gateway.scenario_of)


LIFE_EXTRA = 'SPECIFICATION Fair\nINVARIANT Kept\nPROPERTY Returns\nCHECK_DEADLOCK FALSE\n'


@family('C16')
def life(run):
    run.build()
    run.tlc('Life', {'Conns': '{1, 2}', 'MaxLen': 6 if run.quick else 7, 'Bug': q('none')}, LIFE_EXTRA)
    if not run.quick:
        design_errors(run, 'Life', {'Conns': '{1, 2}', 'MaxLen': 6}, LIFE_EXTRA,
                      ['deaf', 'dropall', 'nolistener', 'twice', 'serial', 'fragile', 'spin', 'anywhere'])
    # the last round: few behaviours with many more connections at once
    for k in range(2 if run.quick else 7):
        seed = run.seed + 1000 * k
        big = k in (1, 6) and 'big'
        out = run.tlc('LifeSim', {'Conns': '{1, 2}' if big else '{1, 2, 3, 4}', 'MaxLen': 14 if big else 16, 'Bug': q('none'), 'Seed': seed,
                                  'Sizes': '{1300, 2100}' if big else '{1, 2, 40, 150}', 'Churns': '{0, 2500}' if big else '{0, 0, 120, 400}'},
                      'SPECIFICATION SSpec\nINVARIANTS ShowScenario Kept\nCHECK_DEADLOCK FALSE\n', workers=1,
                      args=('-simulate', 'num=%d' % (16 if big else 90 if run.quick else 400), '-depth', '100', '-seed', str(seed)), count=False)
        sc = list(dict.fromkeys(json.loads(l)[9:] for l in out.splitlines() if l.startswith('"SCENARIO ')))
        if len(sc) < (6 if big else 60):
            raise Broken('only %d simulated behaviours ended' % len(sc))
        scen, trace = run.path('life-%d' % k), run.path('life-%d-out' % k)
        with open(scen, 'w') as f:
            f.write('\n'.join(sc) + '\n')
        run.drive('life', scen, trace, 3 if big else 16)
        run.judge('LifeTrace', {'TraceFile': q(trace)}, trace, JUDGE)
        run.traces += len(sc)
        for l in open(trace):
            o = json.loads(l)
            run.evaluations += len(o['h'])
            d = run.notes.setdefault('events', {})
            for e in o['h']:
                d[e['k']] = d.get(e['k'], 0) + 1
            if len(run.samples) < 3:
                run.samples.append(o)
    run.notes['rule'] = ('simulated behaviours of the model of the listener\'s life, a client of it standing for 1, 2, 40 or 150 connections at once; '
                         'the server runs in a process of its own')
    run.assumptions = ['Stop is called once Run listens, or before Run is called, never in between']
    return run.finish()


CONN_EXTRA = 'SPECIFICATION Spec\nINVARIANT Kept\nCHECK_DEADLOCK FALSE\n'
KINDS = ['redis', 'nats', 'nsq', 'postgresql', 'rabbitmq', 'tarantool_queue']


@family('C14')
def connectors(run):
    run.build()
    run.tlc('Connector', {'Msgs': '{1, 2}', 'MaxEnv': 2 if run.quick else 3, 'Bug': q('none')}, CONN_EXTRA)
    if not run.quick:
        run.tlc('Connector', {'Msgs': '{1, 2, 3}', 'MaxEnv': 1, 'Bug': q('none')}, CONN_EXTRA)
        design_errors(run, 'Connector', {'Msgs': '{1, 2}', 'MaxEnv': 1}, CONN_EXTRA,
                      ['async', 'nilok', 'emptyonbad', 'wrongdest', 'wrongcred', 'resend', 'ignoreerr', 'ignorelost', 'ignorebad', 'nilpanic'])
    t, k = time.time(), 0
    while k < 1 or (not run.quick and k < 12 and time.time() - t < 420):
        seed = run.seed + 1000 * k
        out = run.tlc('ConnectorSim', {'Msgs': '{1, 2, 3, 4, 5, 6, 7, 8}', 'MaxEnv': 3, 'Bug': q('none'), 'Seed': seed, 'Kinds': tset(KINDS), 'Plans': 864},
                      'SPECIFICATION SSpec\nINVARIANTS ShowScenario Kept\nCHECK_DEADLOCK FALSE\n', workers=1,
                      args=('-simulate', 'num=%d' % (700 if run.quick else 1500), '-depth', '200', '-seed', str(seed)), count=False)
        sc = list(dict.fromkeys(json.loads(l)[9:] for l in out.splitlines() if l.startswith('"SCENARIO ')))
        if len(sc) < 500:
            raise Broken('only %d simulated behaviours ended' % len(sc))
        scen, trace = run.path('conn-%d' % k), run.path('conn-%d-out' % k)
        with open(scen, 'w') as f:
            f.write('\n'.join(sc) + '\n')
        run.drive('conn', scen, trace, 24)
        run.judge('ConnectorTrace', {'TraceFile': q(trace)}, trace, JUDGE)
        run.traces += len(sc)
        d = run.notes.setdefault('events', {})
        for l, s in zip(open(trace), sc):
            o = json.loads(l)
            run.evaluations += len(o['h'])
            for e in o['h']:
                key = ' '.join([o['kind'], e['k'], e.get('res', '')]).strip()
                d[key] = d.get(key, 0) + 1
            if len(run.samples) < 3 and len(o['h']) > 12:
                run.samples.append({'scenario': {x: json.loads(s)[x] for x in ('kind', 'var', 'cfg', 'steps')}, 'history': o['h']})
        k += 1
    run.notes['rounds'] = k
    run.notes['rule'] = ('simulated behaviours of the connector model, for each of the six connectors, with complete, lacking, invalid and absent configurations, '
                         'right and wrong credentials with every special character, and brokers that accept, delay, refuse, break connections before and after accepting, go down and come back')
    run.assumptions = ['the brokers are stand-ins that speak the protocols; a record counts as accepted when the stand-in has read it completely and decided to acknowledge it',
                       'a record may be delivered twice when a connection broke during the call, because the client libraries retry']
    return run.finish()


START_EXTRA = 'SPECIFICATION Spec\nINVARIANT Kept\nCHECK_DEADLOCK FALSE\n'


def starts(run, seed, nbin, nload, tag, exe):
    """starts of the real receiver and loads of the real repository"""
    scen, trace = run.path('boot-%s' % tag), run.path('boot-%s-out' % tag)
    run.tlc('StartupGen', {'Seed': seed, 'OutFile': q(scen), 'NBin': nbin, 'NLoad': nload}, count=False)
    run.drive('boot', exe, scen, trace, 16)
    run.judge('StartupTrace', {'TraceFile': q(trace)}, trace, JUDGE)
    run.traces += lines_of(trace)
    d = run.notes.setdefault('start_events', {})
    for l in open(trace):
        o = json.loads(l)
        run.evaluations += len(o['h'])
        for e in o['h']:
            key = ' '.join([o['x']['mode'], e['k']] + ['%s=%s' % (x, e[x]) for x in ('err', 'ok', 'par', 'code', 'l') if x in e])
            d[key] = d.get(key, 0) + 1
        if len(run.samples) < 3 and len(o['h']) > 5:
            run.samples.append({'scenario': o['x'], 'history': o['h']})


@family('C13')
def startup(run):
    run.build()
    exe = run.build_repo('./cli/receiver', 'receiver')
    run.tlc('Startup', {'Stores': '{1, 2, 3}' if run.quick else '{1, 2, 3, 4}', 'Bug': q('none')}, START_EXTRA)
    if not run.quick:
        design_errors(run, 'Startup', {'Stores': '{1, 2, 3}'}, START_EXTRA, ['skipunknown', 'lastonly', 'emptyok', 'fatal', 'silent', 'shared'])
    t, k = time.time(), 0
    while k < 1 or (not run.quick and k < 20 and time.time() - t < 400):
        starts(run, run.seed + 1000 * k, 150 if run.quick else 300, 300 if run.quick else 800, str(k), exe)
        k += 1
    run.notes['rule'] = ('the real repository loads, and the real receiver is started with, storage sections that work, are unknown, lack a key, have a wrong number, wrong credentials, '
                         'no parameters or no broker; every set of working ones; each broker is a stand-in that notes what arrives with which parameters')
    run.assumptions = ['what the connectors find out when they are loaded is up to the client libraries where the specification says 2; those starts are judged by the other promises only',
                       'printed means: visible at the levels DEBUG and INFO']
    return run.finish()


@family('C15')
def config(run):
    run.build()
    exe = run.build_repo('./cli/receiver', 'receiver')
    run.tlc('Startup', {'Stores': '{1, 2}', 'Bug': q('none')}, START_EXTRA)
    if not run.quick:
        design_errors(run, 'Startup', {'Stores': '{1, 2}'}, START_EXTRA, ['nofile', 'exit0', 'elsewhere', 'level', 'nottl'])
    t, k = time.time(), 0
    while k < 1 or (not run.quick and k < 15 and time.time() - t < 300):
        seed = run.seed + 1000 * k
        vec, out = run.path('cfg-%d' % k), run.path('cfg-%d-out' % k)
        run.tlc('ConfigGen', {'Seed': seed, 'OutFile': q(vec), 'NRand': 1500 if run.quick else 6000}, count=False)
        run.drive('config', vec, out, '/repo')
        run.judge('ConfigTrace', {'TraceFile': q(out)}, out, JUDGE)
        run.traces += lines_of(out)
        count(run, 'configurations_by_kind', out, lambda o: o['g'])
        starts(run, seed + 500, 90 if run.quick else 150, 0, str(k), exe)
        k += 1
    run.notes['rule'] = ('every combination of top-level keys with every level, every host, port, limit and storage name, every text that YAML could misread as a parameter in every quoting, random '
                         'configurations, malformed files; each key of the shipped samples is given other values; the real receiver is started and its address, limit and log are observed')
    run.assumptions = ['conn_ttl is a whole number', 'an empty file is not judged']
    return run.finish()
