"""Checks of the gateway properties: design model, behaviours of it played
into the real server, scripted scenarios, judged traces."""
import json, os, re, time
from check import Broken, VERIF, q, tset, known_findings, load_line
from families import family, codec_model, codec_round, CODEC_GROUPS

KINDS = '{"pos", "nopos", "ident", "mixed", "conf", "resp", "bad"}'
BASE = 'race:2 volume:10 plain:6 fault:4 hold:4 damage:6 confirm:6 ident:6 retrans:3 edge:3 crowd:2 seg:1 alien:3 encore:5 slow1:1 slow3:1 drip03:1 drip3:1 storm:2 same:2 twin:2 pace:2 huge:1'
MIX = {
    'C01': 'codepr:1 codestatus:1 codesst:1 coderst:1 coderflags:1 codepflags:1 codepos:1 stall:2 long:2 storm:6 same:4 swarm:1 huge:3 drip6:1 volume:24 hold:10 fault:6 crowd:4 retrans:8 edge:6 confirm:10 damage:6 ident:8 seg:3 plain:10 big:2 iso:6 encore:10 slow1:4 slow3:2 slow6:1 slow11:1',
    'C02': 'codesst:1 coderflags:1 codepflags:1 same:3 huge:1 fault:60 hold:30 volume:10 plain:6 crowd:2 slow1:4 slow3:3 slow6:2 slow11:1',
    'C03': 'codesst:1 coderst:1 coderflags:1 codepflags:1 codepos:1 codesrc:1 huge:5 same:4 swarm:1 long:1 plain:50 volume:30 fault:10 confirm:10 retrans:10 edge:6 seg:3 big:4 hold:10 crowd:3 twin:4',
    'C04': 'codeliquid:1 codenumber:1 codepos:1 codesst:1 huge:2 same:6 swarm:1 plain:60 volume:30 oids:2 ident:16 hold:10 crowd:4 edge:6 confirm:6 retrans:4',
    'C05': 'stall:1 race:16 same:20 swarm:4 slow1:2 slow3:2 slow6:1 slow11:1 iso:60 crowd:14 flood:3 hold:8 fault:4',
    'C06': 'storm:10 long:1 encore:30 damage:80 mutants:20 volume:10 fault:2',
    'C07': 'pace:40 drip03:3 drip1:3 drip3:2 drip6:2 drip11:1 twin:40 seg:10 cuttail:40 big:3 volume:4',
    'C08': 'codes:2 storm:4 swarm:1 huge:3 fuzz:36 mutants:24 alien:8 big:10 cuttail:8 damage:10',
    'C09': 'storm:6 drip1:1 alien:70 damage:20 volume:10 mutants:6',
    'C11': 'codesst:1 codepr:1 codestatus:1 same:4 storm:4 swarm:1 encore:10 ident:60 volume:20 retrans:8 fault:8 confirm:6',
    'C21': 'huge:5 volume:12 ident:12 damage:12 fault:8 confirm:6 many:0',
    'C23': 'codepr:2 codestatus:2 codesst:1 storm:10 same:4 long:1 confirm:70 volume:16 hold:6 ident:6',
    'C10': 'ends:10',
    'C12': 'fault:50 hold:10 slow1:2 slow3:2',
}
SLOW = ('slow', 'drip', 'stall')
DESIGN_BUGS = [(b, '{1}', 2, 2) for b in ('ackfirst', 'answerconf', 'dropmixed', 'stopfirst', 'asyncack', 'stale',
                                          'successonfail', 'stickyresult', 'wrongcode', 'closeonbad')] + [('shared', '{1, 2}', 1, 1)]


def merged(pid):
    n = {}
    for part in (BASE, MIX[pid]):
        for x in part.split():
            c, k = x.split(':')
            n[c] = max(n.get(c, 0), int(k))
    return {c: k for c, k in n.items() if k}


def gate_model(run, conns, stores, maxpk, bug='none', kinds=KINDS, ok=(0,), timeout=800, live=False, count=True):
    return run.tlc('Gate', {'Conns': conns, 'Stores': stores, 'MaxPk': maxpk, 'Kinds': kinds, 'Bug': q(bug)},
                   ('SPECIFICATION Fair\nPROPERTIES Served Drained\n' if live else 'SPECIFICATION Spec\nINVARIANTS TypeOK Kept Unbroken\n')
                   + 'CHECK_DEADLOCK FALSE\n', ok_codes=ok, timeout=timeout, count=count)


def gate_sim(run, seed, num, stores, conns, first):
    """behaviours of the design model as scenarios"""
    out = run.tlc('GateSim', {'Conns': conns, 'Stores': stores, 'MaxPk': 3, 'Kinds': KINDS, 'Bug': q('none'), 'Seed': seed},
                  'SPECIFICATION SSpec\nINVARIANTS ShowScenario Kept\nCHECK_DEADLOCK FALSE\n', workers=1,
                  args=('-simulate', 'num=%d' % num, '-depth', '150', '-seed', str(seed)), count=False)
    res = []
    for l in out.splitlines():
        if l.startswith('"SCENARIO '):
            s = json.loads(json.loads(l)[9:])
            s['sc'] = first + len(res) + 1
            res.append(s)
    if len(res) < num * 0.5:
        raise Broken('only %d of %d simulated behaviours ended' % (len(res), num))
    m = re.search(r'Progress: (\d+) states checked', out)
    if m:
        run.notes['simulated_model_states'] = run.notes.get('simulated_model_states', 0) + int(m.group(1))
    return res


def gate_scripts(run, seed, mix, first):
    plan, out = run.path('plan.ndjson'), run.path('scr-%d' % seed)
    os.makedirs(out, exist_ok=True)
    n = 0
    with open(plan, 'w') as f:
        # a child plays eight scenarios in a row: spread those that take long
        slow = [c for c, k in sorted(mix.items(), reverse=True) for _ in range(k) if c.startswith(SLOW)]
        rest = [c for c, k in sorted(mix.items()) for _ in range(k) if not c.startswith(SLOW)]
        while slow or rest:
            part = slow[:1] + rest[:7] if slow else rest[:8]
            slow, rest = slow[1:], rest[len(part) - (1 if slow else 0):]
            for c in part:
                f.write(json.dumps({'c': c}) + '\n')
                n += 1
    run.tlc('GateScripts', {'Seed': seed, 'PlanFile': q(plan), 'OutDir': q(out), 'First': first},
            'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', count=False)
    lines = []
    for i in range(1, n + 1):
        lines += open(os.path.join(out, str(i))).read().splitlines()
    if len(lines) != n:
        raise Broken('scenario generator produced %d of %d scenarios' % (len(lines), n))
    for c, k in mix.items():
        d = run.notes.setdefault('scenarios_by_class', {})
        d[c] = d.get(c, 0) + k
    return lines


def gate_round(run, seed, mix, nsim, tag='g'):
    lines = gate_scripts(run, seed, mix, 0)
    if nsim:
        sims = gate_sim(run, seed, nsim, 2, '{1, 2}', len(lines))
        sims += gate_sim(run, seed + 77, nsim // 3 + 1, 3, '{1}', len(lines) + len(sims))
        run.notes.setdefault('scenarios_by_class', {})
        run.notes['scenarios_by_class']['sim'] = run.notes['scenarios_by_class'].get('sim', 0) + len(sims)
        lines += [json.dumps(s) for s in sims]
    play(run, lines, '%s-%d' % (tag, seed))


def play(run, lines, tag):
    scen, trace = run.path(tag + '-scen.ndjson'), run.path(tag + '-trace.ndjson')
    with open(scen, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    run.drive('gate', scen, trace, 8)
    nev = sum(1 for _ in open(trace))
    known = [k for _, k in known_findings()]
    run.judge('GateTrace', {'TraceFile': q(trace), 'Known': tset(known)}, trace,
              'SPECIFICATION Spec\nVIEW Where\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Consumed\n')
    run.traces += len(lines)
    run.evaluations += nev
    if len(run.samples) < 2:
        for l in lines[:200:50]:
            s = json.loads(l)
            run.samples.append({'kind': s['kind'], 'stores': s['stores'], 'steps': [st['a'] for st in s['steps']][:12]})
    run.scen_lines = lines
    kinds = {}
    for l in open(trace):
        e = json.loads(l)['e']
        kinds[e] = kinds.get(e, 0) + 1
    ev = run.notes.setdefault('recorded_events', {})
    for k, n in kinds.items():
        ev[k] = ev.get(k, 0) + n


def scenario_of(trace, line):
    """the events of the scenario that begins at this line of the trace, and the scenario"""
    if 'e' not in load_line(trace, line):
        return load_line(trace, line)
    evs = []
    with open(trace) as f:
        for i, l in enumerate(f, 1):
            if i < line:
                continue
            o = json.loads(l)
            if o['e'] == 'begin' and i > line:
                break
            evs.append(o)
    scen = None
    try:
        for l in open(trace.replace('-trace.', '-scen.')):
            o = json.loads(l)
            if o.get('sc') == evs[0].get('sc'):
                scen = o
    except Exception:
        pass
    return {'scenario': scen, 'events': evs}


def design_bugs(run):
    """every design error the model knows must be found in it"""
    for bug, conns, stores, maxpk in DESIGN_BUGS:
        out = gate_model(run, conns, stores, maxpk, bug, ok=(12,), count=False)
        if 'is violated' not in out:
            raise Broken('the model does not notice design error ' + bug)
    out = gate_model(run, '{1, 2}', 1, 1, 'lock', kinds='{"pos"}', ok=(13, 12), live=True, count=False)
    if 'violated' not in out:
        raise Broken('the model does not notice design error lock')
    run.notes['design_errors_found_by_model'] = len(DESIGN_BUGS) + 1


NSIM = {'C01': 90, 'C02': 120, 'C05': 120, 'C03': 60, 'C23': 60, 'C06': 40, 'C11': 40, 'C04': 40}


@family('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11', 'C21', 'C23')
def gateway(run):
    run.build()
    if run.pid == 'C21':
        codec_model(run)
        codec_round(run, run.seed, CODEC_GROUPS['C21'], 60, 300)
        run.notes['codec_inputs'] = len(run.notes.pop('_d'))
    gate_model(run, '{1}', 2, 2)
    gate_model(run, '{1, 2}', 1, 1)
    gate_model(run, '{1, 2}', 1, 1, kinds='{"pos", "bad"}', live=True)
    if run.quick:
        gate_round(run, run.seed, merged(run.pid), NSIM.get(run.pid, 20))
    else:
        design_bugs(run)
        gate_model(run, '{1}', 2, 3)
        t, k = time.time(), 0
        while k < 1 or (time.time() - t < 240 and k < 10):
            gate_round(run, run.seed + 1000 * k, {c: 2 * n for c, n in merged(run.pid).items()}, 2 * NSIM.get(run.pid, 40))
            k += 1
        run.notes['rounds'] = k
    run.notes['rule'] = ('scenarios are generated by TLC (packets and their damage from the wire layouts, schedules of clients and storage calls) or are '
                         'simulated behaviours of the design model; each is played into the real server and its recorded history is judged by the formulas of the model')
    run.assumptions = ['storage calls are made by the server through storage.Repository; recorder storages stand in for brokers',
                       'records are attributed to packets by the navigation time of their first position, which the generator makes unique']
    return run.finish(record_of=scenario_of)
