#!/usr/bin/env python3
"""Regenerates DESIGN.md from DESIGN.in.md, checks.py, properties.jsonl, known_findings.json and the seeded changes."""
import glob, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import checks
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
ORACLE = {
 'C01': 'the receiver sees the numbers of the sender in the order they were sent',
 'C02': 'a reference model of the subscriptions at the time each message is processed',
 'C03': 'count of answers per request; an answer which arrives in time is the one delivered, else exactly one timeout error',
 'C04': 'identity of request and response objects and of the (symbolic) payloads',
 'C05': 'per timer: calls, cancellations, shutdown; fresh ids among the pending ones',
 'C06': 'nothing is called after shutdown_finish; every pending timer and request is cancelled before; tables of the supervisor are empty of the actor',
 'C07': 'automaton of the documented life cycle over every hook and state change of every actor',
 'C08': 'shutdown is finished exactly once, the requester gets one answer, no error is reported',
 'C09': 'outcome table: policy x what each child did, written from policy.h, docs and the pinned test (see remarks)',
 'C10': 'a supervisor finishes after all its children, no child starts afterwards, everything finishes',
 'C11': 'number of live allocations before and after; objects of the user are destroyed once, after the last holder',
 'C12': 'memory model, assertions, terminate, non-termination of the executor; on_error is the only way a failure is told',
 'C13': 'the server finishes after its clients have been told and let go; each side calls back once',
 'C14': 'outcome table of link requests; a confirmed link means the server is (operational-only: OPERATIONAL) and not shutting down',
 'C15': 'a reference map name -> address',
 'C16': 'per lookup: at most one answer, exactly one unless cancelled; the answer is the address registered at that moment',
 'C17': 'names registered and revoked; the actor operates only with all answers; the registry is emptied',
 'C18': 'reference model of policies, number of restarts, period',
 'C19': 'reference model of the escalation; moment of the restart against the symbolic clock',
 'C20': 'reference model of the rules of escalate_failure and autoshutdown_supervisor; only the right supervisors go down, with the right reason',
 'C21': 'a counter per resource; the phases end exactly when all of them are zero',
 'C22': 'number of recipients that handled the message before it comes back; it comes back once',
 'C23': 'order of on_start among siblings and their supervisor',
 'C24': 'reference model of the subscription as seen by the owner loop; context of the handler; tables of both loops are empty afterwards',
 'C25': 'the enqueue hook of each loop is called once per foreign message; the handler runs in its own loop only',
 'C26': 'every message of every sender handled once and in order; the loop is not asleep while something is pending; deadlock, data races',
 'C27': 'reference list of deadlines against the virtual clock',
 'C28': 'counts of sent and handled messages, per-timer record (deadline, cancelled, calls), strand of every call, nothing left in the context; data races between strands',
 'C29': 'as C28 with watchers; owned loop destroyed once; deadlock and data races of sender and loop',
 'C30': 'as C28 with awake callbacks and timeouts; deadlock and data races of sender and loop',
 'C31': 'as C28 with events and timers',
 'C32': 'polls happen with the period; the first poll at or after the raise starts exactly one shutdown',
 'C33': 'the chain built by the harness / the injected failure is found, unaltered, at the end of every reported chain; the text names all elements',
 'C34': 'mandatory settings supplied <=> an actor is returned; each value is read back',
 'C35': 'the text contains kind, addresses and codes of the message; no failure of any kind',
 'C36': 'each object is destroyed once, after the last use; data races; payloads are intact',
}
rows = []
for p in props:
    i = p['id']; c = checks.CHECKS.get(i)
    rows.append(f"### {i} {p['title']}\n")
    if not c:
        rows.append('not claimed: ' + getattr(checks, 'NOT_APPLICABLE', {}).get(i, '') + '\n'); continue
    rows.append(f"*Oracle*: {ORACLE[i]}.\n\n*Encoded and explored*:\n")
    for h in c['harnesses']:
        t = ' (thorough only)' if h.get('tiers') == ['thorough'] else ''
        rows.append(f"- `{h['src'][0]}` {' '.join(h.get('defs', []))}{t}: {h['bounds']}")
    rows.append('')
seeds = []
for m in sorted(glob.glob(R + '/seeded/*/meta.json')):
    d = json.load(open(m)); s = os.path.basename(os.path.dirname(m))
    seeds.append(f"| {s} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |")
fixed = [x[len('fixed: property='):] for x in json.load(open(R + '/known_findings.json'))['fixed']]
defects = ['| property | commit | what failed |', '|---|---|---|'] + ['| %s | %s | %s |' % tuple(x.split(' ', 2)) for x in fixed]
t = open(R + '/DESIGN.in.md').read()
t = t.replace('@TABLE@', '\n'.join(rows)).replace('@SEEDS@', '\n'.join(['| change | property | needs | breaks |', '|---|---|---|---|'] + seeds)).replace('@DEFECTS@', '\n'.join(defects))
open(R + '/DESIGN.md', 'w').write(t)
