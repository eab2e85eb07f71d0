#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and sim/checks.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(V, 'sim', 'checks.json')))['properties']
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


prop('C01', 'Simulation results do not depend on worker threads or their schedule',
     'For the same model, initial state and sample number, a simulation produces exactly the same history for every agent (when it acts, which messages it handles and in which order, what random numbers it receives) with any number of worker threads and under any interleaving of them, without unsynchronised accesses to shared memory. '
     'When several threads are asked for and several agents act, worker threads are really used, and the requested number is what the model uses. '
     'Different agents, activations and samples receive different random streams.',
     ['schedules', 'programs', 'configurations'], 'every population, message pattern and horizon, 1..8 worker threads, every interleaving of the workers',
     'The tests run tiny models on one thread; a race or an order dependence shows only under particular interleavings of several workers.',
     ['esl/simulation/model.cpp', 'esl/computation/environment.cpp', 'esl/simulation/identity.hpp', 'esl/simulation/parameter/parametrization.hpp', 'esl/interaction/communicator.cpp'],
     [('agents are split over threads and joined every round', 'esl/simulation/model.cpp: model::step'), ('the wake-up table is updated under a lock', 'esl/simulation/model.cpp: model::step'),
      ('messages are exchanged by one thread between rounds', 'esl/computation/environment.cpp: environment::send_messages'), ('seed sequence from identity, time, round and sample', 'esl/simulation/model.cpp: model::step')],
     [('wake_up_times', 'when each agent acts next', 'esl/simulation/model.hpp')])
prop('C02', 'Every message is handled exactly once, at the first instant it is due',
     'Every message an agent sends to an existing agent is handled exactly once by every handler the recipient registered for its type, by no other agent and no other handler, and with its contents unchanged. '
     'It is handled at exactly the requested delivery time if that lies in the future (the recipient is woken up for it even if it did not plan to act then), and otherwise as soon as possible, in the same instant. '
     'The total number of messages the simulation reports is the number sent.',
     ['programs', 'histories', 'schedules'], 'every traffic pattern (delays, past due times, self-messages, chains, bursts, messages sent before the start), any number of handlers and worker threads, every way of advancing the simulation',
     'The tests send one or two messages on one thread; loss, duplication and late delivery need pending messages, wake-ups and windows to coincide.',
     ['esl/interaction/communicator.hpp', 'esl/interaction/communicator.cpp', 'esl/computation/environment.cpp', 'esl/simulation/model.cpp'],
     [('outboxes are flushed into inboxes between rounds', 'esl/computation/environment.cpp: environment::send_messages'), ('due messages are dispatched, later ones kept', 'esl/interaction/communicator.cpp: communicator::process_messages'),
      ('the recipient is woken up for a message', 'esl/computation/environment.cpp: environment::send_messages')],
     [('inbox', 'messages waiting for their delivery time', 'esl/interaction/communicator.hpp'), ('outbox', 'messages sent in this round', 'esl/interaction/communicator.hpp')])
prop('C03', 'Agents act exactly when they asked to, virtual time never goes back',
     'Every agent acts at the first instant of its life, and after that exactly at the earliest of the times its last activation and its handlers asked for, the end of the current window and the due times of its pending messages; never earlier, never twice for one request, and it sees that instant as the current time. '
     'Each step of the simulation returns the earliest pending wake-up time and the model clock equals it afterwards; time never decreases and a run ends at its horizon, which no agent reaches or passes.',
     ['programs', 'schedules', 'configurations'], 'every pattern of requested wake-up times (same instant, far future, never), windows, horizons, run and step interfaces, worker threads',
     'Tests check single steps; skipped or repeated activations need interleaved wake-up requests of several agents and windows.',
     ['esl/simulation/model.cpp', 'esl/computation/environment.cpp', 'esl/interaction/communicator.cpp'],
     [('next event as minimum of wake-up times', 'esl/simulation/model.cpp: determine_next_event'), ('the round loop of an instant', 'esl/simulation/model.cpp: model::step'), ('the run loop', 'esl/computation/environment.cpp: environment::run, environment::step')],
     [('wake_up_times', 'requested times', 'esl/simulation/model.hpp'), ('time', 'the model clock', 'esl/simulation/model.hpp')])
prop('C04', 'Handlers run in priority order, messages in the order the agent chose',
     'Within one activation all handlers of higher priority for a message type run no later than those of lower priority, and all messages are handled before the agent acts. '
     'An agent that asked for in-order processing handles messages of equal priority from the same sender in the order they were sent; an agent that asked for random order handles them in an order that is random, yet the same in every repetition of the run, and does not favour one order.',
     ['programs', 'histories', 'schedules'], 'every combination of handler priorities, message batches, schedules and worker threads',
     'Tests register one or two handlers; order errors need batches of messages of equal priority from several senders.',
     ['esl/interaction/communicator.cpp', 'esl/interaction/communicator.hpp'],
     [('messages are grouped by priority and shuffled or kept in order', 'esl/interaction/communicator.cpp: process_messages')])
prop('C05', 'The blocking queue hands every element to exactly one consumer, in order',
     'Concurrent operations on the queue take effect one after another as on a first-in first-out queue: every element pushed is popped exactly once if the queue is drained, in the order pushed, and an operation that fails (contention, a copy that throws, no memory) neither loses nor duplicates an element. '
     'A blocked consumer wakes up as soon as there is an element for it or the queue is closed; closing loses no element that was pushed before, and once the closed queue is empty consumers are told so instead of blocking. '
     'Concurrent use involves no unsynchronised access to memory.',
     ['schedules', 'histories', 'fault_sequences'], 'every interleaving of any number of producers, consumers, observers and a closing thread; spurious wake-ups, failing try-locks, failing copies and allocations',
     'The tests use the queue from one thread; lost wake-ups and double hand-outs need particular interleavings.',
     ['esl/computation/blocking_queue.hpp'],
     [('mutex and condition variable', 'esl/computation/blocking_queue.hpp')], [('queue', 'elements in order', 'esl/computation/blocking_queue.hpp')])
prop('C06', 'The thread pool runs every accepted task exactly once and ends cleanly',
     'Every task the pool accepts runs exactly once on one of its worker threads with the arguments it was given, also when the pool is destroyed before the task started; futures deliver the result or the exception of their own task, and not before it finished. '
     'The pool runs the number of workers asked for (one per core when zero), a single worker runs the tasks of one submitter in order, and when the pool is gone no thread is left. '
     'A failure to start a thread or to allocate memory reaches the caller as an exception and leaves nothing half done.',
     ['schedules', 'configurations', 'fault_sequences'], 'every interleaving of submitters and workers, tasks that submit tasks or throw, 0..6 workers; thread creation failures, allocation failures, spurious wake-ups, failing try-locks',
     'The tests submit a few tasks and wait; hangs at destruction and lost tasks depend on the schedule, and no test makes a thread fail to start.',
     ['esl/computation/thread_pool.hpp', 'esl/computation/thread_pool.cpp', 'esl/computation/blocking_queue.hpp'],
     [('one queue per worker with stealing', 'esl/computation/thread_pool.cpp'), ('drain and join on destruction', 'esl/computation/thread_pool.cpp: ~thread_pool')])
prop('C13', 'Agents join and leave a running simulation cleanly',
     'An agent created while the simulation runs acts for the first time in the instant it was created and receives everything sent to it afterwards; an agent that is removed finishes its current activation, its last messages are delivered, and it never acts or handles messages again. '
     'The simulation goes on for all others exactly as before. The population it reports, and the agents it finds when asked for an identity, are those created and not removed.',
     ['programs', 'histories'], 'every pattern of births and deaths during a run, with traffic to and from the agents concerned',
     'Tests create all agents up front.',
     ['esl/computation/environment.cpp', 'esl/simulation/agent_collection.hpp', 'esl/simulation/agent_collection.cpp', 'esl/simulation/model.cpp'],
     [('queues of activations and deactivations', 'esl/computation/environment.cpp: activate, deactivate'), ('creation', 'esl/simulation/agent_collection.hpp: create')],
     [('local and global agents', 'the population', 'esl/simulation/agent_collection.hpp')])
prop('C14', 'Identities are unique, extend their parent and are reproducible',
     'No two agents, properties or other entities created in one simulation have the same identity, and an identity created under a parent extends that parent\'s identity by exactly one component. '
     'The identities created in a run are the same in every repetition and with any number of worker threads.',
     ['programs', 'schedules'], 'every creation pattern (nested, at initialisation, by agents while running on worker threads), every interleaving',
     'Tests create a handful of identities on one thread.',
     ['esl/simulation/identity.hpp', 'esl/simulation/entity.hpp', 'esl/simulation/agent_collection.hpp'],
     [('each entity counts its children', 'esl/simulation/entity.hpp: create')])
prop('C16', 'A failure in an agent, thread or recipient reaches the caller',
     'When an agent or one of its handlers fails, asks to be woken up in the past, sends to an agent that does not exist any more, or a worker thread can not be started, or memory runs out, the call that runs the simulation ends with an exception describing that failure, for one worker thread and for several alike, with all workers finished. '
     'It never ends the process, hangs, or continues as if nothing happened.',
     ['fault_sequences', 'schedules', 'programs'], 'every agent, or several at once, every instant and kind of failure (exception in action or handler, time in the past, thread that does not start, removed recipient, any allocation of any thread that fails), 1..8 worker threads, every interleaving',
     'No test makes an agent fail on a worker thread or a thread fail to start.',
     ['esl/simulation/model.cpp', 'esl/computation/environment.cpp'],
     [('exceptions of workers are collected and rethrown in order', 'esl/simulation/model.cpp: model::step'), ('unknown recipients are rejected', 'esl/computation/environment.cpp: send_messages')])

exec(open(os.path.join(V, 'tools', 'more_properties.py')).read())

NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
for n in NA:
    P.append({k: v for k, v in n.items() if k != 'reason'})
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
missing = [p['id'] for p in P if p['id'] not in checks and p['id'] not in [n['id'] for n in NA]]
assert not missing, missing
manifest = {
    'version': 1,
    'setup_cmd': 'python3 run.py setup',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 run.py check %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 run.py check %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': checks[p['id']].get('technique', 'deterministic simulation with fault injection: seeded search over schedules, faults and workloads of the real code'),
        'level': 'exploration',
        'level_note': checks[p['id']].get('level_note', 'Seeded sampling of executions of the real code, each exactly repeatable; a clean batch is evidence, not proof. Assumes sequentially consistent memory (unordered accesses are reported as races) and trusts the simulated threading primitives and the reference model.'),
    } for p in P if p['id'] in checks],
    'not_applicable': [{'property': n['id'], 'reason': n['reason']} for n in NA],
    'notes': 'No hooks in /repo: the simulator replaces the threading primitives, clock and allocator at link time and uses the seams the code has (virtual functions, output sinks, streams). See DESIGN.md.',
}
json.dump(manifest, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(P), 'properties,', len(manifest['checks']), 'checks')
