from . import pflow_common as pc

NEED_PROC = True
RUNS = {'quick': 1600, 'thorough': 40000}
RULE = ('random training or execution with one or two injected faults (iterator, malformed chunk, '
        'node failing in train/execute/stop/fork/join, add_task, get_results, worker death, '
        'scheduler iterator too short or raising), then the clean-up conditions, a retry and an '
        'execution are checked; distinct: event log and switch sequence differ')
SHRINK = ['faults', 'ops']
COMPONENTS = {'real': ['mdp.parallel flows, nodes, schedulers', 'mdp nodes, layers, flow nodes',
                       'worker program (in forked child processes)', 'pickle'],
              'simulated': ['thread scheduling', 'clock', 'pipes and process life cycle']}


def gen(rng):
    return pc.gen(rng, 'P03')


run = pc.run_case
simplify = pc.simplify
