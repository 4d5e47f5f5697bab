from . import pflow_common as pc

NEED_PROC = True
RUNS = {'quick': 1600, 'thorough': 40000}
RULE = ('random trained flows executed on a scheduler shared between flows and raw tasks, custom '
        'callables, nodenr, arrays and iterators, execute forks, with random schedules, worker '
        'delays and split pipe messages, compared with serial execution; distinct: event log and '
        'switch sequence differ')
SHRINK = ['faults', 'ops']
COMPONENTS = {'real': ['mdp.parallel flows, nodes, schedulers', 'mdp nodes, layers, flow nodes',
                       'worker program (in forked child processes)', 'pickle'],
              'simulated': ['thread scheduling', 'clock', 'pipes and process life cycle']}


def gen(rng):
    return pc.gen(rng, 'P02')


run = pc.run_case
simplify = pc.simplify
