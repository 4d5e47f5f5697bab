from . import sched_common as sc

NEED_PROC = True
LEVEL = 'fault_enumeration'
RUNS = {'quick': 1500, 'thorough': 40000}
RULE = ('as S01, with raising tasks, workers dying before/during/after a task or in the middle of the '
        'answer, garbage answers and failing thread starts at random points, followed by a fault-free '
        'round that must work; non-trivial: at least two tasks')
SHRINK = ['faults']
COMPONENTS = {'real': ['mdp.parallel schedulers', 'worker program (in forked child processes)', 'pickle'],
              'simulated': ['thread scheduling', 'clock', 'pipes and process life cycle']}


def gen(rng):
    return sc.gen_case(rng, faults=True)


def run(case):
    return sc.run_case(case, {'S02'})


simplify = sc.simplify
