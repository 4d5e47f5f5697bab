from . import sched_common as sc

NEED_PROC = True
RUNS = {'quick': 1500, 'thorough': 40000}
RULE = ('as S01 with thread and process schedulers only and task durations mixing very short and long '
        'tasks; the number of running tasks is followed event by event; non-trivial: at least two tasks')
SHRINK = ['faults']
COMPONENTS = {'real': ['mdp.parallel schedulers', 'worker program (in forked child processes)', 'pickle'],
              'simulated': ['thread scheduling', 'clock', 'pipes and process life cycle']}


def gen(rng):
    return sc.gen_case(rng, faults=False, kinds=('thread', 'thread', 'process'))


def run(case):
    return sc.run_case(case, {'S03'})


simplify = sc.simplify
