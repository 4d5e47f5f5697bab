from . import sched_common as sc

NEED_PROC = True
RUNS = {'quick': 1200, 'thorough': 40000}
RULE = ('random programs of add_task/set_task_callable/get_results from 1-3 submitting threads on a '
        'serial, thread or process scheduler under a random schedule (thread switches at every '
        'synchronisation point and optionally every source line, virtual time), no faults; '
        'non-trivial: at least two tasks; distinct: event log and switch sequence differ')
SHRINK = ['faults']
COMPONENTS = {'real': ['mdp.parallel schedulers', 'worker program (in forked child processes)', 'pickle'],
              'simulated': ['thread scheduling', 'clock', 'pipes and process life cycle']}


def gen(rng):
    return sc.gen_case(rng, faults=False)


def run(case):
    return sc.run_case(case, {'S01'})


simplify = sc.simplify
