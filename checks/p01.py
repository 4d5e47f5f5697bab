from . import pflow_common as pc

NEED_PROC = True
RUNS = {'quick': 1600, 'thorough': 40000}
RULE = ('random flows of recording nodes and real algorithms (layers, clone layers, same-input '
        'layers, nested flow nodes, pretrained parts, supervised and multi-phase training) trained '
        'in parallel on a serial, thread or process scheduler (directly, via a list or generator of '
        'schedulers or by handing out tasks in random order) under a random schedule, compared node '
        'by node with serial training; data whose result changes under 1e-9 perturbations are '
        'skipped; distinct: event log and switch sequence differ')
SHRINK = ['faults', 'ops']
COMPONENTS = {'real': ['mdp.parallel flows, nodes, schedulers', 'mdp nodes, layers, flow nodes',
                       'worker program (in forked child processes)', 'pickle'],
              'simulated': ['thread scheduling', 'clock', 'pipes and process life cycle']}


def gen(rng):
    return pc.gen(rng, 'P01')


run = pc.run_case
simplify = pc.simplify
