"""Writes the 'fixed' list of /verif/known_findings.json (findings are kept by hand)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {
 'joining the message results of a biflow': ('B01', 'merging modified the lists of the nodes or the caller in place, so that entries were repeated'),
 'the execution of a biflow without array': ('B01', 'result False for one chunk, error for several'),
 'biflows can be executed with an iterable of messages': ('B01', 'TypeError without targets'),
 'relative targets outside of a biflow': ('B01', 'targets below -1 silently led to nodes counted from the end'),
 'invalid results of binodes': ('B01', 'TypeError while composing the error message'),
 'the return value of a binode coroutine': ('B01', 'result wrapped in a one element tuple'),
 'execution continues behind a biflow node': ('B01', 'refused with an error'),
 'initial eigenvectors given to the constructor of online': ('O01', 'init_eigen_vectors / init_pca_vectors raised or were ignored'),
 'CCIPCANode does not claim': ('O01', 'batch training of CCIPCANode was advertised but always failed'),
 'OnlineTimeDiffNode keeps the previous sample': ('O01', 'batch training lost the last sample of the chunk'),
 'IncSFANode uses the first chunk only once': ('O01', 'the whitening node was trained twice with the first chunk; remove_mean=False failed'),
 'online layers are trained like online nodes': ('O01', 'online layers ignored the training type and did not count iterations'),
 'executing an online layer neither': ('O01', 'execution of an untrained online layer closed its training or trained nodes twice'),
 'online flow nodes can contain nodes which are already': ('O01', 'training of an online flow node with a trained node raised'),
 'a terminal offline node of an online flow is trained': ('O01', 'the terminal node was executed (and thereby closed) after the first chunk'),
 'online flows train all phases of a terminal': ('O01', 'only the first phase of a multi-phase terminal node was trained; terminal online nodes were closed'),
 'online flows accept a terminal trainable node in item': ('O01', 'flow[-1] = PCANode() was refused'),
 'in-place addition to an online flow': ('O01', 'a refused += left the added nodes in the flow or changed the list of the caller'),
 'container operations of circular online flows': ('O01', 'insert, append and slices raised or moved the output node'),
 'circular online flows can be inverted': ('O01', 'inverse raised TypeError'),
 'circular online flows refuse input and output nodes behind': ('O01', 'node_idx == len was accepted'),
 'the stored input of circular online flows is also': ('O01', 'set_stored_input raised with unknown input dimension'),
 'online layers and flow nodes without a random generator': ('O01', 'seeded generators of contained nodes were replaced by an unseeded one at the first training'),
 'clone layers execute nodes which depend': ('H01', 'CloneLayer(TimeFrames/TimeDiff) mixed the rows of different slices'),
 'the training of online flow nodes with empty stages': ('O01', 'stop_training raised TypeError for circular flow nodes with several iterations'),
 'slices with a step can be deleted': ('O01', 'del circular_flow[::2] raised ValueError after deleting'),
 'the nodes in copies of online flow nodes still': ('O01', 'a copy of an online flow node with a shared generator continued differently'),
 'progressinfo works with empty': ('U02', 'progressinfo raised UnboundLocalError for an empty sequence'),
 'the time estimate of progressinfo': ('U02', 'speed=last raised AttributeError or ZeroDivisionError if there was no progress between two items or loops were nested'),
 'progressinfo survives jumps': ('U02', 'OverflowError after a jump of the clock'),
 'the clean-up of a temporary directory does not follow': ('U01', 'the clean-up followed symbolic links and removed files outside of the directory'),
 'entries which vanish during the clean-up': ('U01', 'a vanishing or unreadable subdirectory stopped the clean-up, the rest was never removed'),
 'extensions of a node method also': ('K01', 'extensions of execute (e.g. caching) silently did not reach SFA2Node, CloneLayer and other classes deeper in the hierarchy'),
 'a cache directory which could': ('K01', 'after a failed activation of caching the next one wrote to the old directory or failed with AttributeError'),
 'removing an instance from caching': ('K01', 'an instance added twice stayed cached after it was removed'),
 'a failed first execution of a cached': ('K01', 'after a failed execution an equal node in training was served from the cache and stayed in training'),
 'a failed activation of the caching': ('K01', 'classes selected in a failed activation were cached after the next one'),
 'get_results of an ordered container': ('S01', 'get_results raised ValueError when no task had been submitted'),
 'a failing task or result container': ('S02', 'a failing task, result container or missing callable left its task open, get_results then blocked forever'),
 'set_task_callable accepts': ('S01', 'a plain function given to set_task_callable was called without a fork method'),
 'ThreadScheduler respects': ('S03', 'more than n_threads tasks ran at once; a failing task or thread start blocked the scheduler'),
 'process workers without callable': ('S01', 'state of the callable leaked from task to task in workers without caching'),
 'ProcessScheduler survives': ('S02', 'a dead worker lost its task and blocked get_results; a stale cached callable could be used for a task'),
 'ExecuteResultContainer does not': ('P02', 'forked nodes of an earlier execution were joined again into a later one'),
 'parallel training with an iterable': ('P03', 'training with an iterable of schedulers and only trained nodes raised; schedulers were shut down twice or never'),
 'a failed parallel training or': ('P03', 'after a failed training or execution the flow stayed in a parallel state and old results were mixed into the next run'),
 'parallel execution closes open': ('P02', 'parallel execution of a serially trained flow raised NotForkable or used blank nodes'),
 'nodes which inherit an': ('P01', 'NIPALSNode and VartimeSFANode lost their data in parallel training'),
 'parallel execution respects': ('P02', 'nodenr was ignored; manually handled execution tasks failed without a preceding execute'),
 'parallel layers fork and join': ('P02', 'nodes which need forking in execution lost their data inside layers'),
 'layers do not repeat': ('H01', 'layers with partly trained nodes went through empty training phases (an error in parallel training)'),
 'checkpoint functions of a BiCheckpointFlow need': ('C01', 'BiCheckpointFlow raised when a checkpoint function returned None'),
 'parallel checkpoint flows also call': ('C01', 'checkpoint functions which are false (e.g. empty collecting objects) were not called in parallel training'),
 'parallel checkpoint flows can be trained without': ('C01', 'ParallelCheckpointFlow.train without scheduler raised because of its own default callable class'),
 'parallel bidirectional checkpoint flows pass': ('C01', 'ParallelCheckpointBiFlow dropped stop messages and could not be trained without a scheduler'),
 'flows skip already trained nodes': ('C01', 'Flow.train raised TypeError for None as data of an already trained node (e.g. reloaded from a checkpoint)'),
 'CheckpointSaveFunction also saves': ('C01', 'CheckpointSaveFunction with stop_training destroyed the saved file of an already trained node and raised'),
 'nodes and flows can be saved with pickle': ('N01', 'save with protocol 0 raised TypeError'),
 'bidirectional flows do not modify': ('B01', 'message entries addressed to a node were removed from the messages of the caller, so that later training phases did not get them'),
 'stop messages also reach the last': ('B02', 'the stop message of the last node was lost in parallel training and valid stop_training results raised IndexError'),
 'cumulating classifiers accept single': ('N03', 'a single label or list of labels raised after the data had been stored, which made a later stop_training fail'),
 'copying a flow node does not': ('N01', 'FlowNode.copy replaced the list of nodes of the original by a Flow and emptied it temporarily'),
 'scikits nodes can be pickled': ('N01', 'no scikits-learn wrapper node could be saved'),
 'noise nodes can be saved with': ('N01', 'NoiseNode.save with protocol 0 raised TypeError'),
 'hit parade nodes can be': ('N01', 'a HitParadeNode with data could not be copied or pickled'),
 'a crash dump which cannot be': ('N02', 'an error while writing the crash dump replaced the original failure'),
 'flow exceptions keep the parent': ('N02', 'failures of nodes upstream of the trained node lost parent exception and dump name; no dump was written for failures inside flow nodes during training'),
 'FDANode refuses labels which are new': ('N03', 'a chunk with an unknown label in the second phase raised after it had entered the total covariance'),
 'IncSFANode starts a new episode only': ('O01', 'in incremental training every sample of the first chunk was taken as a new episode'),
 'ISFANode and TDSEPNode refuse': ('N03', 'a chunk too short for some time lags entered the other covariance matrices before it was refused'),
 'layers check training arguments': ('N03', 'a chunk refused by one node of a layer had already been used by the nodes before it'),
 'calls refused by a node do not': ('N04', 'execution or inversion refused because of open phases or malformed data closed the current training phase; an empty chunk fixed the input dimension'),
 'a refused execution of a layer': ('N04', 'a refused execution of a layer without output_dim closed training phases of some of its nodes'),
 'deactivating extensions restores': ('E01', 'deactivation restored static methods as functions, injected inherited methods into subclasses or lost own ones; colliding activations damaged the other extension'),
 'failing or repeated activations': ('E01', 'failing group activations deactivated unrelated extensions, failing teardowns left extensions listed as active, re-entered contexts did not deactivate'),
 'assigning an iterator to a flow slice': ('F01', 'flow[i:j] = iterator consumed the iterator in the type check and inserted no nodes'),
 'in-place addition to a flow': ('F01', 'flow += other changed the flow before the consistency check and changed the list of the caller'),
 'a flow node can consist of a single': ('H01', 'a flow node with a single expansion node of known dimensions could not be created'),
 'forked biflow nodes keep': ('B02', 'forked BiFlowNodes lost their node_id, so that targets and messages did not reach them in parallel runs'),
 'a clone bilayer can be switched': ('B02', 'setting use_copies to False on a trained CloneBiLayer raised AttributeError'),
 'parallel biflows refuse an empty': ('B02', 'a node which can not be forked was stopped without any training data if its iterable was empty or exhausted'),
 'mixed None and array results': ('B02', 'arrays followed by None as results of a parallel execution silently gave None'),
 'parallel checkpoint flows drop': ('B02', 'after parallel training a checkpoint flow kept the checkpoint functions and could not be saved'),
 'a parallel execution which can not be': ('B02', 'when the first chunk could not be read in setup_parallel_execution the flow stayed in the parallel state'),
 'training a binode without an array': ('B02', 'training phases of nodes which only got messages (or None data inside flow nodes) were regarded as not started and lost in parallel training'),
 'an untrained layer without output_dim': ('H01', 'executing an untrained layer whose nodes have no output_dim trained the nodes one by one (a clone layer only with the first slice)'),
 'refused dimensions and dtypes': ('H01', 'a refused output_dim, input_dim or dtype of a flow node or layer had already been given to some inner nodes, a layer accepted any output_dim while that of its nodes was unknown'),
 'flow nodes derive their output_dim': ('H01', 'flow nodes of nodes whose dimensions follow from each other (quadratic expansion and identity) could not be executed'),
 'the initial clusters of k-means': ('R01', 'k-means drew its initial clusters from the random module of Python, which seeding the generator of the package does not control; two runs from the same seed differed'),
 'a failing inspection leaves no tracing': ('I01', 'when the tracing failed (e.g. a disk error while the path was created) the wrapped methods stayed on the nodes'),
 'an inspection reports the error which': ('I01', 'a failing open of a slide was reported as UnboundLocalError / AttributeError'),
 'the debug mode of the inspection can write': ('I01', 'the error slide could not be written (missing context manager), the debug mode always failed'),
 'flows with supervised nodes can be inspected': ('I01', 'the training inspection dropped the additional training arguments'),
 'show_training does not change the lists': ('I01', 'the data lists of the caller were replaced by iterators'),
 'the size of a running coroutine': ('I01', 'show_size failed for nodes with suspended coroutines'),
 'snapshots of a previous training do not': ('I01', 'snapshots of an earlier, longer training in the same path were inspected as part of the new one'),
 'clone layers which use copies have': ('I01', 'the inspection of clone layers with copies raised an error'),
 'show_training takes the same data': ('I01', 'show_training refused None data, single arrays with messages and missing messages'),
 'the inspection of a training which failed after': ('I01', 'IndexError when the snapshot of the failed training was already completely trained'),
 'an inspection does not pick up snapshots from': ('I01', 'snapshots of other inspections in subdirectories of the path were mixed into the inspection'),
 'the snapshots of a training are inspected in their': ('I01', 'with more than ten snapshots they were sorted as text, so that nodes were traced with the data of others'),
 'flows which use a node more than once': ('I01', 'infinite recursion in the tracing wrappers of a node which occurs twice'),
}
try:
    d = json.load(open(here + '/known_findings.json'))
except IOError:
    d = {'findings': []}
out = []
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True)
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    k = [k for k in P if s[5:].startswith(k)]
    if len(k) != 1:
        print('no entry for', h, s)
        continue
    out.append('fixed: property=%s %s %s' % (P[k[0]][0], h, P[k[0]][1]))
d['fixed'] = out
json.dump(d, open(here + '/known_findings.json', 'w'), indent=1)
print(len(out), 'fixed,', len(d['findings']), 'open')
