#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=['src/'+f for f in files],mechanism=mech))
    P.append(d)
H=['histories','inputs']
p('C01','Bloom filter never forgets an added element',
  'After an element has been added to a Bloom filter, looking that element up answers true, whatever else was added before or after, until the filter is cleared or its bits are replaced. A freshly built or cleared filter answers false to every lookup, and replacing the bits makes later lookups answer from exactly the bits given.',
  H,'every element, every family of hash functions returning an index below the bit count, every sequence of operations',
  'The tests add a few fixed values with two fixed hashes; the guarantee is over all hash values, collisions and later additions.',
  ['bloom_filter.hpp'],['add/lookup must address the same bit for the same hash value, add only ever sets bits, lookup consults every hash'])
p('C02','Cuckoo filter: a successful add is found until it is removed',
  'When adding an element to a cuckoo filter reports success, looking the element up answers true, and every element successfully added before is still found, including when the insertion had to relocate stored entries. An add that fits in a free slot succeeds.',
  H,'every fill level, every fingerprint and bucket choice, every random outcome during relocation',
  'Tests fill a filter with one pseudo-random sequence; losing an entry during relocation needs a particular full pair of buckets.',
  ['cuckoo_filter.hpp'],['add/search candidate buckets', 'get_entry/set_entry bit layout', 'kick loop'])
p('C03','Cuckoo filter: remove and clear take away exactly what they should',
  'Removing an element that is present removes one stored copy of it and disturbs nothing else: every other stored element is still found. Removing an absent element changes nothing, and after a clear, as after construction, nothing is found.',
  H,'every filter content and every element','Tests remove elements one at a time from one filter content.',
  ['cuckoo_filter.hpp'],['remove', 'clear', 'set_entry frame'])
p('C04','Reservoir sampling reports truthfully where an element went',
  'Adding an element to a reservoir returns either -1, leaving the sample unchanged, or an index inside the reservoir at which exactly that element now is, every other slot being unchanged. The first elements fill the slots in order without ever being refused, and the plain reservoir counts every element offered while the exponential one counts the filled slots.',
  H,'every stream, every random sequence with values in the documented range (both ends included)',
  'Tests use one generator that practically never hits the ends of the range; the exponential variant has no test.',
  ['reservoir_sampling.hpp'],['sample_index/add in both classes'])
p('C05','Chained reservoir: obsolete data gives way to its successor, nothing else moves',
  'Declaring a timestamp obsolete makes every slot whose element is not newer than it show the first newer element of its own chain, if there is one, with the rest of the chain still following in order. A slot whose element is newer than the timestamp, or which has no newer successor, keeps its element.',
  H,'every chain content and every timestamp','The only test checks a single chain position with dense timestamps; deeper chains and repeated expiry are not reached.',
  ['chained_reservoir.hpp'],['obsolete', 'shift_chain', 'push_on_chain', 'clear_chain'])
p('C06','LTC hands out exactly the points that start its segments',
  'A compressed series starts at the first point given; adding a point answers true exactly when the current segment had to be closed, and then the point to transmit is the start of the closed segment. Adding a point that answers false leaves the point to transmit unchanged, and after a close the new segment starts at the time of the previously added point and already covers the newly added point.',
  H,'every series of timestamps and values, every epsilon','Tests replay fixed series with unit spacing and compare the number of points.',
  ['ltc.hpp'],['add/need_transmit state machine', 'get_value_to_transmit'])
p('C07','MC-NN keeps a consistent set of labelled clusters',
  'The reported number of clusters is the number of clusters actually in use and never exceeds the capacity; every cluster in use carries a label seen in training and at least one data point. Prediction answers the label of a nearest cluster in use, and the empty class exactly when no cluster is in use.',
  H,'every training sequence, every cleaning method, error threshold and performance threshold',
  'Tests train a handful of points with the default method; recycling, cleaning and splitting at full capacity are not reached.',
  ['mc_nn.hpp'],['split/clean_low_performance_clusters/train and the active flags and counter'])
p('C08','Naive Bayes training touches only the trained label',
  'Training a data point changes the statistics of its own label only and every feature of it, and the total weight always equals the sum of the label weights. The scores reported for a prediction contain, for each label, the log prior plus the log densities of all features, and the predicted label has the highest reported score.',
  H,'every label, every data point and weight','Tests check a few final predictions; cross-label interference shows only for particular label/feature layouts.',
  ['naive_bayes.hpp'],['counters[label*feature_count+i]', 'predict'])
p('C09','Perceptron: every operation agrees on where a weight lives',
  'The weights written for one neuron, one layer or the whole network are the ones read by the forward pass and adjusted by backpropagation for that neuron and input, the bias being the last of each neuron. Setting weights changes only those weights, the forward pass changes no weight, and all of this holds for every network shape that fits the memory given.',
  ['inputs','configurations'],'every layer shape, weight, input and expected output','Tests use one 3-layer shape and compare a few outputs.',
  ['perceptron.hpp'],['index arithmetic in set_weights x3, feed_forward, backpropagate'])
p('C10','Metrics tally exactly what they were told',
  'Every reported prediction is tallied once, as an error exactly when label and prediction differ (for kappa: in the cell of that pair); penalties add exactly their amount; a reset metric is indistinguishable from a new one; a copy has the same tallies. Scores are the documented function of the tallies and of the ratio and invert options.',
  H,'every label pair, every sequence of updates, penalties and resets, every option','Tests check a few totals for fixed sequences.',
  ['metrics.hpp'],['update/increase_error/reset/operator=/score of each metric class'])
p('C11','Hoeffding tree: leaves own disjoint statistics, failed splits change nothing',
  'All leaves of the tree keep their statistics in separate, in-range parts of the memory given, apart from the nodes. When there is no room for two more nodes a split is refused: the node stays a leaf with its statistics, training reports failure and the tree remains usable.',
  H,'every data stream, every number of bins, every memory size that holds the root','Tests stop before the second split and never exhaust memory.',
  ['hoeffding_tree.hpp'],['placement new', 'buffer_offset/buffer_preset', 'split', 'train'])
p('C12','Mondrian forest: the node pool always holds well-formed trees',
  'After any sequence of trainings and predictions every tree is a proper binary tree: parents and children refer to each other, no node is in two trees or used without being reachable, nodes not in a tree are free. When the pool is exhausted training goes on without corrupting a tree or losing a node.',
  H,'every stream, every random sequence, every pool size','There is no test of the Mondrian forest.',
  ['mondrian.hpp'],['available_node', 'extend_block', 'sample_block', 'train_tree'])
p('C13','Coarse Mondrian forest: trees well-formed and free-node count exact',
  'After any sequence of trainings, predictions, trims, leaf splits and resets, under every extension and trimming mode, every tree is a proper binary tree whose nodes refer to each other, and the number of free nodes the forest believes in equals the number of nodes in no tree.',
  H+['configurations'],'every stream, every random sequence, every mode, every pool size','There is no test of the coarse Mondrian forest.',
  ['mondrian_coarse.hpp'],['node_available accounting in extend_block*, extend_node, split_node, split_barycenter, split_leaf, cut_block, node_reset'])
p('C14','Unbound Mondrian forest: nodes linked both ways, counted and freed once',
  'After any training sequence every tree of the unbound forest is a proper binary tree with matching parent and child links, its node counts equal the nodes in existence and each internal node\'s label counters reflect its children. Destroying a forest frees each of its nodes exactly once.',
  H,'every stream and random sequence','There is no test of the unbound Mondrian forest.',
  ['mondrian_unbound.hpp'],['extend_block relinking', 'update_counters', 'destructors'])
p('C15','Classifiers answer a valid label and fill the scores asked for',
  'Every classifier\'s prediction is a label between 0 and the label count minus one (or the documented empty class), for a trained or untrained model. When the caller passes an array for the scores, every entry is written, and the predicted label is one with the highest score.',
  H,'every model state and data point','Tests look at predictions of a few trained models and never pass scores to the forests.',
  ['hoeffding_tree.hpp','mondrian.hpp','mondrian_unbound.hpp','mondrian_coarse.hpp','naive_bayes.hpp','mc_nn.hpp'],['predict functions'])
p('C16','A data point reaches the same leaf in training and in prediction',
  'In every tree classifier, each operation that walks a data point down the tree takes the left branch exactly when the value of the split feature is not above the split value, so a point equal to the split value is trained, counted and predicted in the same leaf.',
  H,'every tree and data point, in particular values equal to a split value','Ties with a split value practically never occur in the tests\' data.',
  ['hoeffding_tree.hpp','mondrian.hpp','mondrian_unbound.hpp','mondrian_coarse.hpp'],['sort_in_leaf', 'train', 'predict_tree', 'extend_block*', 'get_leaf', 'pass_data_point_down', 'count_fe_down', 'point_go_left'])
p('C17','Asking a question never changes the model',
  'Lookups, predictions, scores, counts and the other queries leave the model as it was: no later answer or training step can depend on how often a query was made. The bounded Mondrian forests may refresh the label counters of internal nodes during a prediction, the perceptron its neuron outputs; nothing else.',
  H,'every query on every model state','Tests call each query once or twice and do not compare the model state.',
  ['bloom_filter.hpp','cuckoo_filter.hpp','reservoir_sampling.hpp','chained_reservoir.hpp','ltc.hpp','mc_nn.hpp','naive_bayes.hpp','perceptron.hpp','metrics.hpp','hoeffding_tree.hpp','mondrian.hpp','mondrian_unbound.hpp','mondrian_coarse.hpp'],['write effects of query operations'])
p('C18','Embedded-friendly: no heap, no I/O, no exceptions',
  'The fixed-memory structures never allocate from the heap, throw, or perform input or output, whatever operation is called; the chained reservoir allocates only through the function the user supplies. Only the coarse forest prints, and only in the operations meant for printing or when node printing was asked for.',
  ['inputs','histories'],'every operation of every fixed-memory class and every path through it','Tests run on a desktop where a hidden allocation or print goes unnoticed.',
  ['bloom_filter.hpp','cuckoo_filter.hpp','reservoir_sampling.hpp','chained_reservoir.hpp','ltc.hpp','mc_nn.hpp','naive_bayes.hpp','perceptron.hpp','metrics.hpp','hoeffding_tree.hpp','mondrian.hpp','mondrian_coarse.hpp','utils.hpp'],['call graph of every public operation'])
p('C19','Reproducible and independent instances',
  'All randomness comes from the function the user supplies, and the behaviour of an instance depends only on its own history, the user\'s functions and its arguments: no clock, no global random generator, no state shared between instances. The reservoir-sampling metric\'s documented shared sample counter is the only exception.',
  H,'every pair of instances and interleaving of their operations','Tests use one instance at a time and one generator.',
  ['bloom_filter.hpp','cuckoo_filter.hpp','reservoir_sampling.hpp','chained_reservoir.hpp','ltc.hpp','mc_nn.hpp','naive_bayes.hpp','perceptron.hpp','metrics.hpp','hoeffding_tree.hpp','mondrian.hpp','mondrian_unbound.hpp','mondrian_coarse.hpp','utils.hpp'],['globals and static locals reachable from any operation', 'external callees'])
p('C20','No access outside the memory an instance owns',
  'No operation reads or writes outside the storage of the instance, the arrays the caller passed (at their documented sizes) and its own locals, and no operation dereferences a null pointer, for every argument within the documented ranges.',
  H+['configurations'],'every operation, every reachable state, every argument and user-function result within its documented range','A stray access of a few bytes does not fail a test; most boundary states are not reached.',
  ['bloom_filter.hpp','cuckoo_filter.hpp','reservoir_sampling.hpp','chained_reservoir.hpp','ltc.hpp','mc_nn.hpp','naive_bayes.hpp','perceptron.hpp','metrics.hpp','hoeffding_tree.hpp','mondrian.hpp','mondrian_coarse.hpp','utils.hpp'],['array indexing and node indices'])
p('C21','Nothing is decided on uninitialised memory',
  'A newly constructed instance has every piece of state its operations read defined by the constructor or by the operation that first uses it; no operation branches on, returns, or stores in the model a value that was never set.',
  H+['configurations'],'every construction and every following sequence of operations','Fresh stack or zeroed memory makes an uninitialised read look right in a test.',
  ['bloom_filter.hpp','cuckoo_filter.hpp','reservoir_sampling.hpp','chained_reservoir.hpp','ltc.hpp','mc_nn.hpp','naive_bayes.hpp','perceptron.hpp','metrics.hpp','hoeffding_tree.hpp','mondrian.hpp','mondrian_unbound.hpp','mondrian_coarse.hpp'],['constructors, reset functions, locals of extend/split functions'])
p('C22','Every header stands alone and all headers combine',
  'Each header compiles on its own in standard C++11 and later with g++ and clang++, any set of headers can be included in one translation unit in any order, and several translation units of a program may each include them and link.',
  ['configurations','programs'],'every subset and order of headers, several translation units, language levels from C++11','The test program is a single translation unit that includes each header once after the standard headers.',
  ['bloom_filter.hpp','cuckoo_filter.hpp','reservoir_sampling.hpp','chained_reservoir.hpp','ltc.hpp','mc_nn.hpp','naive_bayes.hpp','perceptron.hpp','metrics.hpp','hoeffding_tree.hpp','mondrian.hpp','mondrian_unbound.hpp','mondrian_coarse.hpp','utils.hpp'],['include guards, includes, linkage of definitions'])
p('C23','Memory stays within the size asked for',
  'Wherever a size is a template parameter, the storage reserved for the data does not exceed it and the object adds only a fixed overhead: nodes and tree records of the forests, nodes and counters of the Hoeffding tree, weights and outputs of the perceptron, bits of the filters, slots of the reservoirs and clusters.',
  ['configurations'],'every instantiation','Tests never look at sizes.',
  ['bloom_filter.hpp','cuckoo_filter.hpp','reservoir_sampling.hpp','mc_nn.hpp','perceptron.hpp','hoeffding_tree.hpp','mondrian.hpp','mondrian_coarse.hpp'],['array extents derived from template parameters'])
p('C24','Copies carry the whole state',
  'Wherever a class defines how it is copied or assigned, the copy has every data member of the original, so moving a node or metric to another slot loses nothing; classes that own resources cannot be copied into sharing them.',
  ['inputs','histories'],'every copy operation of every class and node type','Tests hardly copy anything, and a member dropped in a copy is usually still zero.',
  ['metrics.hpp','mc_nn.hpp','mondrian.hpp','mondrian_coarse.hpp','mondrian_unbound.hpp','hoeffding_tree.hpp'],['user-provided copy constructors and assignment operators'])
p('C25','Training reports success exactly when the data point was taken in',
  'Training answers true when every part of the model (every tree, the cluster, the split the data asks for) could take in the data point and false when some part could not for lack of room. A refusal damages nothing: the model stays consistent, keeps answering and goes on learning.',
  H,'every model state, in particular full memory','Tests never fill a model and ignore the returned value of the forests.',
  ['hoeffding_tree.hpp','mc_nn.hpp','mondrian.hpp','mondrian_unbound.hpp','mondrian_coarse.hpp'],['train/train_tree return values'])
p('C26','Hoeffding tree: leaf statistics and suggested splits follow the data',
  'A leaf counts every data point trained in it once, per label, feature and bin, starting from nothing. The information gain of a limit is the label entropy of the leaf minus the weighted entropies of its two sides. Training suggests a split only on the limit with the highest average gain, together with the feature of that limit, and the limits of new leaves divide the box of the points seen evenly.',
  H,'every stream, every number of features, bins and labels','One test compares three gains on one data set.',
  ['hoeffding_tree.hpp'],['Node::train','compute_information_gain','compute_entropy','select_split_values'])
p('C27','Utility functions compute what they document',
  'Picking from a distribution returns the index whose interval the random number falls into and never an index without a chance. Turning an array into probabilities accumulates the shares of the values. The index of the maximum is that of the first of the highest values. Shuffling keeps every element, the exponential law has the rate asked for, and minimum, maximum, absolute value, rounding and integer division mean what they say.',
  ['inputs'],'every array, size and random number','Tests reach the helpers only through the classifiers and a few random draws.',
  ['utils.hpp'],['pick_from_distribution','turn_array_into_probability','index_max','rand_exponential','shuffle','min','max','abs','round','div_int'])
p('C28','Every operation returns: defined divisions and conversions, no failed assertion, no loop without a way out',
  'For every argument within the documented ranges no operation divides an integer by zero, shifts out of range or converts a floating-point value to an integer type it does not fit, none fails an internal assertion, throws or aborts, and none gets into a loop it cannot leave.',
  H+['configurations'],'every operation, every reachable state, every argument and user-function result within its documented range','A conversion that does not fit passes silently, and tests never reach the states in which a loop has no way out.',
  ['bloom_filter.hpp','cuckoo_filter.hpp','reservoir_sampling.hpp','chained_reservoir.hpp','ltc.hpp','mc_nn.hpp','naive_bayes.hpp','perceptron.hpp','metrics.hpp','hoeffding_tree.hpp','mondrian.hpp','mondrian_unbound.hpp','mondrian_coarse.hpp','utils.hpp'],['loops, divisions, conversions and assertions of every operation'])
p('C40','Reservoir samples are statistically uniform (or exponentially biased)',
  'Each element of the stream ends up in the sample with the documented probability.',
  H,'every stream length, over the distribution of the generator','A statistical test samples a few lengths.',
  ['reservoir_sampling.hpp','chained_reservoir.hpp'],['thresholds and index choice'])
p('C41','LTC approximation error stays within epsilon',
  'Every original point is within epsilon of the line between the transmitted points around it.',
  ['inputs'],'every numeric series','Tests check a few series.',['ltc.hpp'],['need_transmit slope arithmetic'])
p('C42','Classifiers learn: accuracy, convergence and confidence bounds',
  'With enough data the classifiers reach the accuracy of their published algorithms and splits are chosen with the configured confidence.',
  H,'every data distribution','Tests check tiny data sets.',['hoeffding_tree.hpp','mondrian.hpp','mc_nn.hpp','perceptron.hpp'],['information gain, posterior means, gradient steps'])
p('C43','False-positive rates of the filters stay near their theoretical values',
  'The share of absent elements answered true matches the theory for the chosen sizes.',
  ['inputs'],'every hash family and fill level','One test measures one configuration.',['bloom_filter.hpp','cuckoo_filter.hpp'],['hash use'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P), max(len(d['title']) for d in P))
