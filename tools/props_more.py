V = 'beer/inference/'
prop('P05', 'The conjugate update is the exact Bayesian posterior, and stays in its family',
     'A natural-gradient step of size one from statistics computed on data gives the exact conjugate posterior of '
     'prior and data, a step of size r moves the natural parameters the fraction r of the way, and a step with no '
     'data leads to the prior. The prior is never modified, stored statistics replace the previous ones, slices of a '
     'parameter set update their own member only, and every registered observer is told once before and once after.',
     ['inputs', 'histories'], 'all priors, posteriors, statistics, learning rates, dimensions and set sizes',
     'tests run one step from one random draw of one family',
     [M + 'parameters.py'] + [D + f for f in ('dirichlet.py', 'gamma.py', 'isonormalgamma.py', 'normalgamma.py',
                                              'normalwishart.py', 'basedist.py')],
     [('ConjugateBayesianParameter', M + 'parameters.py')],
     note='Discharged for arbitrary sizes and values, against textbook posterior formulas (including Normal-Wishart '
          'with a symbolic matrix inverse).')
prop('P06', 'Coordinate-ascent scheduling updates every group in turn and nothing else',
     'The optimiser updates exactly one mean-field group per step, in a fixed cyclic order, so that over a full cycle '
     'every parameter is updated exactly once with the statistics stored for it; the combined optimiser steps exactly '
     'the optimisers it was given. Parameters outside the group of the step keep their value.',
     ['histories'], 'every sequence of steps, any number of groups, arbitrary statistics and learning rates',
     'tests run a couple of steps on a single model',
     [V + 'optimizers.py', M + 'parameters.py'],
     [('VBConjugateOptimizer', V + 'optimizers.py'), ('VBOptimizer', V + 'optimizers.py')],
     note='Discharged for 1-4 groups of 1-2 parameters (structure enumerated) with arbitrary values and sizes.')
prop('P07', 'The evidence lower bound, its sums and its statistics scale with the data',
     'The bound is (datasize / batch size) times the sum over frames of the expected log-likelihood, minus the '
     'divergence of posterior to prior once per parameter; sums of bounds add data terms and statistics, whichever '
     'way they are associated. Splitting the data into mini-batches and adding them up gives the bound and the '
     'update of the whole data.',
     ['inputs', 'histories'], 'all data, batch splits, data sizes and parameter values',
     'tests evaluate one bound on one batch; sums and rescaling are never compared with the whole',
     [V + 'objectives.py', M + 'basemodel.py'],
     [('EvidenceLowerBoundInstance', V + 'objectives.py'), ('kl_div_posterior_prior', M + 'basemodel.py')],
     note='Discharged for arbitrary data, sizes and an arbitrary conforming model.')
G = 'beer/graph.py'
prop('P08', 'Forward-backward inference yields the exact state and transition posteriors',
     'For any compiled graph and any per-frame log-likelihoods, the state and transition posteriors are those of the '
     'forward-backward recursions and the returned value is the per-frame log-marginal. Every posterior is a '
     'distribution, and the state posteriors are the marginals of the transition posteriors.',
     ['inputs'], 'every graph (any number of states, missing arcs included), any utterance length and likelihoods',
     'tests compare one small utterance with a copy of the recursions',
     [G, 'beer/utils.py'], [('CompiledGraph.posteriors', G), ('logsumexp', 'beer/utils.py')],
     note='Discharged for arbitrary utterance length and number of states by induction over the frames (loop '
          'contracts); equality with the enumeration of all the paths and long utterances are bounded checks.')
prop('P09', 'The decoded path is the best path of the graph',
     'For any compiled graph and any per-frame log-likelihoods, the decoded path has one state per frame and is the '
     'one defined by the Viterbi recursion: no path of the graph scores better. The graph and the likelihoods are '
     'left untouched.',
     ['inputs'], 'every graph, any utterance length and likelihoods',
     'tests compare one short utterance with a copy of the recursion',
     [G], [('CompiledGraph.best_path', G)],
     note='The Viterbi recursion and back-tracking are discharged for arbitrary lengths; optimality over all '
          'enumerated paths is a bounded check (T <= 5, S <= 3).')
prop('P10', 'HMM training statistics are state posteriors times frame statistics',
     'Training an HMM gives each emission exactly the statistics of the frames weighted by the posterior of the '
     'states which use it (Baum-Welch, Viterbi or forced by an alignment), pdf identifiers resolved through the '
     'graph, the acoustic scale applied to likelihoods only. Decoding and posteriors use the same graph, scale and '
     'mapping as training, an external inference graph replaces the model graph everywhere.',
     ['inputs'], 'every graph, state-to-pdf mapping, utterance length, emission likelihoods and scale',
     'tests build one left-to-right model where state and pdf identifiers coincide',
     [M + 'hmm.py', G, M + 'modelset.py'], [('HMM', M + 'hmm.py')],
     note='Discharged for arbitrary graphs, mappings, lengths and emission sets over the P08/P09 recursions.')
prop('P11', 'Mixture responsibilities are exact posteriors, statistics follow them',
     'The responsibilities of a mixture are the normalised products of expected weight and expected component '
     'likelihood, and the value returned is the log-normaliser of each frame. The statistics handed to components '
     'and weights are those weighted by these responsibilities (by the labels when given), and each parameter '
     'belongs to exactly one mean-field group.',
     ['inputs'], 'all data, weights, component likelihoods, number of frames and components',
     'tests compare one draw of one mixture of Normals',
     [M + 'mixture.py', M + 'categorical.py'], [('Mixture', M + 'mixture.py')],
     note='Discharged for arbitrary sizes and values over an arbitrary conforming component set.')
prop('P12', 'Composite model sets route likelihoods and statistics to the right member',
     'In a set of mixtures, a joint set, a reordered set or a repeated set, component i of the whole has the '
     'likelihood, receives the statistics and is returned by indexing as the member the composition defines for i. '
     'No responsibility is lost or counted twice, and slices of a set of mixtures are the mixtures they name.',
     ['inputs'], 'all sizes, responsibilities, orders (repeated members included) and likelihoods',
     'tests use sets whose members have equal sizes, in the identity order',
     [M + 'mixtureset.py', M + 'modelset.py'],
     [('MixtureSet', M + 'mixtureset.py'), ('JointModelSet, DynamicallyOrderedModelSet, RepeatedModelSet',
                                           M + 'modelset.py')],
     note='Discharged for arbitrary sizes over arbitrary conforming members (joint sets: three parts).')
prop('P13', 'Phone loops: transitions follow the weights, counts follow the posteriors',
     'Leaving a phone has the probability its self-loop leaves, shared among the next phones in proportion of their '
     'expected (unigram or bigram) weights, at creation and after every update of the weights; no other transition '
     'changes. The statistics of the weights are the expected numbers of times each phone is entered (after each phone '
     'for bigrams), and nothing at all when an alignment graph is imposed.',
     ['inputs', 'histories'], 'every graph, placement of the phones, weights posterior, utterance and acoustic scale',
     'tests do not cover phone loops at all',
     [M + 'phoneloop.py', M + 'hmm.py', M + 'categorical.py', M + 'categoricalset.py'],
     [('PhoneLoop, BigramPhoneLoop', M + 'phoneloop.py')],
     note='Discharged for 2 and 3 phones placed anywhere in graphs of any size, any utterance length and weights.')
prop('P14', 'Stick-breaking weights, updates and priors are those of the construction',
     'Expected weights and log-weights of a (hierarchical) stick-breaking categorical are those of the sticks broken '
     'in its current order. An update orders the sticks by decreasing counts and gives each one the exact Beta '
     'posterior of its count against the counts of the sticks after it, the hyper-prior its exact Gamma posterior; '
     'members of a hierarchical set follow the order and weights of their root.',
     ['inputs', 'histories'], 'every truncation, order, counts, concentration, learning rate and number of members',
     'tests do not cover the stick-breaking models',
     [M + 'categorical.py', M + 'categoricalset.py'],
     [('SBCategorical, SBCategoricalHyperPrior', M + 'categorical.py'), ('SBCategoricalSet', M + 'categoricalset.py')],
     note='Discharged for any truncation level, order and counts (creation: truncations 1, 2 and 4).')
prop('P15', 'Models are created as declared',
     'A model created from a mean, covariance, weights or concentration expects exactly those values (the covariance '
     'reduced to its diagonal, or to its largest variance, when so asked) with a prior worth the requested number of '
     'pseudo-observations. Prior and initial posterior agree up to the requested jitter, training never changes the '
     'prior nor the tensors the model was created from, and unknown covariance types are reported.',
     ['inputs'], 'all means, covariances (scalar, diagonal, full), strengths, sizes and dimensions',
     'tests create a few models at one dimension and do not look at the priors',
     [M + f for f in ('normal.py', 'normalset.py', 'categorical.py', 'categoricalset.py', 'gamma.py', 'mixture.py',
                      'mixtureset.py', 'phoneloop.py')],
     [('create()', M)],
     note='Discharged for all values and sizes (phone loops: 3 phones; hyper-prior: truncations 1 and 3).')
prop('P16', 'Subspace models score, update and track the models they generate',
     'Every sample of a transform maps embeddings affinely, and the parameters of each generated model are its own '
     'slice of the average pdf vectors of those images. The objective is the expected log-likelihood of the statistics '
     'of the models minus the divergence of the embeddings from their prior on the same samples; the prior receives the '
     'statistics of those embeddings and sets of subspaces the responsibility-weighted pdf vectors.',
     ['inputs', 'histories'], 'every dimension, number of samples, samples, embeddings, statistics and earlier calls',
     'the tests of the subspace models target an interface that no longer exists',
     [M + 'gsm.py', 'beer/dists/normaldiag.py', 'beer/dists/normal.py'],
     [('AffineTransform, LinearTransform, HierarchicalAffineTransform', M + 'gsm.py'),
      ('GSM, GSMSet, HierarchicalGSM', M + 'gsm.py'), ('SubspaceBayesianParameter(View)', M + 'gsm.py')],
     note='Discharged for all dimensions and numbers of samples, for models with a set-valued and a vector-valued '
          'parameter, and pairs of models.')
N_ = 'beer/nnet/'
prop('P17', 'Probabilistic layers and auto-encoders compute the densities they stand for',
     'The parameters of a probabilistic layer, the log-density of data under it and its samples with their log-density '
     'are those of the Normal or Bernoulli its networks parametrise. The objective of an auto-encoder is, frame by '
     'frame, the log-density of the data minus the divergence of the posterior from the prior, averaged over the same '
     'samples; the prior is trained with the expected statistics of these samples.',
     ['inputs'], 'all data, parameters, weights, samples, numbers of samples and dimensions, and any latent prior',
     'tests look at the shapes of the outputs, or run one batch',
     [N_ + 'problayers.py', M + 'vae.py', 'beer/dists/normaldiag.py'],
     [('NormalDiagonalCovarianceLayer & co', N_ + 'problayers.py'), ('VAE', M + 'vae.py')],
     note='Discharged for all sizes and values, with an arbitrary linear latent prior and arbitrary networks.')
prop('P18', 'Auto-regressive networks respect the order, and flows their change of variables',
     'Whatever its weights, connections, depth and width, an auto-regressive network outputs for each dimension a mean '
     'and a variance that do not depend on that dimension nor on any later one. A flow built on such steps returns '
     'samples with exactly the log-density of the initial Normal corrected by the determinants of its steps. '
     'Composite networks compute the composition, sum or residual they declare and do not modify their inputs.',
     ['inputs'], 'all weights, random connections, inputs, contexts, dimensions and widths',
     'tests check one drawn network at one input',
     [N_ + 'arnet.py', N_ + 'problayers.py', N_ + 'neuralnetwork.py', N_ + 'residual.py'],
     [('AutoRegressiveNetwork', N_ + 'arnet.py'), ('InverseAutoRegressiveFlow', N_ + 'problayers.py'),
      ('MergeTransform', N_ + 'neuralnetwork.py')],
     note='Discharged for all widths and dimensions, depths 1-3, flows of 0-3 steps, merges of 1-3 transforms.')
prop('P19', 'Compiled graphs carry the paths and weights of the graph they come from',
     'The initial, final and transition probabilities of a compiled graph are the summed weights of all the paths of '
     'non-emitting states between emitting states, normalised as documented with self-loops kept, and states map to '
     'their pdf identifiers. Normalising keeps the proportions of the arcs leaving a state, replacing a state by a '
     'graph connects all its arcs (self-loops included) to that graph, and neither changes any other graph.',
     ['inputs', 'histories'], 'every graph whose non-emitting states form no cycle, all positive weights',
     'no test builds a graph with non-emitting states, and the weights of the paths are never looked at',
     ['beer/graph.py'], [('Graph.compile, find_next_pdf_ids, find_previous_pdf_ids', 'beer/graph.py'),
                         ('Graph.replace_state, Graph.normalize', 'beer/graph.py')], level='other',
     note='Discharged for all positive weights on 31 fixed graph structures (7 written, 24 drawn: up to 4 emitting '
          'and 6 non-emitting states), 28 replacements; bounded in the structure, so not counted as a proof; 150 more '
          'drawn graphs are executed.')
prop('P20', 'Models list each of their parameters once, and use the ones they are given',
     'Every parameter of a model appears exactly once in its mean-field groups, which keep together what its parts '
     'keep together, and selections by type or condition return every match in order. A model whose parameters were '
     'replaced, however deep they are, computes what one built from the new parameters does and keys its statistics by '
     'them. Composite models hand data to their components untouched, and clearing a cache reaches every part.',
     ['inputs', 'histories'], 'every composition of sets, mixtures and joint sets, all parameters, data and replacements',
     'tests look at the groups of one Normal and never replace a parameter',
     [M + f for f in ('basemodel.py', 'mixture.py', 'mixtureset.py', 'modelset.py', 'hmm.py', 'phoneloop.py')],
     [('Model.replace_parameters, bayesian_parameters, clear_cache', M + 'basemodel.py'),
      ('mean_field_factorization, sufficient_statistics', M)],
     note='Discharged for all sizes and values on ten compositions (up to three levels) and up to three groups per part.')
prop('P21', 'Gradients of objectives and densities are those of the values computed',
     'Whatever a model, layer, network or bound computes from a trainable parameter, from the data or from the parts of '
     'the model, the gradient obtained by back-propagation is the derivative of that value; with latent variables '
     'it is the posterior-weighted sum of the gradients of the components. A bound sends back minus its gradient, or '
     'none when not asked, every trainable parameter and only those are registered, and neither statistics nor the vectors a subspace model writes carry a gradient.',
     ['inputs', 'histories'], 'all data, parameters, weights, samples, sizes, labels, paths, scales and compositions',
     'tests never look at a gradient; a detached term changes no value',
     [M + f for f in ('gsm.py', 'vae.py', 'mixture.py', 'mixtureset.py', 'hmm.py', 'modelset.py', 'parameters.py')] +
     [N_ + f for f in ('problayers.py', 'arnet.py', 'neuralnetwork.py', 'residual.py')] +
     ['beer/inference/objectives.py', 'beer/dists/normaldiag.py', 'beer/dists/normal.py'],
     [('expected_log_likelihood', M), ('EvidenceLowerBoundInstance.backward', 'beer/inference/objectives.py'),
      ('_MeanLogDiagCov, _MeanLogDiagLL', M + 'gsm.py'), ('samples_and_llh', N_ + 'problayers.py')],
     note='Discharged for all sizes and values: values are followed through what cuts them off the autograd graph '
          '(detach, no_grad, item, ...); the derivatives of the torch operators are trusted, and compared with finite '
          'differences on every run.')
prop('P22', 'Acoustic features are those their definition gives for every signal',
     'The spectrum of a frame is the magnitude of the Fourier transform of its windowed, pre-emphasised samples, with '
     'one frame for every shift that fits in the signal and no sample outside of it read. The filters are triangles '
     'between points equally spaced on the perceptual scale between the limits, for the sampling rate of the signal; '
     'derivatives are regressions over a window with the ends repeated, and no function changes the signal or features '
     'it is given.',
     ['inputs'], 'all signals, lengths, dimensions, sampling rates, limits, emphases and windows',
     'the only tests compare with a reference of one signal, and fail',
     ['beer/features.py'],
     [('short_term_mspec, fbank, create_fbank, add_deltas', 'beer/features.py')],
     note='Discharged for signals of any length, any dimension and any values on six settings of frames, one to three '
          'filters and six sets of windows; usual settings are also executed (bounded).')
C_ = 'beer/cli/subcommands/'
prop('P23', 'Training and decoding commands do what their options and files say',
     'A data set gives every utterance of its archive once, with its own features, and the mean, variance and number of '
     'all frames. Accumulating the bounds of the listed utterances in any number of jobs and then updating is one '
     'natural gradient step with the statistics of all their frames scaled to the size of the data set, one group of '
     'parameters at a time; training on one machine makes that step for every batch. The posterior of a phone adds up '
     'those of all its states, decoding prints the phones of the best path, each utterance has its own alignment '
     'graph, and what is missing is reported and skipped.',
     ['inputs', 'histories'], 'all features, lengths, models, learning rates, scales and listings of utterances',
     'no test runs a command',
     ['beer/cli/dataset.py'] + [C_ + f for f in ('dataset/create.py', 'hmm/accumulate.py', 'hmm/update.py',
                                                 'hmm/train.py', 'hmm/posteriors.py', 'hmm/decode.py')],
     [('Dataset', 'beer/cli/dataset.py'), ('main', C_ + 'hmm/accumulate.py'), ('main', C_ + 'hmm/update.py'),
      ('main', C_ + 'hmm/train.py'), ('state2phone', C_ + 'hmm/posteriors.py'), ('main', C_ + 'hmm/decode.py')],
     note='Discharged for all values and lengths on listings of up to three utterances out of three, four jobs and two '
          'groups of parameters; the reading of the best path is a bounded check.', level='other')
prop('P24', 'The graphs, models and features that commands write follow their configuration',
     'The phone models made from a configuration have its topology, consecutive emissions of their own, and mixtures '
     'around the mean and variance of the data, whatever the order of units and arcs in the files. The graph of a phone '
     'loop allows every sequence of units that begins and ends in the chosen group; decoding and alignment graphs '
     'replace every phone by its model, with its first and last states, and phone loops get their prior, boundaries '
     'and transitions. The features of every file are filtered, compressed, transformed, augmented and normalised as '
     'configured, one output per utterance.',
     ['inputs'], 'all weights, statistics, strengths, signals and settings, several inventories of phones',
     'no test runs a command',
     [C_ + f for f in ('hmm/mkphones.py', 'hmm/mkphoneloopgraph.py', 'hmm/mkdecodegraph.py', 'hmm/mkphoneloop.py',
                       'hmm/mkphoneloopbigram.py', 'hmm/mkaligraph.py', 'hmm/phonelist.py', 'features/extract.py',
                       'features/archive.py')],
     [('create_unit_graph, create_pdfs', C_ + 'hmm/mkphones.py'), ('main', C_ + 'hmm/mkdecodegraph.py'),
      ('main', C_ + 'hmm/mkphoneloop.py'), ('create_graph_from_seq', C_ + 'hmm/mkaligraph.py'),
      ('main', C_ + 'features/extract.py')],
     note='Discharged for all values and lengths on four inventories, three topologies, eight chains of feature '
          'processing and five sets of transcriptions.', level='other')

prop('P25', 'Subspace phone loops are created, initialised and trained as asked',
     'The commands put the units of the chosen group, and no others, in a subspace of the given dimension around a '
     'standard prior, one per class or per language, share the counts of each unit equally among its states and '
     'components, and give every unit the vectors of its own posterior. Training makes one step per epoch on the bound '
     'of all those units with the numbers of samples asked for, moves every parameter at its own learning rate but '
     'those to be left alone, and resumes from a saved state. A prior taken from another model is its posterior with '
     'the given variance; posteriors, units, labels and phone loops are written together and remain usable.',
     ['inputs', 'histories'], 'all statistics, posteriors, variances, rates and embeddings, several inventories and languages',
     'no test runs a command',
     [C_ + f for f in ('shmm/mksphoneloop.py', 'shmm/train.py', 'shmm/init.py', 'shmm/setprior.py',
                       'hshmm/mksphoneloop.py', 'hshmm/train.py', 'hshmm/init.py')],
     [('main', C_ + f) for f in ('shmm/mksphoneloop.py', 'shmm/train.py', 'shmm/setprior.py',
                                 'hshmm/mksphoneloop.py', 'hshmm/train.py', 'hshmm/init.py')],
     note='Discharged for all values on up to three inventories and two languages, up to three epochs; models under '
          'training stand in for the subspace models (P16, P21).', level='other')

prop('P26', 'An update of the posterior never decreases the bound',
     'For normal and categorical models and mixtures of them, a conjugate update of a group of parameters from the '
     'statistics of the bound, at any learning rate up to one, raises the bound by divergences between the old and the '
     'new posterior, and by how far the log-probability of the data is above its tangent: it never decreases it. '
     'Training such a model on all the data therefore improves its bound at every step, and parameters outside of the '
     'updated group stay as they are.',
     ['inputs', 'histories'], 'all data, priors, posteriors, learning rates in (0, 1], dimensions and numbers of components',
     'tests make single updates and look at no bound before and after',
     ['beer/inference/objectives.py', 'beer/inference/optimizers.py', 'beer/models/parameters.py',
      'beer/models/mixture.py', 'beer/models/mixtureset.py', 'beer/models/normal.py', 'beer/models/normalset.py',
      'beer/models/categorical.py', 'beer/models/categoricalset.py', 'beer/dists/basedist.py'],
     [('evidence_lower_bound', 'beer/inference/objectives.py'),
      ('natural_grad_update', 'beer/models/parameters.py'), ('kl_div', 'beer/dists/basedist.py'),
      ('Mixture.expected_log_likelihood, accumulate', 'beer/models/mixture.py')],
     note='The inequality is a theorem of Lean (lemmas/ascent.lean) whose hypotheses are obligations discharged from '
          'the code; that the closed form of a divergence is not negative (Gibbs) is assumed.')
