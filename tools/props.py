"""The listed properties. tools/gen.py writes properties.jsonl and MANIFEST.json from this table.
Each entry: id, title, statement, over, quantifier text, why tests cannot settle it, files, mechanisms [(name, where)], level note, technique."""
S = 'src/fock_state_circuit/'
NL = S + 'nodes/'
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note, technique='property-based testing: '):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                      technique=technique))


P('P01', 'Component names are a bijection with photon numbers, in a fixed basis order',
  'For every length of the Fock state and number of channels, names, photon number lists and basis indices of optical components are in one-to-one '
  'correspondence: positional notation with a fixed number of digits per channel, channel 0 left (or right, when so configured), index counting with '
  'channel 0 fastest. The correspondence, the list of all names or values, and the basis states a circuit returns do not depend on which names were looked up before, '
  'nor on what the circuit was used for; names and values outside the basis are reported as absent or raise.',
  ['inputs', 'histories', 'configurations'],
  'All geometries up to 700 basis states for exhaustive histories (more for lookups), one to six channels, one to three digits per channel, both orders; any sequence of lookups.',
  'Tests look up a few names in one or two geometries, in one order of calls; the names are cached, so the property is about every history of lookups.',
  [NL + 'nodelist/optical_values_component_names.py', S + 'circuit.py'],
  [('lazily filled two-way table of names and values', NL + 'nodelist/optical_values_component_names.py'), ('basis() and default collections', S + 'circuit.py')],
  'Random histories of lookups against positional notation computed independently; basis and default collection of used circuits against the standard order.',
  'property-based testing: model-based histories of lookups against positional notation')

P('P02', 'Optical evolution agrees with the quantum mechanics of bosons',
  'Every two-channel optical node (wave plates, beam splitters, swaps, phase shifts, custom 2x2 unitaries) transforms any superposition of photon number '
  'states exactly as its 2x2 matrix transforms the creation operators of the two channels, for any channels and any order of the arguments, as long as the two channels '
  'together hold fewer photons than the length of the Fock state (a phase shift: always). For states with fewer photons in total than the length of the Fock state, a sequence of nodes '
  'gives the transition amplitudes that follow from permanents of the product of the mode matrices.',
  ['inputs', 'programs', 'configurations'],
  'All pure states, nodes, channel choices and angles, lists of up to six nodes, Fock lengths up to 12, two to five channels.',
  'Tests sample a few gates with one or two photons in channels 0 and 1; the property ranges over states, angles, channel choices, photon numbers and sequences.',
  [NL + 'optical_nodes.py', NL + 'nodelist/node_list.py', S + 'circuit.py'],
  [('Fock matrix from 2x2 matrix', NL + 'nodelist/node_list.py'), ('embedding in the channels of the circuit and evaluation', S + 'circuit.py')],
  'Independent oracles: polynomial expansion of creation operators for one node, permanents of the mode matrix for sequences; tolerance 5e-4 or tighter on amplitudes.',
  'property-based testing: generated states and optical circuits against an independent Fock-space oracle (polynomials, permanents)')

P('P03', 'Optical circuits are linear, norm preserving and conserve photons',
  'Evaluating optical nodes preserves the inner products of any two states, maps superpositions to the superposition of the results, and never changes the '
  'probability distribution of the total number of photons. Classical channel values, cumulative probability, label and measurement history of the states stay the same.',
  ['inputs', 'programs'],
  'Random circuits of static and classically controlled optical nodes, pairs of random states, arbitrary photon numbers.',
  'Tests compare fixed outputs; they never check a relation between the results for different states.',
  [NL + 'optical_nodes.py', S + 'circuit.py'], [('application of Fock matrices to components', S + 'circuit.py')],
  'Metamorphic relations between evaluations: Gram matrix, superposition, photon number statistics.',
  'property-based testing: metamorphic relations (linearity, isometry, conservation) over generated circuits')

P('P04', 'Named optical components act as documented',
  'The named components satisfy the identities of their documentation on every state: two half-wave plates cancel, two quarter-wave plates make a half-wave plate, a half-wave '
  'plate at 45 degrees swaps, at 22.5 degrees mixes 50/50, polarizing beam splitters exchange only the vertical channels, and special cases equal the general component. '
  'Beam splitters with reflection r send each of n photons of one input independently with probability r to the first and 1-r to the second output, in the same polarization. '
  'With equal photon numbers in both inputs of a balanced splitter no output has an odd number of photons.',
  ['inputs', 'configurations'], 'Random components, channels, angles, reflection coefficients and states; 26 identities.',
  'Tests check a handful of angles with one photon; identities over all angles, reflections and photon numbers are not covered.',
  [NL + 'optical_nodes.py'], [('definition of named components', NL + 'optical_nodes.py')],
  'Identities between two circuits of the library, and splitting laws against the binomial distribution.',
  'property-based testing: algebraic identities and distribution laws over generated components and states')

P('P05', 'Results do not depend on how a circuit is represented',
  'A program gives the same result with either order of channels in component names, with or without the full Fock matrix, and under any renumbering of optical and classical channels that is '
  'undone on the result. A larger length of the Fock state makes no difference for states with fewer photons than the original length; channels that no node uses keep their '
  'photons and do not influence the others.',
  ['programs', 'configurations'], 'Random programs (optical, controlled, classical, measurement, shift nodes) and random changes of representation.',
  'Tests use one representation at a time and mostly the default; equivalence quantifies over pairs of configurations for every program.',
  [S + 'circuit.py', NL + 'nodelist/optical_values_component_names.py', NL + 'nodelist/node_list.py'],
  [('translation between channel numbers and names', NL + 'nodelist/optical_values_component_names.py'), ('use_full_fock_matrix switch', S + 'circuit.py')],
  'Differential testing of the library against itself under a change of representation.',
  'property-based testing: differential and metamorphic testing over representations')

P('P06', 'Evaluation composes over nodes and over states',
  'Evaluating a circuit at once equals evaluating any split of its nodes in consecutive parts, by node selection or by separate circuits. Evaluating a selection of node numbers, in any order and with repetitions, '
  'acts like a circuit of exactly those nodes in that order. Each state of a collection evolves as if it were alone, and the order of the states is kept.',
  ['programs', 'inputs'], 'Random programs of up to seven nodes with random splits, selections and mixtures.',
  'Tests evaluate whole circuits; the number of splits and selections is combinatorial.',
  [S + 'circuit.py'], [('evaluate_circuit and grouping of optical nodes', S + 'circuit.py')],
  'Metamorphic relations between evaluations of the same program.',
  'property-based testing: metamorphic relations over generated programs, splits and selections')

P('P07', 'Evaluation has no side effects and is repeatable',
  'Evaluating a circuit leaves the input collection (states, amplitudes, classical values, history, identifiers, circuit) as it was, and no later change of the '
  'input is visible in the output or the other way around; states of the output share no data. Evaluating again, with the same or a default input, gives the same result; a circuit that was evaluated and then '
  'gets more nodes, or other nodes in its node list, acts like a new circuit with those nodes.',
  ['programs', 'histories'], 'Random programs with random sequences of evaluate, mutate, append and evaluate again.',
  'Tests evaluate a circuit once and look only at the output.',
  [S + 'circuit.py', S + 'state.py', S + 'collection_of_states.py', NL + 'classical_nodes.py', NL + 'custom_nodes.py'],
  [('copies of states and collections', S + 'collection_of_states.py'), ('evaluate_circuit', S + 'circuit.py')],
  'Snapshots before and after, in-place mutation of everything reachable through the public API, differential against fresh circuits.',
  'property-based testing: stateful histories of evaluation and mutation with snapshot invariants')

P('P08', 'Measurement follows the Born rule and collapses the state',
  'Measuring optical channels splits each state in one state per outcome that occurs: its probability is the squared norm of the matching components, the '
  'collapsed state is their normalised sum, the photon numbers are written to the given classical channels and the history gets one entry; probabilities sum to that of the state. '
  'Measuring again gives the same outcome with certainty, and measuring in steps gives the joint distribution. Operations on other channels do not change the outcome distribution.',
  ['inputs', 'programs'], 'Random superpositions and mixtures, lists of measured channels in any order, sequences of measurements, operations on other channels.',
  'Tests measure a few states; completeness, repeatability and no-signalling hold over all states and channel lists.',
  [NL + 'measurement_nodes.py', S + 'state.py', S + 'collection_of_states.py'],
  [('measurement node', NL + 'measurement_nodes.py'), ('projection of states', S + 'state.py')],
  'Born rule computed independently plus repeatability, joint distribution and no-signalling relations; outcomes below 1e-5 may be missing.',
  'property-based testing: Born-rule oracle and metamorphic relations over generated states and measurements')

P('P09', 'Whole programs agree with a reference simulator',
  'For every circuit of optical, classically controlled, classical, measurement, shift, custom and generic-function nodes, and every input mixture, the resulting states (amplitudes, '
  'classical values, cumulative probabilities, measurement history, labels) are those of applying the documented meaning of the nodes one after the other to each state. In particular measured '
  'values steer later gates of the same branch only.',
  ['programs', 'inputs'], 'Random programs of up to six nodes (feed-forward programs longer) over two to four channels with up to 256 basis states.',
  'Tests exercise node types mostly in isolation; interactions between node types grow combinatorially.',
  [S + 'circuit.py', NL + 'optical_nodes.py', NL + 'classical_nodes.py', NL + 'controlled_nodes.py', NL + 'custom_nodes.py', NL + 'measurement_nodes.py'],
  [('dispatch over node types and grouping of optical nodes', S + 'circuit.py')],
  'Independent simulator in about 300 lines (fsv/oracle.py), written from the documentation.',
  'property-based testing: generated programs against a reference simulator')

P('P10', 'Classically controlled gates act like static gates with the values of each state',
  'A wave plate or phase shift with classical control transforms each state of a collection exactly like the static gate with the values in the classical channels of that state as angles; '
  'states with other values are not affected by them and the classical values stay the same.',
  ['inputs', 'programs'], 'Collections of states with different classical values and lists of controlled gates.',
  'Tests use one or two control values, mostly the same for all states.',
  [NL + 'optical_nodes.py', NL + 'controlled_nodes.py', S + 'circuit.py'], [('evaluation of controlled optical nodes per state', S + 'circuit.py')],
  'Differential: controlled circuit on the collection against static circuits per state, and both against the oracle.',
  'property-based testing: differential against static gates, per generated state')

P('P11', 'Classical nodes change the classical channels as specified and nothing else',
  'Setting classical channels assigns each value to the channel at the same position of the list; a classical function is called once per state with that state\'s own values, the new values '
  'and the affected channels, and its result becomes the classical values of that state. Optical components, probabilities, history, labels and the order of states do not change.',
  ['inputs', 'programs'], 'Random lists of classical nodes with channels in any order on mixtures with up to six classical channels.',
  'Tests use two or three channels in order, and one state.',
  [NL + 'classical_nodes.py', S + 'circuit.py'], [('classical nodes', NL + 'classical_nodes.py')],
  'Independent model of the classical values; recording functions to check the calls.',
  'property-based testing: generated programs against a model of the classical channels')

P('P12', 'Shifts, controlled shifts and custom matrices act as specified',
  'A shift adds its amount, a controlled shift adds the photons of the control to the target, both modulo the length of the Fock state, on every component of a superposition and with pairs applied in the given order; '
  'repeating either as often as the length is the identity, the direct versions agree with the matrix versions, and channel coupling 0 and 1 are the identity and the controlled shift. '
  'A custom Fock-space matrix multiplies the state vector in basis() order; a custom optical matrix transforms the creation operators of the given channels in the given order.',
  ['inputs', 'configurations'], 'Random channels, amounts, pairs, permutation and general unitary matrices, superpositions; Fock lengths up to 11.',
  'Tests check single basis states with one control/target pair.',
  [NL + 'custom_nodes.py', NL + 'nonlinear_optical_nodes.py', NL + 'controlled_nodes.py'], [('shift and custom matrix nodes', NL + 'custom_nodes.py')],
  'Direct computation on photon numbers, numpy matrix-vector products, and group relations.',
  'property-based testing: photon number arithmetic oracle and group relations over generated nodes')

P('P14', 'State algebra agrees with linear algebra',
  'For any two states of a circuit the inner product, outer product, tensor product and conversion to and from a vector agree with linear algebra in the order of basis(). '
  'Setting components from a list of names and amplitudes gives their sum; a copy equals the original and shares no data with it; a new initialised state is the vacuum with probability 1.',
  ['inputs', 'configurations'], 'Random superpositions over random geometries, tensor products with states, lists and dictionaries.',
  'Tests compute a few products of basis states.',
  [S + 'state.py'], [('State methods', S + 'state.py')],
  'numpy vectors built from names independently.', 'property-based testing: numpy linear algebra as oracle on generated states')

P('P15', 'A collection behaves like an ordered dictionary of states',
  'Under every history of adding, deleting, filtering (by identifier, initial state or classical values), looking up, copying, clearing, loading and making statistical mixtures, a collection holds exactly the states an ordered dictionary '
  'with the same history would hold, in the same order, with the same data. Adding without identifier never overwrites a state and copies are independent.',
  ['histories'], 'Histories of up to 20 container operations over a few labels and identifiers.',
  'Tests apply one operation to one fresh collection.',
  [S + 'collection_of_states.py'], [('container methods', S + 'collection_of_states.py')],
  'Stateful model-based test against an ordered dictionary, whole state compared after each step.',
  'property-based testing: stateful model-based testing against an ordered dictionary')

P('P16', 'Extending, reducing and lengthening collections keep the physics',
  'Reducing a collection gives the partial trace over the removed optical channels and keeps the requested classical channels in the requested order; extending adds channels after the existing ones, in '
  'the requested statistical mixture, without changing the existing ones, and reducing again restores the original mixture. Changing to a longer Fock state and back keeps every state. '
  'Labels, history and total probability survive, and the result can be evaluated on a circuit of the new geometry.',
  ['inputs', 'configurations'], 'Random mixtures of superpositions, removed or added channels in any order, extensions with one or more states.',
  'Tests use one small collection per operation and look at few fields.',
  [S + 'collection_of_states.py', S + 'state.py'], [('reduce, extend, adjust_length_of_fock_state', S + 'collection_of_states.py')],
  'Density matrices computed independently from the states.', 'property-based testing: partial-trace oracle and round trips on generated mixtures')

P('P17', 'Density matrices and clean_up describe the mixture the collection holds',
  'The density matrix per initial state is the sum over its states of cumulative probability times the projector on the state, with trace and trace of square to match. '
  'Optical nodes keep trace and purity. clean_up merges states that are equal in every respect adding their probabilities and leaves out negligible components and states; it does not change density matrices otherwise.',
  ['inputs', 'programs'], 'Random mixtures with equal, similar and negligible states, before and after circuits.',
  'Tests check the matrices for one or two collections.',
  [S + 'collection_of_states.py'], [('density_matrix, clean_up', S + 'collection_of_states.py')],
  'Explicit summation over components as oracle.', 'property-based testing: explicit summation oracle and invariants on generated mixtures')

P('P13', 'Gates given by Hamiltonians apply the exponential of the Hamiltonian',
  'A gate defined by a Hamiltonian, or by a list of Hamiltonians that commute, transforms every state of a collection with the matrix exponential of that Hamiltonian on the given '
  'channels in the given order, where the commands of a term act from left to right on the photon numbers. Wave plates made from Hamiltonians, static or controlled by the classical channels of each state, '
  'agree with wave plates. Labels, probabilities and classical values stay the same.',
  ['inputs', 'configurations'],
  'Anti-Hermitian Hamiltonians of one to three pairs of terms on one to three channels in any order, with norm up to 5; wave plates with angle times photon number up to 6.',
  'Tests run a few Hamiltonians on one state with fixed channels.',
  [S + 'quantum_operator_functionality/quantum_operators.py', NL + 'quantum_operator_nodes.py'],
  [('operators from command strings, exponential', S + 'quantum_operator_functionality/quantum_operators.py'), ('nodes', NL + 'quantum_operator_nodes.py')],
  'Ladder operators and matrix exponential computed independently; tolerance 2e-3 because the code uses single precision.',
  'property-based testing: generated Hamiltonians and states against an independent matrix exponential')

P('P18', 'Chained circuits act one after the other on the resized collection',
  'Circuits connected by a bridge, or listed in a compound circuit (a circuit also more than once), give the result of evaluating them one after the other, where channels a circuit has more than the one before start in vacuum (optical) '
  'or at zero (classical) and channels it has less are traced out or dropped, as long as each Fock state is long enough for the photons that arrive. A compound circuit that is refreshed after a change of its list or of a circuit acts like a new one. Neither the input collection nor the '
  'circuits in the list change, and evaluating again gives the same result.',
  ['inputs', 'programs', 'configurations'],
  'Chains of two to four circuits of any length and number of channels with optical, classical and measurement nodes, made by hand, as a compound circuit, by refresh() or from a circuit that is listed twice.',
  'Tests chain two circuits of one or two geometries with a basis state.',
  [NL + 'bridge_nodes.py', S + 'compound_circuit.py', S + 'circuit.py'], [('bridge', NL + 'bridge_nodes.py'), ('compound circuit', S + 'compound_circuit.py')],
  'Reference simulator for the nodes; vacuum extension and partial trace of density matrices computed independently.',
  'property-based testing: differential between chained circuits and a reference simulator over generated chains')

TF = S + 'temporal_and_spectral_gate_functionality/'
P('P19', 'Full time delays follow the statistics of photons with finite pulses',
  'In circuits of gates, time delays (full version, also controlled by the classical channels of each state), pulse width settings and measurements, the outcome probabilities are those of photons whose '
  'Gaussian pulses of width w overlap by exp(-ln2 (t/w)^2 / 2) at distance t: delays of the same photon add up, opposite delays and common delays cancel, and a delay of zero changes nothing. '
  'Every mixture and every initial state keeps its own distribution, also if it is taken apart in columns before the evaluation, and the input collection stays unchanged.',
  ['inputs', 'programs'], 'Circuits of up to about a dozen nodes with up to two partial delays, one to three photons in superpositions, one pulse width.',
  'Tests check the dip of two photons in a handful of interferometers; the property ranges over states, gates, channels, orders of delays and measurements.',
  [TF + 'temporal_functions.py', TF + 'interference_group.py', TF + 'column_of_states.py', NL + 'spectral_nodes.py'],
  [('delay of single photon states', TF + 'temporal_functions.py'), ('interference of columns in measurements', TF + 'interference_group.py')],
  'Independent model: polynomials of creation operators labelled with channel and time, overlaps by summing over permutations; tolerance 2e-4 on probabilities.',
  'property-based testing: generated circuits against an independent model of pulses')

P('P20', 'Quick time delays mix pulses that overlap and pulses that do not',
  'A single quick time delay t (static or controlled by the classical channels of each state) gives the outcome probabilities of a mixture in which with probability exp(-ln2 (t/w)^2) the delay is absent and '
  'otherwise the pulses are fully separated. Two photons on a beam splitter with reflection R and transmission T leave in different outputs with probability R^2 + T^2 - 2RT exp(-ln2 (t/w)^2), '
  'for quick and full, static and controlled delays; bandwidth is the inverse of the pulse width.',
  ['inputs', 'programs'], 'Circuits with one quick delay, up to three photons in superpositions; interferometers with any reflection, delay and pulse width.',
  'Tests check one balanced beam splitter and one geometry.',
  [TF + 'temporal_functions.py', NL + 'spectral_nodes.py', TF + 'interference_group.py'], [('quick time delay', TF + 'temporal_functions.py')],
  'Mixture of two runs of the independent pulse model; closed formula for the dip.',
  'property-based testing: pulse model and closed formula as oracles over generated circuits')

P('P21', 'Measurements of photons with timing are consistent',
  'In circuits with time delays each measurement adds one entry with the outcome and its probability to the history, the probabilities of all outcomes add up to that of the initial state, and '
  'the product of the recorded probabilities is that of the pulse model. Measuring again gives the same photon numbers with certainty. '
  'A list of projections keeps exactly the listed outcomes, with unchanged probabilities.',
  ['histories', 'programs'], 'Circuits with delays and one to four measurements of any channels; random lists of projections.',
  'Tests measure once, at the end of the circuit.',
  [TF + 'interference_group.py', TF + 'collection_of_state_columns.py', NL + 'spectral_nodes.py'], [('measurement of interference groups', TF + 'interference_group.py')],
  'Pulse model for histories; metamorphic relations for repetition and projection.',
  'property-based testing: pulse model and metamorphic relations over generated sequences of measurements')

P('P29', 'Decomposition of states in columns of single photons is lossless',
  'Splitting a collection gives for each state one group with one column per component, with that amplitude; decomposing into single photon states gives one state per photon and the boson factor of the component. '
  'Composing a group gives the original state up to a global phase, at both stages, also after gates were applied to the single photon states (amplitudes of columns with the same component add up). Writing columns as a collection of states and reading them again gives the same groups, columns and photon information.',
  ['inputs', 'configurations'], 'Random mixtures of superpositions of up to eight components, Fock lengths up to eleven.',
  'Tests decompose a few states with small photon numbers.',
  [TF + 'column_of_states.py', TF + 'collection_of_state_columns.py', TF + 'interference_group.py'], [('split and compose', TF + 'column_of_states.py')],
  'Round trips, and factorials for the boson factors.', 'property-based testing: round trips over generated mixtures')

PR = S + 'popescu_rohrlich_correlation_functionality/'
P('P22', 'Popescu-Rohrlich photon pairs follow the documented correlation law',
  'A pair of photons from the Popescu-Rohrlich node with quantumness q gives, for every pair of output channels, the probability |a|^2 |b|^2 (1 + sign(c)|c|^(1/q)) / 4, where a and b are the rows of the '
  'single photon matrices of the gates on each photon and c = 2|a.b|^2/(|a|^2|b|^2) - 1; with q = 1 the pair is indistinguishable from regularly entangled photons. '
  'Gates on the polarization of one photon leave the outcomes of all other photons as they are; '
  'bystander photons and mixtures keep their own distribution, classical values and histories hold the outcome, and the input collection stays unchanged.',
  ['inputs', 'programs'], 'One or two pairs in any channels, static and classically controlled polarization gates per photon, mixtures, q from 1 to 1000.',
  'Tests measure CHSH values for one pair and one choice of channels.',
  [PR + 'popescu_rohrlich_correlations.py', PR + 'popescu_rohrlich_photon_pair_amplitude_functionality.py', NL + 'superquantum_nodes.py'],
  [('correlated measurement of pairs', PR + 'popescu_rohrlich_photon_pair_amplitude_functionality.py')],
  'Closed formula with rounding slack for the ill-conditioned power law near c = 0; regular entanglement as reference for q = 1.',
  'property-based testing: closed formula and differential relations over generated circuits')

P('P23', 'No-signalling boxes and CHSH experiments follow the correlation law',
  'Collections made by create_collection_with_NS_boxes, evaluated with gates per photon and read by measure_collection_with_NS_boxes and correlations_from_measured_collection_with_NS_boxes give the probabilities and '
  'correlations of the law for Popescu-Rohrlich pairs, and the node create_no_signalling_boxes gives the same as popescu_rohrlich_correlation_gate. '
  'With half wave plates at angles a and b the correlation of the pair is sign(c)|c|^(1/q) with c = cos 4(a-b), so the CHSH value is at most 2 sqrt 2 for q = 1 and at most 4 for every q.',
  ['inputs', 'programs'], 'One or two pairs in any channels, any gates per photon, any four analyser settings, q from 1 to 1000.',
  'Tests check a few angles and one order of the channels.',
  [PR + 'popescu_rohrlich_correlations.py', NL + 'superquantum_nodes.py', S + 'visualization/plot.py'],
  [('legacy functions', PR + 'popescu_rohrlich_correlations.py'), ('correlations of a collection', S + 'visualization/plot.py')],
  'Closed formula for probabilities; correlations recomputed from the probabilities; bounds of Tsirelson and 4.',
  'property-based testing: closed formula, differential between legacy and current API, and CHSH bounds over generated settings')

P('P24', 'Histograms, correlations and figures show the probabilities of the collection',
  'plot() as histogram lists for every initial state, in order, all outcomes with the sum of the cumulative probabilities of the states with those classical values (zero where there are none), for any selection of channels '
  'and initial states and either channel order. plot_correlations() gives (P(equal) - P(different)) / total per pair of channels and initial state. '
  'The figures have one bar of the right height and colour per initial state and outcome, and looking at a collection does not change it.',
  ['inputs', 'configurations'], 'Random collections with up to four initial states and eight states, Fock lengths up to twelve, one to four classical channels; measured circuits.',
  'Tests compare a few figures with reference images and a few histograms of basis states.',
  [S + 'visualization/plot.py'], [('histogram', S + 'visualization/plot.py'), ('correlations', S + 'visualization/plot.py')],
  'Direct sums over the states of the case; reference simulator for measured circuits; bars read from the matplotlib figure.',
  'property-based testing: direct recomputation as oracle over generated collections')

P('P25', 'Printing and drawing show the circuit and the states, and change nothing',
  'The text of a state, a collection, a circuit and a compound circuit shows every state, component with its amplitude, classical value, history and node there is, and nothing else. '
  'A drawn circuit has each node exactly once, labelled with circuit and position, on its own optical and classical channels, without overlap, and nodes that share a channel '
  'in the order in which they are evaluated; a compound circuit shows its circuits in order, and a station shows exactly its own nodes with its local channels and names of the stations that share them. '
  'Printing and drawing leave circuit, compound circuit and collection such that every later evaluation gives the same result.',
  ['inputs', 'programs'], 'Random circuits of up to twelve nodes of all kinds, chains of up to three circuits, up to three stations, collections of up to three states.',
  'Tests compare drawings of a few fixed circuits with reference images and hardly look at texts.',
  [S + 'visualization/draw.py', S + 'circuit.py', S + 'state.py'],
  [('layout of nodes in a figure', S + 'visualization/draw.py'), ('stations', S + 'visualization/draw.py'), ('texts', S + 'state.py')],
  'The text is parsed, the matplotlib figure is decoded into boxes with channels and labels; both are compared with the list of nodes and the states.',
  'property-based testing: decoded texts and figures against the node list over generated circuits and collections')

P('P26', 'Invalid requests raise and leave everything as it was',
  'A node with identical, missing or out of range channels, lists of different lengths, an invalid matrix, reflection or control, a state or a collection that does not fit, a selection of nodes that does not exist and '
  'circuits or states of invalid dimensions are refused with an exception. After a refused request circuit, states and collection give exactly the results they gave before. '
  'The nearest valid request is accepted.',
  ['inputs', 'histories'], 'All node methods of a circuit, the methods of collections, states and compound circuits, at random positions of random circuits.',
  'Tests check one or two invalid calls per method and never that the object is still intact afterwards.',
  [S + 'circuit.py', S + 'nodes/optical_nodes.py', S + 'nodes/controlled_nodes.py', S + 'nodes/measurement_nodes.py', S + 'collection_of_states.py', S + 'state.py'],
  [('argument checks of node methods', S + 'nodes/optical_nodes.py'), ('checks of collections and states', S + 'collection_of_states.py')],
  'Each invalid request has a valid neighbour; the oracle is the documented range of the arguments, and a second evaluation for the state after refusal.',
  'property-based testing: generated invalid requests with a valid neighbour, and before/after comparison')

P('P27', 'Rounding to zero removes exactly the components below the threshold',
  'After evaluating an optical node the state has the components of the exact result with a probability of at least the threshold of the circuit, no others, and no amplitude is changed. '
  'Measurements never drop an outcome of positive probability for being rare, and their probabilities stay those of the state. '
  'In longer circuits the distance to the exact result is bounded by the sum of what each node may remove.',
  ['inputs', 'configurations', 'programs'], 'Random uneven states with probabilities down to 3e-7, random nodes, thresholds 0 to 0.05 and the default, up to six nodes.',
  'Tests use states with large amplitudes only, for which rounding never matters.',
  [S + 'circuit.py', S + 'state.py', NL + 'measurement_nodes.py'],
  [('removal of small components', S + 'circuit.py'), ('branches of a measurement', NL + 'measurement_nodes.py')],
  'Exact reference evolution without rounding; a component within rounding error of the threshold may go either way.',
  'property-based testing: exact reference evolution and error bound over generated uneven states and thresholds')

P('P28', 'The Fock matrix of a circuit is the transformation its evaluation applies',
  'get_fock_state_matrix gives, for all nodes or any list of node numbers in any order, the product of the matrices of the nodes in order of evaluation: applied to the vector of a state in the '
  'order of the basis it gives the vector of the evaluated state. It is current after nodes are added, and asking for it does not change the circuit. '
  'It is refused for lists with a node that is not optical or not there.',
  ['inputs', 'histories'], 'Circuits of up to five optical nodes with up to 140 basis states, selections with repeats, histories of adding nodes and asking.',
  'Tests compare a few matrices of single nodes for two channels.',
  [S + 'circuit.py', NL + 'nodelist/node_list.py'], [('product of node matrices', S + 'circuit.py'), ('matrix of a node', NL + 'nodelist/node_list.py')],
  'Independent oracle for every column, product of single node matrices, and evaluation of states; tolerance 3e-4.',
  'property-based testing: independent Fock-space oracle and differential against evaluation over generated circuits and histories')

P('P30', 'Arguments that are left out act as their documented defaults',
  'Every node method, the circuit constructor and the operations on collections give the same result when arguments are left out as when the defaults of the documented signature are '
  'written out (channels 0 and 1, no rotation, no reflection, unit pulse width, threshold 1e-4, all nodes, all channels, all initial states, two decimals, empty new channels). '
  'Passing arguments by position or in another order, a channel as a number where that is allowed, and information for drawing never changes a result.',
  ['inputs', 'configurations'], 'Lists of up to three calls of all node methods with any subset of the arguments left out, in random circuits with random states; collections and circuits likewise.',
  'Tests leave out the arguments of a few methods in one circuit, mostly where the default has no visible effect.',
  [S + 'circuit.py', NL + 'optical_nodes.py', NL + 'controlled_nodes.py', NL + 'custom_nodes.py', NL + 'spectral_nodes.py', S + 'collection_of_states.py'],
  [('signatures of node methods', NL + 'optical_nodes.py'), ('constructor of a circuit', S + 'circuit.py'), ('defaults of collection methods', S + 'collection_of_states.py')],
  'Differential against the same call with every argument written out from an independent table of the documented defaults; time delays against the reference model of pulses.',
  'property-based testing: differential between calls with omitted and with explicit arguments over generated circuits')

P('P31', 'Columns and groups keep states, photons, identifiers and information aligned',
  'Whatever the history of adding states, assigning information, copying, condensing to one state or splitting in single photons, the identifiers, amplitude, boson factor and group probability '
  'of a column are those of the last assignment, on the column and on every state in it, and its photons and combined photon numbers are those of its states. '
  'In an interference group a state goes to the column that is asked for, columns are found under the identifier they have, the next free identifier is used when one is taken or not given, '
  'and all columns and states carry the identifier of the group.',
  ['inputs', 'histories'],
  'Histories of up to nine operations on columns of up to twelve states and on groups, with states that carry information of columns or photons or none, in random geometries.',
  'Tests build a few columns with one or two states and look at one piece of information; the property is about every history.',
  [S + 'temporal_and_spectral_gate_functionality/column_of_states.py', S + 'temporal_and_spectral_gate_functionality/interference_group.py'],
  [('information of a column', S + 'temporal_and_spectral_gate_functionality/column_of_states.py'), ('columns of a group', S + 'temporal_and_spectral_gate_functionality/interference_group.py')],
  'Model of the last assignment and of the list of states per column; formula of factorials for the boson factor.',
  'property-based testing: model-based histories of operations on columns and groups')

T = S + 'temporal_and_spectral_gate_functionality/'
P('P32', 'Photon-resolved measurement of any columns follows their creation operators',
  'For interference groups of columns that are built by hand, with any photons per column and any real overlap between photons that the user defines, a measurement of any channels gives the outcomes, '
  'probabilities, classical values and history entries that follow from the sum over the columns of amplitude over boson factor times the product of creation operators, for all outcomes or the requested projections. '
  'What is left after a measurement is normalized and gives the conditional probabilities in a second measurement. The total probability per outcome, and rescaling of column amplitudes and boson factors, '
  'agree with the same law.',
  ['inputs', 'histories'],
  'One or two groups for one or two initial states, up to four columns with up to four photons (and vacuum states) in two to four channels, up to four kinds of photons with random overlaps.',
  'Tests measure a few columns with identical photons or with the built-in Gaussian pulses.',
  [T + 'interference_group.py', T + 'collection_of_state_columns.py', T + 'column_of_states.py'],
  [('detection probability of a group', T + 'interference_group.py'), ('measurement of all groups', T + 'collection_of_state_columns.py')],
  'Permanents of the matrix of overlaps per channel, normalized states; outcomes with probability zero are ignored.',
  'property-based testing: closed formula (permanents of overlaps) over generated groups of columns')

P('P33', 'Amplitudes of photon pairs are taken apart in pairs and photons',
  'For every table of amplitudes of one or more photon pairs that is a product, the class for pair amplitudes gives the pairs, the photons and their Stokes vectors (up to a common factor), '
  'the dictionary made from the pairs is the one that was given, and the state is reported as factorable at any positive threshold above rounding. Entanglement between pairs or within a pair is reported, '
  'for the pair concerned. The distance between tables ignores norm and phase, and the correlation of two Stokes vectors is symmetric and follows the law for the given quantumness.',
  ['inputs'],
  'One to four pairs, complex amplitudes with zeros and ratios up to 50, dictionaries in any order with or without zeros.',
  'Tests have a handful of states with equal or zero amplitudes.',
  [PR + 'popescu_rohrlich_photon_pair_amplitude_functionality.py', PR + 'popescu_rohrlich_correlations.py'],
  [('factoring the amplitudes', PR + 'popescu_rohrlich_photon_pair_amplitude_functionality.py')],
  'Outer products and singular values; degrees of entanglement between 1e-9 and 1e-3 are not judged.',
  'property-based testing: round trip and singular values over generated tables of amplitudes')
