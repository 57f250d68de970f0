import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,**k):
    k.pop('state',None); a=dict(files=files,mechanism=[dict(name=mech,where=files[0])]); a.update(k)
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=a))
U='demod/utils/'; SIM='demod/simulators/'
p('C01','Monte-Carlo draws follow the given distribution',
 'Each Monte-Carlo draw returns, for every row of probabilities, the first state whose cumulative probability exceeds one uniform random number, independently per row; consequently a state of zero probability is never drawn and the result is always a valid state. Drawing from probabilities and from their cumulative sums give the same result, and the input table is not modified.',
 ['inputs'],'all numbers of rows and states, all probability tables, all random draws','Unit tests check sampled averages of a few tables; ties, zero-probability states and boundary draws have probability ~0 of being sampled.',
 [U+'monte_carlo.py'],'argmax over cdf > u')
p('C02','Distribution validation and rescaling',
 'Validating a table of cumulative distributions of any number of dimensions accepts exactly the tables whose rows are non-decreasing, stay within 0 and 1 (up to the tolerance above 1) and end at 1 within the tolerance, and raises ValueError on any other. Rescaling probabilities (or cumulative distributions) returns a table of the same shape in which every row is the input row divided by its total (its last value) so that it totals (ends at) exactly 1, and raises ValueError whenever some row is farther from 1 than the tolerance.',
 ['inputs'],'all tables with 1, 2 or 3 dimensions, all tolerances','Tests try a handful of tables; a bad row at an arbitrary position must be found in every table.',
 [U+'distribution_functions.py'],'row-wise checks and division by the row total')
p('C03','Sparse transition matrix stores what was put in',
 'A sparse transition matrix built from parallel arrays of (time, origin, destination, probability), or filled by assigning a list of such entries, returns on lookup exactly the entries stored for that time and origin, keeps the entries of every other time and origin unchanged, reports its shape as times x states x states, and rejects arrays of different lengths. Saving and loading it again yields the same transitions.',
 ['inputs','histories'],'all sets of entries, all sequences of assignments','Tests use two small matrices; sparsity patterns, unsorted entries and overwritten cells are a combinatorial space.',
 [U+'sparse.py'],'coordinate lists filtered by (t, i)')
p('C04','Sampling from a sparse transition matrix',
 'Sampling the next states of a population from a sparse transition matrix at a time returns for each individual a state reachable from its own current state at that time, namely the first of the listed destinations whose cumulative probability exceeds its uniform random number. Individuals do not influence one another, and a state that has no outgoing transition keeps the individual in a valid state without altering the caller\'s array of current states.',
 ['inputs'],'all matrices, all populations, all draws','The flattened per-time search couples all individuals and all states of a time; tests sample few of them.',
 [U+'sparse.py'],'flattened cdf + searchsorted', state='per-time offsets')
p('C05','Simulator bookkeeping and cached getters',
 'A simulator is created only with a positive integer-castable number of households and keeps that number; after initialisation with k preliminary steps exactly k steps have been performed and counted, and every later step increments the count by one. A cached getter returns the value computed from the current state: at most one computation between two steps, recomputed after every step, and asking for one household returns that household\'s entry of the full result.',
 ['histories','inputs'],'all numbers of preliminary steps, all sequences of steps and getter calls','Staleness appears only for particular interleavings of steps and getter calls.',
 [SIM+'base_simulators.py'],'_cache cleared in step; step counting in initialize_starting_state')
p('C06','Simulated clock',
 'The clock of a time-aware simulator advances by exactly one step size per step. After initialisation with a time of day or a datetime not later than the requested start, the simulator has performed the whole number of steps that fit between that moment and the start, and its clock shows exactly the requested start; a datetime in the future is rejected.',
 ['inputs','histories'],'all start datetimes, step sizes and initialisation times','Tests use one or two dates; remainders, midnight crossings and day rollovers need unusual combinations.',
 [SIM+'base_simulators.py'],'timedelta division/remainder in initialize_starting_state')
p('C07','Day and refresh callbacks fire exactly when they should',
 'For any step size up to one day, the day callbacks run exactly on the steps whose clock moves to another calendar date (including across month and year ends), before or after the step body respectively; the 4 a.m. callbacks run exactly on the steps whose clock enters the 4 o\'clock hour; the refresh-time callbacks run exactly on steps started at the refresh time. Each callback runs at most once per step and the step body always runs exactly once with the caller\'s arguments.',
 ['inputs','histories'],'all datetimes and step sizes','Month and year rollovers and step sizes that skip hours are rarely simulated in tests.',
 [SIM+'base_simulators.py'],'day/hour comparison in the step decorators')
p('C08','Logger records one entry per visited step',
 'A logger attached to a simulator records, for each requested attribute, exactly one value per visit, in order, equal to the simulator\'s value at that visit (summed over households when aggregated, per key for dictionary values), and returns all of them but the last. A simulator works on its own copy of the given logger, clearing empties the recordings, and unknown attributes or inconsistent options raise an error.',
 ['histories','inputs'],'all sequences of visits, attribute sets and aggregation options','Aliasing and ordering effects appear only in particular sequences.',
 [SIM+'base_simulators.py'],'dic_results lists appended in visit_simulator')
p('C09','Composition of simulators keeps each household in its slot',
 'A simulator composed of several sub-simulators has the sum of their households; on each step every sub-simulator receives exactly the slice of every argument that belongs to its own households, each is stepped exactly once, and composed getters return the concatenation of the sub-simulators\' current values in order. The subgroup mask selects exactly the households of the sub-simulators whose subgroup matches all requested keys.',
 ['inputs','histories'],'all numbers of sub-simulators and households, all arguments','An offset error shows only with several sub-simulators of different sizes.',
 [SIM+'base_simulators.py'],'running offset in MultiSimulator.step')
p('C10','Markov activity dynamics',
 "At each step of a Markov simulator every household's next state is drawn from the row of the transition matrix of the current time step of the day and of the household's own state; a semi-Markov simulator keeps every household's state until its drawn duration has elapsed and only then draws the next state and a new duration from the matching tables. Sparse Markov simulators draw from the sparse matrix of the current time and keep the label that belongs to every state. Time indices wrap around the period of the matrices; preliminary steps at initialisation are steps like any other.",
 ['inputs','histories'],'all matrices, states, durations and draws','Wrap-around and simultaneous expiries depend on particular state/time combinations.',
 [SIM+'activity_simulators.py'],'indexing TPMs by current_time_step and current_states')
p('C11','Decoding of occupancy states',
 "The counts of active occupants, occupants, sleeping or away persons, persons doing an activity and the thermal gains reported by an occupancy simulator are those encoded in each household's current state: occupants are residents minus the absent, active occupants never exceed occupants, occupants never exceed residents, and gains are the stated watts per active and inactive occupant. They refer to the state reached by the latest step.",
 ['inputs'],'all encodings of states, all numbers of households','Decoding tables are large; a test inspects a few states.',
 [SIM+'activity_simulators.py',SIM+'sparse_simulators.py'],'digit decoding of state labels')
p('C12','Appliance cycles and power',
 'An appliance that is switched on uses its rated power (or its load profile) from that step until its drawn duration has elapsed and its stand-by power otherwise; appliances that a household does not own never switch on nor consume. Household consumption is the sum over its appliances, appliances in use are not restarted, only appliances whose activity or occupancy conditions hold are switched on, and the remaining duration decreases by exactly one step per step.',
 ['histories','inputs'],'all appliance sets, ownership matrices, switch-on sequences','Overlapping cycles and expiry steps depend on the history.',
 [SIM+'appliance_simulators.py'],'n_times_left / time_left_appliance counters')
p('C13','Appliance ownership and appliance tables',
 'Sampled appliance ownership contains for each household only appliances of the given set: an appliance of ownership probability 1 always and of probability 0 never, and exactly the set defined for its subgroup when ownership comes as sets. Merging, filtering, grouping and looking up appliance dictionaries keep the parallel per-appliance arrays aligned with the appliance types and leave the given tables unchanged; unknown types and algorithms are reported.',
 ['inputs'],'all appliance dictionaries, ownership probabilities and draws','Misalignment needs particular duplicates or missing types.',
 [U+'appliances.py'],'parallel arrays indexed by type')
p('C14','Heating system outputs and controls',
 "Heat emitters and boilers never deliver less than zero nor more than their rated output, never more than what is called for, and the split between space heating and hot water never exceeds what is produced; the fuel and energy consumption follow from the heat delivered by each household's own system. Thermostat-driven controls switch on and off only beyond the dead band around the target temperature, keep the previous decision inside it, and hot water or external controls of one household do not affect another.",
 ['inputs'],'all temperatures, demands, ratings and control states','Saturation and hysteresis corners need specific temperature combinations.',
 [SIM+'heating_simulators.py'],'clipping and thermostat hysteresis')
p('C15','Building thermal dynamics',
 'Each step of the building and hot-water thermal models changes every temperature by the step duration times the net heat flow into its node divided by its capacity, with flows proportional to temperature differences, so that equal temperatures without gains stay constant and heat leaving one node enters its neighbour. The heat demand computed for the space, emitter or cylinder is the one that brings the node to its target at the end of the step, and a step of the combined heating simulator passes the demands, outputs and temperatures of the same step between its modules.',
 ['inputs'],'all temperatures, gains and building parameters','Conservation must hold for all parameters; tests compare a few numbers.',
 [SIM+'heating_simulators.py'],'explicit Euler update of node temperatures')
p('C16','Lighting consumption',
 "Lighting power is never negative, is zero for a household without active occupants, never exceeds the installed lighting power (Fisher: the use of every active occupant, falling linearly between the two irradiance thresholds), and depends only on the household's own bulbs, occupancy and threshold and on the irradiance of the same step. A CREST bulb that is switched on stays on for its drawn duration unless nobody is active any more; it is switched on only when off.",
 ['inputs','histories'],'all occupancies, irradiances, bulb configurations and draws','Random switching hides violations.',
 [SIM+'lighting_simulators.py'],'threshold and bulb switching')
p('C17','Climate simulation',
 'A simulator replaying recorded climate reports, from the requested start on, at every step the recorded temperature and irradiance of the latest sample not later than the current time (the interpolating one: the value interpolated linearly at the current time), for naive (utc) and time zone aware starts, and rejects starts before the recording. The CREST irradiance is never negative, is zero while the sun is below the horizon and otherwise the clear-sky irradiance at the solar altitude of place and time multiplied by the clearness drawn for that step; the CREST climate reports for every minute the irradiance and temperature simulated for that minute of that day.',
 ['inputs','histories'],'all start datetimes, step sizes and recordings','Index arithmetic across resolution boundaries.',
 [SIM+'weather_simulators.py'],'indexing recorded arrays by elapsed time')
p('C18','Load composition',
 'The total power of a load simulator is, for every household, the sum of the powers of its appliances, lights and (when included) heating, read without advancing the simulation. Every step advances appliances, lights and the included climate and heating exactly once, and the activities once every ten steps; appliances, lights and heating use the occupancy, hot water demand, gains, irradiance and outside temperature of the same step, where climate given by the caller takes precedence over the included one and missing climate is an error. All components are built for the same households, data and start.',
 ['histories','inputs'],'all component simulators and values','Mixed-up component order is visible only with distinct values.',
 [SIM+'load_simulators.py'],'sum of component getters')
p('C19','Population sampling',
 'Sampling a population of n households from a distribution over types returns one count per type, none negative, totalling exactly n, with no household of a type of zero probability. The deterministic variant gives every type a number of households within two of its expected share, and the random one as many as draws fall in its interval of the cumulative distribution. A distribution that does not total one and an unknown algorithm are rejected.',
 ['inputs'],'all distributions and population sizes','Rounding corner cases of arbitrary distributions.',
 [SIM+'util.py'],'cdf inversion on a grid')
p('C20','Subgroup handling',
 'Subgroups are totally ordered consistently with equality: more keys is greater, then the first key in sorted order where two subgroups differ decides, a present key over an absent one and else the larger value; so sorting and listing the different subgroups finds each exactly once. The string name of a subgroup does not depend on the order of its keys and differs for different subgroups (values: integers or lists of at least two). A household is converted to one person subgroup per resident, with the position its type defines and the other attributes of the household, leaving the household unchanged. The time attributes of a date are its type of day and quarter under the chosen definition, replacing older ones and leaving all other attributes; removing them gives a new subgroup.',
 ['inputs'],'all attribute combinations','Pairs of subgroups are quadratic in number.',
 [U+'subgroup_handling.py'],'key-wise comparison, copies of attribute dictionaries')
p('C21','Transition statistics from diaries',
 'The transitions extracted from observed state sequences are exactly the observed changes of state, with their time, person (or household, day and number of persons) and their old and new state, and the duration until the next change. Transition and duration tables are the relative frequencies of these observations at every time, where the first table is the last one or, as requested, left as is, and states that are never observed get the stated default (stay in the state, duration zero); conversion of raw codes into states keeps every label; the observed states are not modified.',
 ['inputs'],'all observed state arrays','Counting errors appear on particular sequences such as wrap-around at the end of the day.',
 [U+'parse_helpers.py','demod/datasets/tou_loader.py'],'counting changes along the time axis')
p('C22','Metrics',
 'Load and state metrics return what their definition says for every simulation result: energy is power times step duration summed, the diversity factor is the sum of the peaks over the peak of the sum (at least one) with coincidence its inverse, the time-coincident demand is the largest mean demand, a load duration curve counts for every load the steps at or above it, cumulative changes give the share of the changes below every edge, durations of states are the runs (end and start of the day merged) and add up to the simulated time, and distances between states, durations and loads are the stated differences: not negative, zero for equal inputs and symmetric. Inputs are not modified.',
 ['inputs'],'all result arrays','Degenerate arrays (constant states, single household) and bin edges.',
 ['demod/metrics/states.py','demod/metrics/loads.py','demod/metrics/errors.py'],'numpy reductions over result arrays')
p('C23','Dataset cache round trip',
 'What a dataset loader saves as parsed data is loaded back unchanged on every later request, by any loader of the same dataset, keyed by kind of data, version, activity type and subgroup (yearly values: without time attributes), so that different requests never return or overwrite each other\'s data; when nothing is saved the raw data of the request are parsed exactly once and then saved, and a failed parsing saves nothing. Clearing a version leaves the others. Arrays saved again replace what was saved before, in whatever format.',
 ['histories','inputs'],'all kinds of data, subgroups, versions and sequences of requests','Key collisions need particular pairs of requests.',
 ['demod/datasets/base_loader.py','demod/datasets/tou_loader.py'],'file naming and np.save / np.load / json')
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
