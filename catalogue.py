"""The properties: what is claimed, where it is anchored, what is outside.
gen.py writes properties.jsonl and MANIFEST.json from this file."""

META = {}


def P(id, title, statement, over, text, why, files, mechanism, observe, outside, assumptions=(), state=()):
    META[id] = dict(
        module=id.lower(), title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=observe, hook_needed=None),
        outside=outside, assumptions=list(COMMON) + list(assumptions),
    )


COMMON = [
    "Python floats are treated as exact reals (rounding is outside the claim); ints are unbounded",
    "mesa, networkx, pandas, SQLAlchemy and CPython are executed as they are and trusted",
    "randomness is a nondeterministic stub: every draw is an arbitrary value allowed by the call's contract, and draws that random.random() would make equal with probability 2**-53 are assumed different",
]

SCHED = ["soil/time.py", "soil/agents/__init__.py", "soil/environment.py"]

P("C01", "Agents are activated exactly when they asked to be",
  "With every scheduler, an agent is activated at an instant t if and only if t is its next activation time: its previous activation plus the positive delay its step returned (or the absolute time given with at(), when that is in the future), plus the environment's default interval when the step returned None or nothing, and never again when it returned INFINITY. It is activated at most once per instant, and the time it observes during the step is exactly that instant.",
  ["inputs", "schedules", "histories"],
  "all real delays and absolute times, every mix of ways of returning them (number, Delay, at, None, INFINITY), any initial time, any default interval, every order of same-time activations, for every scheduler",
  "The tests use a handful of constant integer delays; the claim is about every combination of real delays of several agents, including coincidences and orders.",
  SCHED,
  [("PQueueActivation / TimedActivation / ShuffledTimedActivation / OrderedTimedActivation .step", "soil/time.py"), ("Delay, INFINITY", "soil/time.py"), ("BaseAgent.at / delay", "soil/agents/__init__.py")],
  ["agent.now inside step", "Environment.step()", "schedule.time"],
  "more agents or steps than the bounds per case; zero or negative delays and absolute times in the past (unspecified); floating point rounding of time sums; mesa's own schedulers",
  state=[("_queue / _next", "pending activations by time", "soil/time.py"), ("time", "current simulated time", "soil/time.py")])

P("C02", "The clock only moves forward, to the next pending activation",
  "Executing a step activates agents at the current time only, and afterwards the simulated time is the earliest pending activation of any live agent, infinity once the last of them is gone; it never decreases. The step counter increases by exactly one per step in which agents are due, and a model in which nothing is pending is no longer running; steps after that change neither.",
  ["inputs", "schedules", "histories"],
  "all real delays, initial times and default intervals, every mix of returns, births and deaths (by the agent itself or by another) in any step, all schedulers",
  "Tests look at the clock for constant delays only; they do not quantify over delays that overtake, coincide or end.",
  SCHED, [("schedulers' step and get_next bookkeeping", "soil/time.py"), ("BaseEnvironment.step / now", "soil/environment.py")],
  ["env.now", "env.schedule.time", "env.schedule.steps", "env.running"],
  "as C01")

P("C03", "Agents added at any moment are activated from their start time on",
  "An agent added before the run, between steps or from within another agent's step, through the environment or the scheduler, is first activated at its start time (the one given, if not in the past, or the current time when none is given) and then as it asks; no agent is lost, duplicated or activated early because others are added. The environment and its scheduler list every agent added and not removed exactly once, and ids are unique.",
  ["inputs", "schedules", "histories"],
  "all real start times and delays, every interleaving of additions (before, between, inside steps) with activations, all schedulers",
  "Tests add agents before the run at the default time only.",
  SCHED, [("add / _schedule of each scheduler", "soil/time.py"), ("BaseEnvironment.add_agent", "soil/environment.py")],
  ["agent.now inside step", "env.agents", "env.schedule.agents"],
  "more than the bounded number of agents and steps; removing agents (see C04); an agent added within a step for that very instant may run at it or at the following step of the same instant")

P("C04", "Dead agents act no more and disturb nobody",
  "After an agent dies (by its own hand in its init or in a step, whatever that step returns, or if it then raises DeadAgent, at another agent's hand before its turn in the same instant, or between steps) it is never activated again, is no longer listed or counted anywhere, is not alive, and with its removal its node and edges disappear from the network if it had one; an agent removed from the scheduler is not activated again either. All other agents are activated exactly when they would have been.",
  ["inputs", "schedules", "histories"],
  "all real delays, every moment and author of the death, every scheduler and agent kind (plain, generator, FSM, networked)",
  "Tests kill one agent in one fixed schedule; the dangerous cases are agents killed while already due in the same instant.",
  SCHED + ["soil/agents/network_agents.py", "soil/agents/fsm.py", "soil/agents/evented.py"],
  [("BaseAgent.die, _check_alive", "soil/agents/__init__.py"), ("remove / dead agents skipped in step", "soil/time.py"), ("NetworkAgent.die", "soil/agents/network_agents.py")],
  ["agent.alive", "env.agents", "env.count_agents", "env.G", "agent.now inside step"],
  "more agents and steps than the bounds")

P("C05", "Runs end exactly at their limits",
  "With max_time, no agent is activated at or after it; with max_steps, at most that many steps are executed; without reaching a limit given, a run goes on until the model stops running, and it ends when nothing is left to activate. Every iteration of a simulation obeys this on its own.",
  ["inputs", "schedules", "configurations"],
  "all real max_time and delays, all max_steps within bounds, each limit given or not, all schedulers, one or several iterations",
  "Tests use one fixed max_time; the boundary (an activation exactly at max_time) and the interplay of limits need all values.",
  ["soil/simulation.py", "soil/environment.py", "soil/time.py"],
  [("Simulation._run_model", "soil/simulation.py"), ("BaseEnvironment.run", "soil/environment.py"), ("running flag set by schedulers", "soil/time.py")],
  ["agent.now inside step", "env.schedule.steps", "env.now"],
  "more steps than the bounds; negative limits",
  assumptions=["a limit of None means no limit"])

P("C06", "Generator and async behaviours resume exactly where they paused",
  "A behaviour written as a generator or coroutine executes exactly one segment per activation, resumes after the pause with its local state at the requested delay or absolute time, restarts from the beginning only after it has finished, and is independent of every other agent's. A generator yielding delays is activated at exactly the same times as a plain step returning them.",
  ["inputs", "schedules", "programs"],
  "all real delays, all numbers of pauses per run of the body within bounds, generator / async / nested awaits, all schedulers",
  "Tests run one generator with one constant delay.",
  ["soil/agents/__init__.py", "soil/time.py"],
  [("decorate_generator_step / MetaAgent", "soil/agents/__init__.py"), ("Delay.__await__", "soil/time.py")],
  ["agent.now inside each segment", "agent attributes"],
  "generators deeper than the bounds; behaviours that raise")

P("C07", "State machines run the current state, and go where they are told",
  "At each activation an FSM agent executes exactly the state it is in, in its most derived definition; it changes state if and only if the state returned (or set) another state, as object, as id or together with a delay, and its id and next activation reflect that at once. Its initial state is the one given, or the most derived default; unknown states, and machines without an initial state, are rejected, and a state cannot be called as if it were a function.",
  ["inputs", "programs", "histories"],
  "every sequence of transitions in every form of return, with all real delays, plain and generator states, inheritance and redefinition",
  "Tests cover a couple of fixed machines with fixed returns.",
  ["soil/agents/fsm.py", "soil/agents/__init__.py", "soil/time.py"],
  [("MetaFSM collecting states", "soil/agents/fsm.py"), ("FSM.step / _set_state", "soil/agents/fsm.py"), ("State, state, default_state", "soil/agents/fsm.py")],
  ["agent.state_id", "execution log of states", "agent.now"],
  "more states and activations than the bounds; a state_id declared by the class is a known finding")

P("C08", "Messages reach whom they are for, once, in order, until they expire",
  "A message told to an agent is handled by it exactly once, with its sender, in the order of sending, when it processes its messages, unless it expired before (its expiration time is earlier than the current time), in which case it is dropped; messages sent while others are being handled are kept. A broadcast reaches exactly the live agents with an inbox selected by its criteria, except the sender.",
  ["inputs", "histories", "schedules"],
  "every sequence of tell, broadcast and processing within bounds, at all non-decreasing real times, with every mix of expirations, payloads and criteria",
  "Tests exchange a couple of messages without expiration conflicts.",
  ["soil/agents/evented.py", "soil/events.py", "soil/environment.py"],
  [("EventedAgent.tell / process_messages", "soil/agents/evented.py"), ("EventedEnvironment.broadcast", "soil/environment.py"), ("Message.expired", "soil/events.py")],
  ["handler calls", "process_messages() result"],
  "more agents and operations than the bounds")

P("C09", "Waiting for a reply ends with the reply or at the deadline",
  "An agent that asks gets exactly the value replied (whatever its truth value), at the first look after the reply and before the deadline given; if there is none, the wait ends with a time-out at the first look at or after the deadline, never before. Waiting for messages returns all the messages then waiting, in order, under the same rules.",
  ["inputs", "schedules", "histories"],
  "all real polling delays, timeouts and reply times, all values replied, replies before, at or after the deadline, any order of the agents",
  "Tests ask once with an immediate answer; deadlines and slow answers need all relative timings.",
  ["soil/agents/evented.py", "soil/events.py", "soil/time.py"],
  [("EventedAgent.ask / received", "soil/agents/evented.py"), ("Ask, Reply, TimedOut", "soil/events.py")],
  ["value returned by ask/received", "agent.now"],
  "more polls than the bounds; several simultaneous questions")

P("C10", "Selections return exactly the agents that meet every criterion",
  "Selecting, iterating over or counting agents by ids, class, state, attributes or combinations yields each agent of the environment that meets all the criteria exactly once and no other, up to the limit given, through every entry point of agents and environments; the criteria given are not modified. The collection of agents itself (iteration, size, membership, access by id) shows exactly the agents alive.",
  ["inputs", "configurations", "histories"],
  "every combination of criteria with arbitrary values (numbers, strings, lists, missing attributes, empty lists) over populations within bounds, after births and deaths",
  "Tests filter fixed populations by one criterion at a time.",
  ["soil/agents/__init__.py", "soil/environment.py"],
  [("filter_agents / AgentView", "soil/agents/__init__.py"), ("BaseEnvironment.get_agents / agent / count_agents", "soil/environment.py")],
  ["result of get_agents / agent / count_agents / agents(...)"],
  "populations larger than the bounds")

P("C11", "Neighbours and subgraphs follow the network as it is now",
  "The neighbours of an agent are exactly the live agents on the nodes adjacent to its own (successors in a directed network) that meet the criteria given, each once, and counting them gives that number; a subgraph has the nodes of the agents selected and all the network's edges among them. Edges added through an agent appear at once, with the attributes given, and being neighbours is mutual in undirected networks.",
  ["inputs", "configurations", "histories"],
  "every graph within bounds (any edges, directed or not, nodes with or without agents), any criteria, after edges are added and agents die",
  "Tests look at one small fixed graph.",
  ["soil/agents/network_agents.py", "soil/environment.py"],
  [("NetworkAgent.get_neighbors / count_neighbors / iter_agents / subgraph / add_edge", "soil/agents/network_agents.py")],
  ["get_neighbors()", "count_neighbors()", "subgraph()", "env.G"],
  "larger graphs than the bounds; multigraphs; get_neighbors with an explicit limit")

P("C12", "Every networked agent has its own node",
  "Each networked agent sits on exactly one node of its environment's network, no two share one, the node leads back to the agent, and neither changes while it lives; an agent added without a node takes a free node or a new one, and one added with a (free) node takes that, whatever its label; an environment whose agents would share a node is not created. Populating the network puts one agent on each free node, keeps the data of nodes and edges, and neither the graph given by the caller nor that of another environment is affected.",
  ["inputs", "configurations", "histories"],
  "every sequence of placements (automatic, explicit, new node, populate), creations by agents and deaths within bounds, every kind of node label, every random choice",
  "Tests populate one graph once.",
  ["soil/environment.py", "soil/agents/network_agents.py", "soil/network.py"],
  [("NetworkEnvironment.add_agent / add_node / populate_network / create_network", "soil/environment.py"), ("from_topology / find_unassigned", "soil/network.py"), ("NetworkAgent.__init__", "soil/agents/network_agents.py")],
  ["agent.node_id", "env.G.nodes", "env.network_agents", "env.agent_for_node_id"],
  "graphs larger than the bounds; placing an agent explicitly on an occupied node")

P("C13", "Agents start from the state declared, and never share it",
  "A new agent's attribute is the value given at its creation, else the model's (if it has one), else the most derived class default, and undeclared attributes are absent; an attribute set in the agent hides the environment's of the same name when it is read with get. Mutable defaults are private to each agent, in whatever order agents are created and modified; ids are unique, and init runs exactly once, when state, node and arguments are complete. The mapping interface of agents and environments always agrees with their attributes.",
  ["inputs", "configurations", "programs", "histories"],
  "every combination of declarations (base class, class, model, arguments), every agent base, every order of creation and mutation, every sequence of mapping operations within bounds",
  "Tests check a few classes with one default each.",
  ["soil/agents/__init__.py", "soil/environment.py"],
  [("MetaAgent defaults", "soil/agents/__init__.py"), ("BaseAgent.__init__ / __getitem__ / get / keys", "soil/agents/__init__.py"), ("BaseEnvironment mapping methods", "soil/environment.py")],
  ["agent attributes", "agent[...]", "agent.get", "agent.keys"],
  "defaults that cannot be deep-copied; attributes of base classes that are not agents; more agents than the bounds")

P("C14", "Collected data is what the model and its agents were at that time",
  "Running a simulation records, at the start and after every step, one row for the model and one per live agent (of the types asked for), with the time and step of the record and exactly the values the reporters (attribute names, functions, report properties, reporters added later) had at that moment; neither frame has missing, repeated or invented rows or columns.",
  ["inputs", "histories", "configurations"],
  "all real values of attributes and delays, any births and deaths, any mix of reporters, bounded steps",
  "Tests check lengths of frames of fixed models.",
  ["soil/environment.py", "soil/datacollection.py"],
  [("BaseEnvironment.model_df / agent_df / step / add_model_reporter / add_agent_reporter", "soil/environment.py"), ("SoilCollector", "soil/datacollection.py")],
  ["env.model_df()", "env.agent_df()"],
  "Lockstepper-driven models (several records share a step number); values pandas itself converts",
  assumptions=["the environment is initialised by its constructor, which collects the initial record"])

P("C15", "Simulations run every combination of parameters exactly as often as asked",
  "A simulation with fixed parameters, a matrix of parameter values and a number of iterations runs each combination of the matrix, together with the fixed parameters, exactly that many times, with consecutive iteration ids; each result and each notification to an exporter carries exactly that combination, and different combinations have different ids. Running does not change the configuration, nothing leaks from one run to another, and queued simulations run the same models once.",
  ["inputs", "configurations", "histories"],
  "all matrices within bounds, arbitrary fixed values, overlapping names, repeated runs, every way of running (Simulation, overrides, Environment.run, run, queue)",
  "Tests use one fixed matrix.",
  ["soil/simulation.py", "soil/environment.py"],
  [("Simulation.run / _collect_params / _get_env", "soil/simulation.py"), ("Environment.run", "soil/environment.py"), ("do_not_run queue", "soil/simulation.py")],
  ["parameters received by models", "exporter notifications", "simulation results"],
  "parallel processes (num_processes > 1); empty lists in the matrix")

P("C16", "The same seed gives the same simulation",
  "Two runs of the same model with the same seed and parameters give the same draws, activations, states, networks, messages and collected data, whatever the process's global random state, hash seed, or other models running in between; iterations differ from one another, and so do different seeds.",
  ["inputs", "schedules", "histories", "configurations"],
  "every value of every draw of the model's generator, arbitrary and independent values of every other source of randomness in the two runs, arbitrary hash orders, every interleaving with another model",
  "A test compares two runs of one seed in one process; a stray global draw or set iteration order shows only in other processes.",
  ["soil/environment.py", "soil/simulation.py", "soil/time.py", "soil/agents/__init__.py", "soil/network.py", "soil/agents/network_agents.py"],
  [("seeding of model.random", "soil/environment.py"), ("seed per iteration", "soil/simulation.py"), ("shuffles drawn from model.random", "soil/time.py")],
  ["activation log", "env.G", "model_df", "agent_df", "draws of env.random"],
  "user code that uses other generators; wall clock fields; node labels whose equality (not hash) differs between runs")

P("C17", "Nothing is written unless asked to, and backups lose nothing",
  "A simulation that is not to be dumped, or a dry run, creates, changes and removes no file, whatever its exporters; a dry run runs no model. When results are dumped with backup, the database or file that is replaced is kept whole in a backup of its own, however many there are already; with overwrite the database holds only the new simulation, and otherwise it holds all of them.",
  ["configurations", "histories", "inputs"],
  "every combination of dump, dry_run, backup, overwrite, group, output directory, exporter, iterations and matrix, every sequence of runs or writes within bounds, with arbitrary creation times of the files",
  "Tests check one dump and one dry run; losing a backup needs several runs with unlucky file times.",
  ["soil/exporters.py", "soil/simulation.py", "soil/utils.py"],
  [("Exporter.output, DryRunner", "soil/exporters.py"), ("SQLite.sim_start", "soil/exporters.py"), ("try_backup / safe_open", "soil/utils.py")],
  ["files below the output and working directories"],
  "crashes in the middle of a write; overwrite for CSV files (they are appended to)",
  assumptions=["os.path.getctime may return any value, equal for files of the same instant"])

P("C18", "Exported results are the results",
  "The SQLite database and the CSV files have one row per record of the model and of each agent reported, with the exact values, times and steps of the run, and the simulation, parameters and iteration they belong to; the parameters and the configuration stored are those of the run, and tables of the collector are exported whole. read_sql gives back the same data, and the exported GEXF networks have the same nodes, edges and attributes as the models, which are left as they were.",
  ["inputs", "configurations", "histories"],
  "all real values of attributes, parameters and delays, every graph within bounds, any births, one or several iterations and combinations of parameters, one or several simulations in a database",
  "Tests check that some files exist with some rows.",
  ["soil/exporters.py", "soil/analysis.py", "soil/environment.py", "soil/datacollection.py"],
  [("SQLite / csv / gexf exporters", "soil/exporters.py"), ("get_dc_dfs", "soil/exporters.py"), ("read_sql", "soil/analysis.py")],
  ["rows of the database", "rows of the CSV files", "read_sql()", "gexf files"],
  "rounding and types chosen by SQLite or pandas; the graphdrawing exporter; networks whose labels gexf cannot keep",
  assumptions=["numbers written as text are read back as the same number (symbolic numbers are written as tokens)"])

P("C19", "A configuration that is dumped and loaded is the same configuration",
  "A simulation turned into a dictionary, YAML text or file, and loaded again, has the same name, options, parameters and matrix, with the same values and types, and runs the same model; a class is named so that its name leads back to that class and no other, and a plain value turned into text with the name of its type (serialize) and back (deserialize) is that value. Relative paths in a configuration are relative to its file, or to the current directory if it has none.",
  ["inputs", "configurations"],
  "plain values nested within bounds with arbitrary numbers, awkward strings, every option given or not, every kind of model class (module, nested, shadowing a builtin, in a source file)",
  "Tests dump and load one simple configuration.",
  ["soil/simulation.py", "soil/serialization.py", "soil/config.py", "soil/exporters.py"],
  [("Simulation.to_dict / to_yaml / from_dict", "soil/simulation.py"), ("serialize_dict / name / deserializer", "soil/serialization.py"), ("YAML exporter", "soil/exporters.py")],
  ["attributes of the simulation loaded", "models run"],
  "values that are not plain (numbers, strings, booleans, None, lists, tuples, sets, dictionaries, classes); classes defined within functions")

P("C20", "The command line runs what the file says, changed only as asked",
  "Every simulation of a file (as an object, queued with run(), or in YAML) is run exactly as often as it says, with its own parameters; max_time, max_steps, iterations, seed and parameters are those given in the command line or, if not given there, those of the file. Results go to --output only, are not written with --no-dump, and are of the kinds asked for, each written once; --dry-run and --only-convert run no model. A file that cannot be loaded runs nothing, and leaves no trace for later files.",
  ["inputs", "configurations", "histories"],
  "every combination of settings in the file and the command line with arbitrary numbers, files of up to three simulations in every style, broken files of several kinds before a good one",
  "Tests run a couple of example files without options.",
  ["soil/__init__.py", "soil/simulation.py", "soil/serialization.py"],
  [("main", "soil/__init__.py"), ("from_file / iter_from_py / iter_from_config / run_from_file", "soil/simulation.py"), ("do_not_run queue", "soil/simulation.py")],
  ["models run and their parameters", "files written", "text printed"],
  "--debug, --pdb, --level, --parallel; a simulation that is both at the level of the module and queued")

P("C21", "A Lockstepper advances in fixed intervals without losing activations",
  "Every step of a Lockstepper takes exactly one interval and counts one step; within it, the agents of the wrapped scheduler are activated at exactly the times they asked for that fall in the interval (its start included, its end excluded), in order of time, as often as they ask, and they observe those times.",
  ["inputs", "schedules", "histories"],
  "all real intervals, initial times and delays (absolute times, INFINITY) of up to two agents, several activations in an interval and idle intervals, every scheduler",
  "No test uses intervals other than the default with unit delays.",
  ["soil/time.py", "soil/environment.py", "soil/agents/__init__.py"],
  [("Lockstepper.step", "soil/time.py"), ("BaseEnvironment.now", "soil/environment.py")],
  ["env.now", "agent.now inside step", "schedule.steps"],
  "agents added after the Lockstepper is created; a wrapped scheduler without agents")

P("C22", "The bundled models behave as their settings say",
  "At each activation, a SISaModel agent changes state only through a transition of its state whose probability (times the number of neighbours in the other state, for contagion) is above the value drawn for it, never through one of probability zero, and always if one has probability one; a BassModel agent becomes aware by innovation or by imitation of its aware neighbours in the same way, and then stays aware and acts no more. CounterModel and AggregatedCounter report (from 0 on) the number of activations, neighbours and agents that there are.",
  ["inputs", "configurations", "schedules"],
  "all probabilities and draws, all states and adjacency of the other agents within bounds, all outcomes of the variability of SISa settings, every graph of up to four nodes for the counters",
  "Tests only check that some models run.",
  ["soil/agents/SISaModel.py", "soil/agents/BassModel.py", "soil/agents/CounterModel.py"],
  [("SISaModel.neutral / content / discontent", "soil/agents/SISaModel.py"), ("BassModel.innovation / aware", "soil/agents/BassModel.py"), ("CounterModel.step", "soil/agents/CounterModel.py")],
  ["agent.state_id", "agent attributes", "draws of model.random"],
  "IndependentCascadeModel (its intended behaviour is not documented); the distribution of numpy's normal draws")

P("C23", "Chances and random populations follow the probabilities given",
  "prob(p) is true if and only if the number drawn is below p: never for p <= 0, always for p >= 1. add_agents and populate_network create as many agents as asked (or as there are free nodes), only of the classes given and never of one with weight zero, with chances in proportion to the weights; calculate_distribution splits [0, 1] in the order and in proportion to the weights, and does not modify its input.",
  ["inputs", "configurations"],
  "all real probabilities, draws and weights, lists of up to four classes, all outcomes of the draws",
  "A statistical test of one probability cannot tell p from a nearby value, nor cover boundary weights.",
  ["soil/agents/__init__.py", "soil/environment.py"],
  [("prob / BaseAgent.prob / calculate_distribution", "soil/agents/__init__.py"), ("add_agents / populate_network", "soil/environment.py")],
  ["result of prob", "classes of the agents created", "thresholds", "weights given to the generator"],
  "the quality of the random generator itself")

P("C24", "Networks are created as they were described",
  "A network given as a networkx graph, a node-link dictionary or a file (gexf, gml, graphml, edgelist, adjlist, pajek; by absolute path, or relative to dir_path) has exactly the nodes, edges, direction and attributes that it describes, as far as the format keeps them, and the graph given is copied. A generator, given as a function or by name, is called with exactly the parameters given, plus the model's random numbers as seed if it accepts one; unknown formats are rejected.",
  ["inputs", "configurations"],
  "every graph of up to three nodes (directed or not, multiple edges), arbitrary attribute and parameter values, every way of giving it",
  "Tests load one gexf file and one generator.",
  ["soil/network.py", "soil/environment.py", "soil/serialization.py"],
  [("from_topology / from_params", "soil/network.py"), ("NetworkEnvironment.create_network", "soil/environment.py")],
  ["env.G", "arguments received by the generator"],
  "empty graphs; other formats of networkx; gexf files with labels that are not integers")

P("C25", "Templates expand to every combination of their variables",
  "A template expands to one configuration per sample of its bounded variables and combination of the values of its lists, each with exactly those values in place of the variables and everything else as written; the sampler named is called once, with the variables, bounds and options given. Files may mix templates and plain configurations, which are left as they are; templates are not modified by expanding them, and those without variables, with a name, or of several configurations are rejected.",
  ["inputs", "configurations"],
  "arbitrary numbers sampled and listed, up to three variables and two lists, up to three samples, templates as text or as a dictionary",
  "No test expands a template.",
  ["soil/serialization.py", "soil/simulation.py"],
  [("expand_template / params_for_template / load_file", "soil/serialization.py")],
  ["configurations produced", "arguments received by the sampler", "models run"],
  "the samplers of SALib; Jinja features other than variables",
  assumptions=["numbers rendered as text are read back as the same number"])

P("C26", "A geographic search finds exactly the nodes within the radius",
  "geo_search returns, each once, the nodes with a position and a live agent that meets the criteria given, at a distance from the agent's own node of at most the radius, and no other; the agent's own node is included if and only if center is true.",
  ["inputs", "configurations"],
  "all real coordinates and radii, nodes with or without position and agent, any class or attribute criterion, after deaths",
  "No test uses it.",
  ["soil/agents/geo.py", "soil/agents/network_agents.py"],
  [("Geo.geo_search", "soil/agents/geo.py"), ("NetworkAgent.subgraph", "soil/agents/network_agents.py")],
  ["result of geo_search"],
  "more than four nodes; agents whose own node has no position; rounding of distances",
  assumptions=["scipy's KD-tree returns the points at distance at most r, as documented (replays use the real one)"])

P("C27", "Looking at a simulation neither changes nor breaks it",
  "Logging from agents and models (with any arguments and keyword arguments, at whatever level is enabled), and asking for their text, mapping, selections, neighbours, subgraphs, clocks, data frames or configuration, or exporting them without dumping, in or between steps, never fails and never changes the course of the simulation: activations, times, states, messages, draws, network and data collected are those of the simulation that is not observed. A message reaches the log if and only if its level is enabled, once and with all its parts.",
  ["inputs", "schedules", "configurations"],
  "all real delays and draws, every kind of agent, every level of logging, every way of observing in every place, any kind of value reported, bounded steps",
  "Tests run at one level of logging and look at results only after the run.",
  ["soil/agents/__init__.py", "soil/environment.py", "soil/exporters.py", "soil/agents/network_agents.py", "soil/datacollection.py"],
  [("BaseAgent.log / to_str / items", "soil/agents/__init__.py"), ("BaseEnvironment.log / step / model_df / agent_df", "soil/environment.py"), ("exporters without dump", "soil/exporters.py")],
  ["activation log", "env.now", "datacollector contents", "log records"],
  "the web visualization and the debugger; data frames of agents before any agent was recorded; user code that keeps state in its reporters")

P("C28", "Asking for several processes does not change the results",
  "Running a simulation with any number of processes gives the same results as running it with one: the same environments with the same ids, parameters and data, in the same order, the same notifications to exporters, and a failure if one of the iterations fails.",
  ["inputs", "schedules", "configurations"],
  "every number of processes of those tried, every order in which the tasks of a pool may finish, any values, bounded iterations and parameters",
  "Tests run with one process; the order in which processes end does not show in a few runs.",
  ["soil/simulation.py", "soil/utils.py", "soil/environment.py"],
  [("run_parallel", "soil/utils.py"), ("Simulation._run_iters_for_params / run", "soil/simulation.py")],
  ["environments returned by run()", "calls to exporters", "exceptions"],
  "what real processes add to the pools' documented behaviour: pickling of models, memory that is not shared",
  assumptions=["the pools of multiprocessing and concurrent.futures run each task once, and give the results in the order they promise"])

NOT_APPLICABLE = {}


def NA(id, title, statement, text, why, files, mechanism, reason, over=("schedules", "inputs")):
    NOT_APPLICABLE[id] = dict(title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                              anchors=dict(files=files, state=[], mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=[], hook_needed=None),
                              reason=reason)


NA("N02", "The debugger stops where it is told to",
   "Breakpoints on agents and states stop the simulation before the step or state they name, and nowhere else, without changing the simulation.",
   "every breakpoint and every schedule", "It is interactive.",
   ["soil/debugging.py"], [("Debug, State breakpoints", "soil/debugging.py")],
   "The behaviour is that of CPython's trace hooks and the pdb interactive loop over frames; it is outside what executing the functions with symbolic values can decide.")

NA("N03", "The web visualization shows the state of the model",
   "What the browser shows (network, charts, parameters) is the state of the model at each step, and changing a parameter starts a model with it.",
   "every model, parameter and sequence of user actions", "It needs a browser.",
   ["soil/visualization.py", "soil/web"], [("JupyterViz, GeneralSolara", "soil/visualization.py"), ("SocketHandler", "soil/web/__init__.py")],
   "Rendering is done by solara/tornado and JavaScript in a browser, neither of which is installed here; there is no Python function that decides the property.")

NA("N04", "Independent cascades spread once per contact",
   "In IndependentCascadeModel, an agent infected at some time may infect each of its neighbours once, in the following step, with the probability given.",
   "all probabilities, draws and networks", "No test runs it.",
   ["soil/agents/IndependentCascadeModel.py"], [("IndependentCascadeModel.outside / imitate", "soil/agents/IndependentCascadeModel.py")],
   "The code is an unfinished port (it selects neighbours by numeric state ids that no agent has, and goes back to its initial state when it imitates), and nothing documents what it should do instead, so there is no oracle to decide against.", over=("inputs",))
