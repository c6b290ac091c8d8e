"""Writes /verif/properties.jsonl (the property texts live here, in one reviewable place)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })


M = "src/openclsim/model/"
C = "src/openclsim/core/"
K = "src/openclsim/critical_path/"

prop("C01", "Basic activities take exactly their duration and are logged everywhere once",
     "A basic activity (without plugins) that starts at time t finishes at exactly t plus its configured duration. "
     "Per execution its own log and the log of every object listed as additional log receive exactly one START at t and one STOP at t+duration carrying the activity's id; the entries in the other objects are labelled 'additional log' and refer to the activity.",
     ["inputs", "programs"], "every duration (0, fractional, huge), start moment, set of additional logs and surrounding activity tree",
     "tests use a handful of whole-second durations and one or two additional logs in fixed arrangements",
     [M + "basic_activity.py", M + "base_activities.py", C + "log.py"],
     [("BasicActivity.main_process_function", M + "basic_activity.py")], ["logbook of activity and additional logs"])

prop("C02", "Sequential activities run their parts one after another without gap or overlap",
     "The parts of a sequential activity run strictly in the listed order: the first becomes due when the sequence starts and each next one the moment its predecessor is completely done, so that absent own start conditions, plugins or resource contention there is neither gap nor overlap. "
     "The sequence starts with its first part, stops exactly when its last part is done, and logs for every part, in order, one 'subprocess' START when the part becomes due and one STOP when it is done.",
     ["programs", "inputs"], "every tree of nested sequential/parallel/repeat/basic/move activities and every choice of durations (including zero) and start conditions",
     "tests run a few fixed two- or three-part sequences with distinct durations; ordering must hold for every nesting and for equal and zero durations",
     [M + "sequential_activity.py", M + "base_activities.py"],
     [("RegisterSubProcesses.register_sequential_subprocesses", M + "base_activities.py"), ("SequentialActivity.main_process_function", M + "sequential_activity.py")])

prop("C03", "Parallel activities start all parts together and end with the slowest",
     "All parts of a parallel activity become due at the moment the parallel activity starts, and it stops exactly when the last of them is done, whatever the order in which they finish. "
     "It logs one 'subprocess' START per part at its own start and one 'subprocess' STOP per part at the time that part is done, each referring to the right part.",
     ["programs", "inputs"], "every number of parts, nesting and multiset of durations (ties, zero, parts with own start conditions)",
     "tests cover a few fixed pairs and triples with one finish order",
     [M + "parallel_activity.py", M + "base_activities.py"],
     [("ParallelActivity.main_process_function", M + "parallel_activity.py"), ("register_parallel_subprocesses", M + "base_activities.py")])

prop("C04", "Repeat runs its parts exactly the requested number of times",
     "A repeat activity with n>=1 repetitions executes its parts in sequence exactly n times, each iteration beginning the moment the previous one is done, also when nested in other repeats, sequences or parallels (every execution of an enclosing activity runs all n again). "
     "It starts with its first iteration, stops when the last iteration is done, and logs one subprocess START/STOP pair per part per iteration.",
     ["programs", "inputs"], "every nesting of repeats/sequences/parallels, every n>=1, every duration",
     "tests only run fixed small repeats with at most two nesting levels",
     [M + "while_activity.py", M + "base_activities.py", M + "helpers.py"],
     [("ConditionProcessMixin.main_process_function", M + "while_activity.py"), ("GenericActivity.register_process", M + "base_activities.py")])

prop("C05", "While runs whole iterations and stops as soon as its condition has occurred",
     "A while activity always runs at least one iteration, never stops halfway an iteration, and stops after the first complete iteration by whose end its condition has occurred since the while activity started (a condition that occurred during an iteration counts, even if it no longer holds at the end of it). "
     "It does not stop while the condition has not occurred, and each further iteration begins the moment the previous one is done.",
     ["programs", "inputs", "histories"], "every condition of the expression language (container levels, activity done, time, and/or) and every history of events making it occur",
     "tests use full/empty conditions that become true exactly at the end of an iteration",
     [M + "while_activity.py", C + "events_container.py"],
     [("ConditionProcessMixin.main_process_function", M + "while_activity.py"), ("EventsContainer.get_container_event", C + "events_container.py")])

prop("C06", "Start events delay an activity to exactly the moment they occur",
     "An activity with a start event starts at the later of the moment it becomes due (its parent reached it) and the first moment since it was (re)scheduled at which the start event occurred; an event that already occurred is not waited for again. "
     "If and only if this makes it wait, WAIT_START at the moment it became due and WAIT_STOP at the moment of release are logged, in its own log and in its additional logs, before its START.",
     ["programs", "inputs", "histories"], "every start-event expression (time, activity done, container level, and/or/list) on activities at any place in a tree",
     "tests exercise single fixed start events where the event occurs after the activity is due",
     [M + "base_activities.py"],
     [("GenericActivity.delayed_process", M + "base_activities.py"), ("GenericActivity.parse_expression", M + "base_activities.py")])

prop("C07", "Event expressions mean what their and/or/list structure says",
     "An event expression built from 'and', 'or' and lists over elementary conditions occurs at the earliest moment its boolean structure is satisfied by the elementary conditions that occurred so far (and/list: when the last has occurred, or: when the first has occurred). "
     "Elementary conditions are: container level gt/ge/lt/le/full/empty of the named container, completion of all activities registered under a name or id, and reaching a time (immediately if past); unknown types, states or activities are rejected with an exception rather than ignored.",
     ["inputs", "histories"], "every expression tree and every history of level changes and completions; every malformed expression",
     "tests parse a few hand-written expressions of depth at most two",
     [M + "base_activities.py", C + "events_container.py"],
     [("GenericActivity.parse_expression", M + "base_activities.py")])

prop("C08", "Moves take distance over speed, or the given duration, and end at destination",
     "A move activity takes exactly its given duration, or else the WGS84 geodesic distance between mover and destination divided by the mover's speed at departure - a fixed speed scaled by the engine order, or for (multi-)container dependent movers the load-dependent speed for the filled fraction of its total capacity (also scaled by the engine order). "
     "Afterwards the mover is located at the destination (and before that still at its old position), START/STOP in its own log carry the move's id and times, and consecutive moves compose.",
     ["inputs", "histories"], "all coordinates, speeds, engine orders, load levels and move histories",
     "tests check a few coordinates with constant speed and no partial loads in multi containers or engine orders",
     [C + "movable.py", M + "move_activity.py"],
     [("Movable.move/compute_duration/v", C + "movable.py"), ("MoveActivity.main_process_function", M + "move_activity.py")])

prop("C09", "A shift transfers the feasible amount in the specified time",
     "A shift activity that runs undisturbed transfers exactly min(requested amount, content of the origin, free space in the destination) of the addressed container (everything feasible if no amount is given): the origin drops by it when the shift starts and the destination rises by it when the shift stops. "
     "It lasts its given duration, or the amount divided by the loading/unloading rate (or the rate function applied to the appropriate levels) plus the manoeuvring minutes; a shift from an empty origin or to a full destination, with no amount possible, is refused with a ValueError and changes nothing.",
     ["inputs", "histories"], "every capacity, level, amount, rate, manoeuvring time, duration, container id and shift history",
     "tests use fixed round amounts with full loads",
     [M + "shift_amount_activity.py", C + "processor.py"],
     [("ShiftAmountActivity", M + "shift_amount_activity.py"), ("Processor.determine_processor_amount/process", C + "processor.py"), ("LoadingFunction/UnloadingFunction", C + "processor.py")])

prop("C10", "Material is conserved",
     "At every moment the total content of all containers plus the amounts currently under way in running shifts equals the initial total, per commodity. "
     "In particular every finished shift removed from its origin exactly what it added to its destination, and after any completed simulation the totals equal the initial totals.",
     ["programs", "schedules", "histories"], "every fleet (several vessels, sites, commodities), schedule interleaving, delay/weather plugin and moment of observation",
     "tests look at final levels of one or two fixed scenarios",
     [C + "processor.py", C + "events_container.py", M + "shift_amount_activity.py"],
     [("Processor.check_possible_shift", C + "processor.py"), ("EventsContainer.put/get", C + "events_container.py")])

prop("C11", "Container levels stay between zero and capacity",
     "At every moment the level of every container of every site and vessel handled by shift activities lies between zero and its capacity, also when several vessels load from or unload to the same site concurrently (one resource slot per object).",
     ["programs", "schedules"], "every fleet, amounts, capacities and interleaving",
     "tests see few interleavings and only inspect end states",
     [M + "shift_amount_activity.py", C + "processor.py", C + "events_container.py"],
     [("ShiftAmountActivity.main_process_function wait loop", M + "shift_amount_activity.py")])

prop("C12", "Resources are used exclusively up to their capacity and always released",
     "At every moment at most the number of slots of an object's resource are in use: shifts involving the same single-slot site or vessel (as origin, destination or processor) and moves of the same vessel never overlap in time, and activities waiting for a slot get it in the order in which they asked for it. "
     "An activity holds its slots for its whole execution including plugin waiting, and when it is done all slots it does not explicitly keep are released, so that no slot is held after a completed simulation.",
     ["schedules", "programs"], "every fleet and contention pattern, slots >= 1",
     "tests have one contention scenario with fixed timing",
     [M + "base_activities.py", M + "shift_amount_activity.py", M + "move_activity.py", C + "resource.py"],
     [("GenericActivity._request_resource/_release_resource", M + "base_activities.py")])

prop("C13", "Kept resources stay reserved for the activity chain until released",
     "When an activity keeps a resource, no other activity can use that slot from the start of that activity until an activity sharing the same requested-resources administration uses the resource without keeping it (or releases it); activities in the same chain use the kept slot without requesting it again. "
     "All resources not kept are released at the end of the activity.",
     ["programs", "schedules"], "every chain of moves/shifts with any subset of kept resources, with competing outside activities",
     "tests contain one keep_resources scenario",
     [M + "base_activities.py", M + "shift_amount_activity.py", M + "move_activity.py"],
     [("GenericActivity._release_resource kept_resource", M + "base_activities.py")])

prop("C14", "Feasible transport workloads complete",
     "A fleet of vessels cycling (sail empty, load, sail full, unload) between a source and a destination, stopping when the source is empty or the destination is full (one vessel; several vessels moving equal amounts stop when all content or space is reserved), completes all its work: every activity finishes without error, no process stays blocked, and min(source content, destination space) has been transferred. "
     "In general a simulation of activities whose start conditions all occur ends with every registered activity done.",
     ["programs", "schedules", "configurations"], "every number of vessels, capacities, amounts, rates, distances and activity trees with satisfiable conditions",
     "tests have a few fixed fleets; deadlock and lost-wakeup depend on interleavings",
     [M + "while_activity.py", M + "shift_amount_activity.py", C + "events_container.py", M + "base_activities.py"],
     [("container events wake-up", C + "events_container.py"), ("ConditionProcessMixin", M + "while_activity.py")])

prop("C15", "Container events fire exactly when the level satisfies them",
     "An event requested on a container (level gt/ge/lt/le a value, full, empty) is triggered as soon as it is requested if the level currently satisfies the relation, otherwise at the first put/get after which the level satisfies it, and never while the relation has not been satisfied since it was requested. "
     "This holds for any number of coexisting events and containers in one store, and requesting the same condition again after it ceased to hold gives an event that waits for the next time it holds. "
     "(A level that only exists within one moment, between changes nobody waits for, may go unnoticed.)",
     ["histories", "inputs"], "every sequence of put/get/event requests on any number of containers",
     "tests check single events on short fixed histories",
     [C + "events_container.py"],
     [("EventsContainer.get_container_event/update_container_events", C + "events_container.py")])

prop("C16", "Reservation levels reflect assigned but not yet executed shifts",
     "The reservation level of a destination equals its level plus the reserved amounts of all shifts into it that are scheduled but have not delivered, and that of an origin its level minus the reserved amounts of scheduled shifts that have not taken their content; a reservation is the requested amount, or the smaller of both capacities if none was requested, and is replaced by the actual amount on execution. "
     "Hence when nothing is scheduled or under way, reservation levels equal the actual levels, and a loop conditioned on a full (empty) reservation level never assigns a trip beyond the destination's capacity (source's content).",
     ["histories", "programs", "schedules"], "every fleet with reservations, amounts, schedules and moments of observation",
     "tests check reservation levels for two fixed scenarios at the end",
     [M + "shift_amount_activity.py", C + "processor.py", C + "events_container.py"],
     [("ShiftAmountActivity.make_container_reservation", M + "shift_amount_activity.py"), ("Processor.check_possible_shift reservation correction", C + "processor.py")])

prop("C17", "The delay plugin adds exactly the given percentage",
     "An activity with a delay of p percent (p>=0) is followed, directly after its STOP, by a labelled wait of exactly p percent of the time from its START to its STOP (plus plugin time in between), logged as WAIT_START/WAIT_STOP, before it counts as done, its successors start or its resources are released. "
     "With no percentage given the activity behaves exactly as without the plugin.",
     ["inputs", "programs"], "every percentage, duration, activity kind and surrounding tree",
     "tests check a single percentage on one simple cycle",
     ["src/openclsim/plugins/delay.py", M + "base_activities.py"],
     [("DelayPlugin.post_process", "src/openclsim/plugins/delay.py"), ("PluginActivity.delay_processing", M + "base_activities.py")])

prop("C18", "Weather-restricted activities start at the earliest workable window",
     "With a weather criterion an activity that becomes ready at time t (within the data) starts at the earliest s>=t such that from s plus the window delay the criterion (value at most the maximum, or at least the minimum) is met for the whole window length, within a workable period - consecutive samples meeting it, each counting until the next - longer than the window length. "
     "A criterion has exactly one of a maximum and a minimum, anything else being refused. If no window is left the data set is repeated; if the criterion is met throughout the data the activity is not delayed. The waiting is logged with a weather label and no other waiting is added.",
     ["inputs"], "every data set, threshold (including equality), minimum or maximum, window length/delay and start time",
     "tests use a few fixed sine-like data sets",
     ["src/openclsim/plugins/weather.py"],
     [("WeatherPluginActivity.check_constraint/process_data", "src/openclsim/plugins/weather.py")])

prop("C19", "Plugins run in priority order around the activity",
     "For every execution of an activity every registered plugin's pre-processing runs exactly once before the activity's START and its post-processing exactly once after its STOP, in ascending priority and for equal priorities in registration order, and time spent in them delays the START respectively the completion of the activity by exactly that much. "
     "Plugins receive the activity, its log and environment, and on post-processing the moment pre-processing began and the moment the activity started.",
     ["inputs", "programs"], "every multiset of plugins, priorities, waits and activity kinds",
     "tests register at most one plugin per activity",
     [M + "base_activities.py", M + "basic_activity.py", M + "move_activity.py", M + "shift_amount_activity.py", M + "sequential_activity.py", M + "parallel_activity.py", M + "while_activity.py"],
     [("PluginActivity.register_plugin/pre_process/post_process", M + "base_activities.py")])

prop("C20", "Logs are a complete and consistent record of the simulation",
     "In every log each START is closed by a later STOP of the same activity and each WAIT_START by a WAIT_STOP; every entry carries the id of an existing activity, a UTC timestamp of the simulation time, and the state (level, position) its object actually had when it was logged. "
     "For each execution of a move or shift the mover respectively processor, origin and destination have exactly one START and one STOP at the times of the activity itself, carrying that activity's id, also when several activities use an object at the same time; the dictionary-of-lists view of a log has exactly the recorded entries in order.",
     ["programs", "schedules", "inputs"], "every simulated program, resource capacity and epoch",
     "tests compare a few logs with constants",
     [C + "log.py", C + "processor.py", C + "movable.py", C + "container.py", C + "locatable.py"],
     [("Log.log_entry_v1/log", C + "log.py"), ("Processor.process logging", C + "processor.py"), ("Movable.move logging", C + "movable.py")])

prop("C21", "The log dataframe is a faithful, time-sorted view of the log",
     "The log dataframe of any object or activity contains every log entry exactly once - its activity, time, state, object state and label together in one row - sorted by time. "
     "With an id map (activities, including all their nested sub-activities, as list or dict, or a manual id-to-name mapping) ids are replaced by names and unknown ids left as they are.",
     ["programs", "inputs"], "every log including entries recorded out of time order, and every kind of id map",
     "tests check only that it runs or its shape on simple logs",
     ["src/openclsim/plot/log_dataframe.py", C + "log.py", M + "helpers.py"],
     [("get_log_dataframe", "src/openclsim/plot/log_dataframe.py")])

prop("C22", "Simulations are reproducible and invariant under time shift and scaling",
     "Running the same model twice, in one process or in another interpreter, gives the same logs and the same tables made of them, and advancing the simulation in arbitrary small steps gives the same logs as one run. "
     "Starting at another initial time shifts every logged time by exactly that offset, and multiplying all durations and times by a constant multiplies all logged times relative to the start by it, changing nothing else.",
     ["programs", "schedules", "configurations"], "every model, initial time, stepping and scale factor",
     "tests run each model once at one initial time",
     [M + "base_activities.py", M + "helpers.py", C + "processor.py", C + "log.py"],
     [("register_processes deterministic order", M + "helpers.py"), ("log_entry_v1 timestamps", C + "log.py")])

prop("C23", "Registration accepts any declaration order and registers every activity once",
     "Registering a set of activities succeeds in whatever order they are listed, also when they refer to activities listed later, schedules every activity and nested sub-activity exactly once, and the outcome (times of all activities that do not compete for resources) does not depend on the order. "
     "Duplicate names are rejected, and references to activities that exist nowhere are reported as an error instead of being ignored.",
     ["programs", "configurations"], "every forest of activities, every permutation, every reference graph",
     "tests register in one hand-picked order",
     [M + "helpers.py", M + "base_activities.py"],
     [("register_processes/get_subprocesses", M + "helpers.py"), ("GenericActivity.register_process", M + "base_activities.py")])

prop("C24", "Exported activity tables describe the model's tree and relations exactly",
     "The exported activity table lists every activity of the given forest, nested ones included, exactly once with its own id, name and class, the id and name of its direct parent and its depth, so that the tree can be rebuilt, and the id and name of its processor, mover, origin and destination. "
     "The activity-resource table has exactly one row per such relation, the concept table one row per concept, and the CSV files written contain the same tables.",
     ["programs"], "every forest of activities of any depth",
     "tests call the exporters on one model and compare nothing or only shapes",
     ["src/openclsim/io.py"],
     [("get_tree_as_list/get_activities/get_activity_resources/get_concepts", "src/openclsim/io.py")])

prop("C25", "Exported ranges pair every execution's start with its own stop",
     "The ranges table of an object or activity has, per activity id, one row per START in chronological order, whose stop is the STOP of the same execution, with the matching duration in seconds and the container levels at both moments; only executions under way when the simulation was cut off lack a stop. Activities with one label (equal names, or an id map that gives them the same label) have their rows together under that label, each still with its own stop. "
     "The activity log export is the union of these ranges over all activities of the tree with their names and classes.",
     ["programs", "histories"], "every simulated program, also cut off at any moment",
     "tests look at one model",
     ["src/openclsim/io.py"],
     [("get_ranges_dataframe/get_activity_log", "src/openclsim/io.py")])

prop("C26", "Charts show exactly the logged intervals and levels",
     "The gantt chart contains for every activity and every plotted object one bar per execution logged by that object, from its START to its STOP, on the row of that object, labelled via the given id map, and nothing else, also when activities have equal names or labels. "
     "The step chart contains for every object and container the series of logged (time, level) pairs.",
     ["programs", "inputs"], "every simulated program, concept selection and labelling option",
     "tests only check the charts can be made",
     ["src/openclsim/plot/vessel_planning.py", "src/openclsim/plot/step_chart.py", "src/openclsim/plot/log_dataframe.py"],
     [("get_gantt_chart/get_segments", "src/openclsim/plot/vessel_planning.py"), ("get_step_chart", "src/openclsim/plot/step_chart.py")])

prop("C27", "Recorded activities for critical-path analysis match the logs one to one",
     "The table of recorded activities contains for every object and every activity one row per logged execution, part of a structural activity and waiting, with its true start, end, duration, state (active or waiting), name and id, and nothing else. "
     "Rows of one execution seen by several objects share one unique execution id, and rows of different executions (of another activity, or with another start or end) never do.",
     ["programs"], "every simulated program of leaf activities in loops and parallels",
     "tests check the row count of one scenario",
     [K + "base_cp.py"],
     [("combine_logs/reshape_log/add_unique_activity", K + "base_cp.py")])

prop("C28", "Critical activities are exactly those on a longest path",
     "For any set of timed activities and dependencies between them the activities reported as critical are exactly those on at least one chain of dependent activities with the maximum total duration (ending at the same end time as the longest chain), independently of names, ids and row order. "
     "Cyclic dependencies, or dependencies between activities that do not connect in time, are rejected.",
     ["inputs", "programs"], "every acyclic time-consistent activity graph, including ties, parallel branches and disconnected parts",
     "tests check a few hand-made graphs",
     [K + "simulation_graph.py"],
     [("SimulationGraph.__find_critical_edges", K + "simulation_graph.py")])

prop("C29", "Dependencies inferred from logs follow the documented rule",
     "The dependencies inferred from recorded activities are exactly the pairs of distinct executions (A, B) where A ends when B starts and both are recorded on a common object, extended to all executions ending at that moment when a waiting ended then on a shared object of B. "
     "The critical path computed from them consists of recorded executions only, marks exactly the executions (that take time) on a longest chain, executions of no length passing dependencies on, and reports each non-duplicate row once.",
     ["programs"], "every simulated program",
     "tests compare counts for one scenario",
     [K + "dependencies_from_recorded_activities.py", K + "base_cp.py"],
     [("DependenciesFromRecordedActivities", K + "dependencies_from_recorded_activities.py")])

prop("C30", "Dependency-recording environments do not disturb and record true causes",
     "Running a model in the critical-path environment gives exactly the same logs as running it in the ordinary environment. "
     "The dependencies it yields are between recorded executions, each cause ending exactly when its effect starts, free of cycles, and contain for every execution that directly follows another one in a sequence, and every activity released by another's completion, the link between the two.",
     ["programs", "schedules"], "every simulated program of timed activities",
     "tests compare one scenario",
     [K + "dependencies_from_simpy_step.py", K + "base_cp.py"],
     [("CriticalPathEnvironment.step", K + "dependencies_from_simpy_step.py"), ("DependenciesFromSimpy", K + "dependencies_from_simpy_step.py")])

prop("C31", "Positions and distances are geodesic and symmetric",
     "Two objects are at the same place if and only if the WGS84 distance between their positions is below the tolerance (100 m by default), symmetrically. "
     "The sailing distance is the geodesic distance, for routed movers the length of the route (or the part of the path between the projections of both points), independent of direction - a leg that does not lead from one end of the route to the other is refused -, and sailing a leg, a line or a route takes its length divided by the current speed and ends at its end point and node.",
     ["inputs"], "all coordinates, paths, routes, graphs and speeds",
     "tests use a few points; the routing class has one smoke test",
     [C + "locatable.py", C + "movable.py"],
     [("Locatable.is_at", C + "locatable.py"), ("Movable.compute_distance / Routable", C + "movable.py")])

prop("C32", "Identities are unique, stable and honoured",
     "Every object and activity created without an explicit id gets an id different from all others, an explicit id is used unchanged (the old ID keyword with a deprecation warning, both together being refused), and logs, references and exports use exactly that id. "
     "Activities can be referred to by name or id interchangeably.",
     ["inputs", "programs"], "any number of objects with arbitrary (also equal) names and explicit or generated ids",
     "tests check a single deprecated call",
     [C + "identifiable.py", M + "base_activities.py"],
     [("Identifiable", C + "identifiable.py"), ("GenericActivity.parse_expression registry lookup", M + "base_activities.py")])

prop("C33", "Containers for different commodities are independent",
     "In a multi container, putting, getting, shifting, reserving or waiting on one commodity never changes the level, capacity, reservation or events of another, and transferring a commodity behaves exactly as in a container holding only that commodity. "
     "Recorded object states give the level of every commodity at that moment.",
     ["inputs", "histories"], "every number of commodities, capacities and interleaving of transfers",
     "tests use two commodities in one fixed scenario",
     [C + "container.py", C + "events_container.py", C + "processor.py"],
     [("HasMultiContainer / EventsContainer id_", C + "events_container.py")])

prop("C34", "The single-run helper builds the standard cycle",
     "The single-run helper builds one loop of sailing to the origin, loading, sailing to the destination and unloading that by default stops when the origin is empty or the destination is full; running it moves exactly min(content, space) in full loads except possibly the last, with cycle times equal to the sum of sailing and (un)loading times. "
     "Given start or stop events and resources are honoured.",
     ["inputs"], "every content, capacity, vessel size, speed and rate",
     "tests run one parameter set",
     [M + "single_run_process.py"],
     [("single_run_process", M + "single_run_process.py")])

prop("C35", "Objects behave the same in whatever order the mixins are combined",
     "A site, vessel or crane composed of the library's mixins behaves identically - same logs, times, levels, positions and refusals - for every order of the mixins that Python accepts, also when a part is mentioned that another part already brings. "
     "The same holds for the order of the delay and weather mixins of an activity.",
     ["inputs"], "every permutation of the mixins of every documented kind of object, in any workload",
     "tests and examples use one order throughout",
     [C + "container.py", C + "movable.py", C + "processor.py", C + "log.py", C + "events_container.py", "src/openclsim/plugins/delay.py", "src/openclsim/plugins/weather.py"],
     [("cooperative __init__ and get_state of the mixins", C + "log.py")])

prop("C36", "Looking at a simulation does not change it",
     "Reading logs, data frames, charts, tables, levels, positions or container events - at any moment, any number of times, while the simulation runs - changes nothing about its further course, and what was recorded before stays as it was. "
     "Lists, dictionaries, data frames, criteria and expressions given to objects, activities and helpers are not modified.",
     ["histories", "inputs"], "every moment of every run and every order of looks",
     "tests look once, after the end",
     [C + "log.py", C + "events_container.py", "src/openclsim/plot/log_dataframe.py", "src/openclsim/plot/vessel_planning.py", "src/openclsim/plot/step_chart.py", "src/openclsim/io.py", M + "helpers.py"],
     [("Log.log", C + "log.py"), ("get_subprocesses copies its list", M + "helpers.py"), ("EventsContainer events", C + "events_container.py")])

prop("C37", "Models do not influence each other",
     "A model gives the same logs whether it is alone in the process, runs in turns with other models in their own environments, or shares environment and registry with an unrelated part that has its own names and objects - also when they were given the same lists of initial contents, points, expressions, tables of weather and criteria. "
     "Activities that merely wait for its activities or levels do not change it either.",
     ["schedules", "programs"], "every pair of models and every way to take turns",
     "tests run one model at a time in fresh objects",
     [M + "base_activities.py", M + "helpers.py", C + "events_container.py", C + "container.py"],
     [("registry and requested_resources per activity", M + "base_activities.py"), ("events shared by waiters", C + "events_container.py")])

prop("C38", "Activities may be added while a simulation is under way",
     "Activities registered when the simulation has already advanced start from that moment, follow the same rules as others, leave those under way unaffected, and may refer to activities registered earlier: to one that is over as something that has occurred, to one under way as something still to come. "
     "An activity that is over may be registered again and runs as a new one would. "
     "A fleet that has finished work does new work exactly as a fresh one with its present levels and positions would.",
     ["histories"], "every division of a model over moments of registration, and every history of earlier work",
     "tests register everything at the start",
     [M + "base_activities.py", M + "helpers.py", M + "shift_amount_activity.py", C + "events_container.py"],
     [("GenericActivity.parse_expression on finished processes", M + "base_activities.py"), ("release of resources and reservations", M + "shift_amount_activity.py")])

prop("C39", "The critical-path analysis is consistent and its chart shows exactly that",
     "Recorded executions, dependencies and critical path are the same in whatever order and however often they are asked for, and the executions marked as critical are those critical for exactly the listed executions and dependencies. "
     "The chart draws one bar per row of the critical-path table on the row of its object under the name of its activity, and marks exactly the critical ones.",
     ["inputs", "programs"], "every program and fleet, both working dependency analyses, every order of calls",
     "tests compare counts for a few models and never look at the chart",
     ["src/openclsim/critical_path/base_cp.py", "src/openclsim/critical_path/simulation_graph.py"],
     [("BaseCP.get_critical_path_df / make_plotly_gantt_chart", "src/openclsim/critical_path/base_cp.py")])

prop("C40", "The unit in which quantities are expressed carries no meaning",
     "Multiplying all capacities, levels, amounts, rates and level conditions by one factor changes no time, order, position or refusal, and multiplies every recorded level by that factor. Nor does the type of a number: numbers of equal value, whole, floating-point or those of numpy, give the same times, levels and refusals.",
     ["inputs"], "every fleet, program and sequence of transfers, and every factor (powers of two, so that amounts stay exact)",
     "tests use amounts of one magnitude",
     [C + "processor.py", C + "container.py", C + "events_container.py", C + "movable.py", M + "shift_amount_activity.py"],
     [("Processor.determine_processor_amount / check_possible_shift", C + "processor.py"), ("ContainerDependentMovable.current_speed", C + "movable.py")])

prop("C41", "Names carry no meaning",
     "Giving activities, objects and commodities any other distinct names changes nothing but the names: the same logs, times, levels and refusals, references by name resolve to the activity of that name, and the executions and dependencies found by the critical-path analysis are the same.",
     ["inputs"], "every renaming, including words the library itself uses, blanks, numbers and other scripts",
     "tests use plain descriptive names",
     [M + "base_activities.py", M + "helpers.py", C + "events_container.py", "src/openclsim/critical_path/base_cp.py", "src/openclsim/critical_path/dependencies_from_recorded_activities.py"],
     [("registry by name", M + "base_activities.py"), ("EventsContainer id_ / _reservations", C + "events_container.py")])

assert all(len(p["title"]) <= 80 for p in P), [p["title"] for p in P if len(p["title"]) > 80]
pathlib.Path(__file__).resolve().parents[1].joinpath("properties.jsonl").write_text(
    "".join(json.dumps(p) + "\n" for p in P))
print(len(P))
