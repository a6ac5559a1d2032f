"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
R = "Python/research/scripts/relnet/"
D = "Python/research/scripts/demo/"
P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "Built samples, sample sets and graphs never change afterwards",
     "Once a sample graph, sample set, relation graph, conditional graph, folded graph or activation graph has been built, "
     "everything that can be read from it stays the same for ever. It does not matter which operations other clients go on to do with the "
     "builders it came from or with builders derived from it, whether those succeed, are rejected or are interrupted half-way, nor "
     "whether callers later change the dictionaries, sets and lists they passed in or the collections they got back.",
     ["histories", "schedules", "fault_sequences"],
     "every interleaving of operations by several clients sharing builders, providers and built objects, with rejected operations, failing call-backs, cancellation at any line and mutation of every caller-owned argument and returned collection",
     "The tests look at an object right after building it; none goes on using the builders, arguments or results while holding an older object, and none interrupts an operation.",
     [R + "graph_components.py", R + "sample_graph.py", R + "sample_set.py", R + "sample_space.py", R + "relation_graph.py", R + "conditional_graph.py", R + "folded_graph.py", R + "activation_graph.py"],
     [("frozenset copies taken in build()", R + "sample_graph.py SampleGraphBuilder.build"), ("dict copy on construction", R + "sample_set.py SampleSet.__init__, SampleSetBuilder.__init__"), ("fresh collections returned by items/samples/values", R + "sample_set.py, sample_graph.py"), ("private copy of variables and relations", R + "graph_components.py BuilderComponentsProvider.__init__")],
     [("nodes/edges cache", "components shared by every sample of a network", R + "graph_components.py BuilderComponentsProvider")],
     ["all public attributes and methods of the built objects"])

prop("C02", "Results do not depend on hash or set iteration order",
     "The same sequence of operations gives the same results - the same samples, counts, probabilities, names given or derived from structure, "
     "text views, and the same accept/reject decisions - whatever order the interpreter happens to iterate sets and dictionaries in (hash seed, hash collisions, "
     "order in which labels, variables or outcomes were supplied). This covers building, set algebra, conditioning, joining, generation, folding and activation.",
     ["schedules", "histories", "configurations"],
     "every assignment of hashes to variable, value and relation labels (hence every iteration order), every insertion order, for every operation history in which each sample has at most one value per variable",
     "The suite runs once, with PYTHONHASHSEED=0 and single-character labels: one iteration order out of all of them.",
     [R + "graph_components.py", R + "sample_graph.py", R + "sample_set.py", R + "sample_space.py", R + "relation_graph.py", R + "conditional_graph.py"],
     [("order-free equality and hashes", R + "sample_graph.py SampleGraph.hash; " + R + "sample_set.py SampleSet.__init__"), ("sorted text", R + "sample_graph.py SampleGraph.name/text_view, sample_set.py __repr__, sample_space.py print_samples"), ("order-free accumulation", R + "relation_graph.py make_joined/joined_on_variables/generate_all_possible_outcomes")],
     observe=["results and exceptions of the public relnet API"])

prop("C03", "Sample builders accept exactly well-formed steps, each all-or-nothing",
     "A sample builder accepts a relation, a directed relation, an edge set or the joining of another sample exactly when every variable, value and relation is known to the network, "
     "the two endpoints belong to different variables, the result stays connected and no pair of nodes gets a second relation (joining also refuses a second value of a variable and accepts what is already there), "
     "and then adds exactly those nodes and edges. A step that is rejected, or fails because the components provider fails, leaves the builder exactly as it was, "
     "and a builder never affects another builder, not even the one it was copied from.",
     ["histories", "fault_sequences", "schedules"],
     "every interleaving of steps on several builders of one network, valid and invalid in every way, with provider failures at any call and any iteration order",
     "Each rejection is tested once on a fresh builder and the builder is not looked at afterwards; provider failures and interleaved builders are not tested.",
     [R + "sample_graph.py", R + "graph_components.py"],
     [("validate before mutating", R + "sample_graph.py add_relation, join_sample, build_from_edges"), ("validate_endpoints / is_edges_connected", R + "sample_graph.py"), ("unknown component assertions and caching", R + "graph_components.py BuilderComponentsProvider.get_node/get_edge")],
     [("_nodes/_edges/_endpoints", "what the builder has accepted", R + "sample_graph.py SampleGraphBuilder")],
     ["SampleGraphBuilder.build of the builder or of a copy"])

prop("C04", "Outcome counts are conserved by every set and builder operation",
     "Sample sets, sample set builders and relation graph builders behave as multisets: adding sums counts, union and joining of sets sum counts per sample, removing takes out exactly the named samples, "
     "filtering keeps exactly the samples the predicate accepts with their counts, copies and round trips through builders lose and invent nothing, and lengths are the sums of the counts. "
     "Two sets are equal (and hash alike) exactly when they hold the same samples with the same counts, and grouping puts two samples together exactly when a chain of samples with common variable pairs links them; "
     "a set has a variable or value, and all its values match, exactly when that is so for its samples, and the joined sample of a set is made of all their nodes and edges or refused. "
     "An operation that is refused (foreign sample, count below one in a relation graph builder, unknown sample to remove) or whose call-back raises changes nothing beyond the items of an adding batch already completed, "
     "and never alters the sets it reads.",
     ["histories", "fault_sequences", "schedules"],
     "every interleaving of clients sharing set builders and relation graph builders, with predicates, build call-backs and iterators that raise or re-enter at any call",
     "Tests do one or two operations on fixed sets of two or three samples; none has a failing call-back, a batch failing half-way or two clients on one builder.",
     [R + "sample_set.py", R + "relation_graph.py", R + "sample_space.py"],
     [("count accumulation", R + "sample_set.py SampleSetBuilder.add/add_all/remove/remove_all"), ("union, join_sample_set, filter_samples", R + "sample_set.py"), ("add_outcome/add_outcomes/build_sample checks", R + "relation_graph.py RelationGraphBuilder")],
     [("_samples", "sample -> count", R + "sample_set.py Samples")],
     ["items(), samples(), count_of(), length, bool, outcomes of built graphs"])

prop("C05", "Joining a factorised network gives exactly its joint distribution",
     "make_joined of a factorised relation graph whose factors hang together and fit together (every factor outcome extends to a choice of one outcome from each factor that agrees on all shared variables) "
     "has exactly one outcome for every such agreeing choice, made of all its nodes and edges, with the product of the chosen counts as its count, and nothing else, under the name given or else that of its source. "
     "The result is the same whatever order the variables and factors are taken in, including factors that form cycles, factors of several edges and single node factors.",
     ["schedules", "inputs"],
     "every elimination order (decided by hash iteration) over generated factor graphs: chains, stars, trees, cycles, multi-edge and single node factors, counts 1..9",
     "Three fixed networks with two values per variable are tested in the single elimination order that PYTHONHASHSEED=0 gives.",
     [R + "relation_graph.py", R + "sample_space.py", R + "sample_set.py", R + "sample_graph.py"],
     [("variable elimination", R + "relation_graph.py make_joined"), ("factor split", R + "sample_space.py factorized"), ("sample join", R + "sample_set.py make_joined_sample, is_all_values_match; sample_graph.py join_sample")],
     observe=["outcomes of RelationGraph.make_joined, is_joined"])

prop("C06", "Joining on chosen variables merges exactly the factors they connect",
     "joined_on_variables on a network whose factors fit together replaces every group of factors connected through the chosen variables by all the combinations of one outcome per factor that agree on all shared variables, "
     "with the product of the counts, and leaves every other outcome and count untouched; with no variables given, all included variables are used, and with an empty set nothing changes. "
     "On a single variable it does so for any network, whether or not its outcomes fit together: outcomes having the variable are grouped by chains of common variable pairs, one outcome per group is combined, and combinations that disagree on a value are dropped. "
     "The result is the same whatever order the variables and groups are taken in.",
     ["schedules", "inputs"],
     "every order of variables and groups over generated networks of edge-disjoint factors and every subset of variables, and over networks of arbitrary outcomes joined on one variable after another",
     "The tests join a few fixed networks in one iteration order, with single-character variable names.",
     [R + "relation_graph.py", R + "sample_set.py"],
     [("group, cross join, replace", R + "relation_graph.py joined_on_variables"), ("grouping", R + "sample_set.py group_intersecting"), ("value agreement", R + "sample_set.py is_all_values_match")],
     observe=["outcomes of RelationGraph.joined_on_variables"])

prop("C07", "Conditioning keeps exactly the outcomes compatible with the evidence",
     "Conditioning a relation graph on evidence selects exactly the outcomes that contain the whole evidence (all its nodes and edges) and the outcomes that share no variable with it, each with its unchanged count, "
     "carries the evidence, and leaves the source graph as it was. Conditioning again on the same evidence changes nothing, and conditioning step by step on growing evidence, with other clients extending the network in between, always answers from the outcomes present when the graph was built.",
     ["histories", "schedules", "fault_sequences"],
     "every interleaving of clients that extend a builder, build snapshots, and condition them (also repeatedly, and with conditioning calls cancelled at any line and retried)",
     "One fixed graph and three pieces of evidence are tested; no chain of conditionings, no snapshot of a growing network, no interrupted query.",
     [R + "relation_graph.py", R + "sample_graph.py", R + "conditional_graph.py", R + "sample_space.py"],
     [("selection rule", R + "relation_graph.py conditional_graph"), ("subgraph test on nodes and edges", R + "sample_graph.py is_subgraph")],
     observe=["ConditionalGraph.outcomes, evidence, name; relation_graph(), builder()"])

prop("C08", "Probabilities, marginals and folded counts are exact count ratios",
     "For any built graph, at any point of the history of its network, the probability of an outcome is its count over the total, the marginal of a variable is the count of outcomes having each value over the outcomes having the variable (over all outcomes, with the rest as unobserved, when asked for), "
     "find_for_values returns exactly the outcomes having all the given values, and the folded graph has for every occurring variable and variable pair the summed counts of each value and relation. Nodes and edges of folded graphs are equal exactly when they hold the same counts for the same variables. "
     "Distributions sum to one, and variables, values and relations reported as included are exactly those occurring in some outcome. "
     "A graph is joined exactly when all its outcomes have the same variables, factorised exactly when no outcome is empty and any two outcomes have the same variable pairs or none in common, and then splits into exactly those factors; otherwise the split is refused.",
     ["histories", "schedules", "fault_sequences"],
     "every snapshot of every interleaved history of several clients, any iteration order, with queries cancelled and retried",
     "Tests check a handful of fixed graphs; no graph that grew by interleaved additions, no derived (conditioned, joined, filtered) graph is cross-checked.",
     [R + "sample_space.py", R + "sample_set.py", R + "folded_graph.py"],
     [("marginal_variables_probability, folded_graph, find_for_values, included_*", R + "sample_space.py"), ("probabilities, probability_of", R + "sample_set.py"), ("marginal_distribution, unobserved_count", R + "folded_graph.py FoldedNode")],
     observe=["return values of the queries named"])

prop("C09", "Threads sharing built graphs get the single-threaded answers",
     "Any number of threads may query the same built samples, sample sets and graphs (conditioning, joining, marginals, folding, activation, text views, derived builders of their own) while one more thread goes on building other samples and outcomes of the same network: "
     "every query returns what it returns when run alone, no query fails, and the building thread gets what it would get alone.",
     ["schedules"],
     "every preemption of 2 to 4 threads between any two lines of library code",
     "The tests are single-threaded; preemption inside library code never happens in them.",
     [R + "sample_graph.py", R + "sample_set.py", R + "sample_space.py", R + "relation_graph.py", R + "graph_components.py"],
     [("built objects are never written after construction", R + "sample_graph.py SampleGraph; sample_set.py SampleSet; sample_space.py SampleSpace"), ("get-or-create caches", R + "graph_components.py get_node/get_edge")],
     observe=["return values of queries in each thread"])

prop("C10", "Generation yields every possible connected sample exactly once",
     "Generating all possible outcomes of a network adds, with count one each, every single node and every connected sample with at most one value per variable and at most one relation per pair of variables that its variables, values and relations allow, and nothing else. "
     "This holds in every iteration order, while other clients build in the same network and after an earlier generation was interrupted, and generation on a builder that already has outcomes is refused and changes nothing.",
     ["schedules", "configurations", "fault_sequences"],
     "every iteration order of networks with up to 4 variables, interleaved with other builders and with cancelled generations",
     "Three small fixed networks are generated in one iteration order.",
     [R + "relation_graph.py", R + "sample_graph.py"],
     [("enumeration, connectivity filter, value substitution", R + "relation_graph.py generate_all_possible_outcomes"), ("is_edges_connected", R + "sample_graph.py"), ("transform_with_replaced_values", R + "sample_graph.py")],
     observe=["outcomes of the built graph"])

prop("C11", "Samples of different networks never mix",
     "A sample, sample set or piece of evidence made in one network is refused by every other network - adding it to a sample set builder or relation graph builder (alone or in a batch), taking the union of sets, joining it into a sample, checking whether it can be joined, conditioning on it - even when both networks use identical variables, values and relations. "
     "The refusal changes neither side, and everything derived inside one network stays usable there.",
     ["histories", "schedules"],
     "every interleaving of clients working on 2 to 3 networks with equal or overlapping labels, at every entry point",
     "Two or three entry points are tested once each with a single foreign sample.",
     [R + "sample_graph.py", R + "sample_set.py", R + "relation_graph.py"],
     [("is_compatible by provider identity", R + "sample_graph.py SampleGraph.is_compatible; sample_set.py Samples.is_compatible"), ("assertions at entry points", R + "sample_set.py add/union; relation_graph.py add_outcome/conditional_graph; sample_graph.py join_sample/can_sample_be_joined")],
     observe=["exceptions and states of both sides"])

prop("C12", "A visualisation is one complete page in the working directory, or an error",
     "Visualising a sample, a graph's outcomes, a folded graph or an activation graph writes exactly one HTML page directly in the current working directory, whatever characters the name or labels contain (names that differ in their letters or digits go to different pages), and touches no other file; "
     "the page shows every node and edge with its labels and counts (a folded graph's page also the network's variables that do not occur, with zero counts; an activation graph's page gives the query other colours than the rest). If the page cannot be written completely (open, write or close fails, disk full) the call raises, and the graph and every other file stay as they were.",
     ["fault_sequences", "inputs", "histories"],
     "every disk fault at any file operation, hostile names (path separators, dots, unicode), repeated and interleaved visualisations of several graphs",
     "Visualisation has no tests.",
     [R + "sample_graph.py", R + "sample_space.py", R + "folded_graph.py", R + "activation_graph.py"],
     [("name sanitising", R + "sample_graph.py visualize; sample_space.py visualize_outcomes; folded_graph.py visualize; activation_graph.py visualize"), ("pyvis show", "pyvis.network.Network")],
     observe=["files in and around the working directory", "nodes and edges embedded in the page"])

prop("C13", "Turns go round robin and the move history replays to the final state",
     "In every game the agents are asked for a move one at a time, in index order starting from the starting index and wrapping round, one move each, each with an observation equal to the current state, until the game is over, and never after that. "
     "The move history lists exactly the moves made in order, and replaying it from the initial state gives the final state and score; only a last move that was rejected may be recorded without effect. "
     "The display is initialised once, updated once after every move with the state after that move, and finished once when a game ends by its rules.",
     ["histories", "schedules", "fault_sequences"],
     "every game with 0 to 4 ghosts, agents of every kind (with or without the optional call-backs), endings by win, loss, crash or timeout",
     "The demo has no tests.",
     [D + "game.py", D + "pacman.py"],
     [("control loop", D + "game.py Game.run"), ("generateSuccessor", D + "pacman.py GameState")],
     [("moveHistory", "moves made", D + "game.py Game"), ("state", "current state", D + "game.py Game")],
     ["calls into agents and display; game.moveHistory, game.state, game.gameOver"])

prop("C14", "Time limits are enforced, and only against agents that exceed them",
     "With exception catching on, an agent whose start-up or move runs past its limit is interrupted within a second of the limit, the game ends flagged as that agent's crash and timeout, and the late move is not played; an agent that overran but returned, exceeded its allowed number of slow-move warnings, or used up its total time is ended in the same way before its move is played. Where the system has no alarm signal the agent cannot be interrupted and is ended as soon as it returns. "
     "An agent that stays within all its limits is never interrupted or penalised, whatever other agents did, however often the system clock is stepped, and whatever happened in earlier turns and games.",
     ["schedules", "fault_sequences", "histories"],
     "every sequence of agent compute times, timeouts swallowed by the agent, clock steps and stalls between the agent's return and the bookkeeping, for every setting of the limits",
     "The demo has no tests, and real-time tests of timeouts could only sample a few durations.",
     [D + "game.py", D + "util.py", D + "pacman.py"],
     [("TimeoutFunction (SIGALRM)", D + "util.py"), ("time bookkeeping, warnings, totals", D + "game.py Game.run"), ("limits", D + "pacman.py ClassicGameRules")],
     [("totalAgentTimes, totalAgentTimeWarnings", "time used, warnings", D + "game.py Game")],
     ["game flags, moveHistory, simulated time of interruption"])

prop("C15", "A failing agent never takes down the game, the process or the streams",
     "With exception catching on, whatever an agent does - raise anything derived from Exception in any of its call-backs, return an illegal or nonsensical move, be missing - the game ends by returning normally, flagged as crashed, blamed on that agent, with the state of the last valid move. "
     "Whether or not exceptions are caught, after the game no alarm is pending, the previous alarm handler is installed and standard output and error are the original streams; what a muted agent prints goes only to its own buffer, and only agents are muted: display and rules write to the original streams throughout.",
     ["fault_sequences", "schedules"],
     "every call-back of every agent at every turn failing in every way, with alarms due at any moment, muted or not, catching or not",
     "The demo has no tests; the interesting failures are an exception with an alarm pending, or between muting and unmuting.",
     [D + "game.py", D + "util.py", D + "pacman.py"],
     [("catch, crash bookkeeping", D + "game.py Game.run/_agentCrash"), ("mute/unmute", D + "game.py Game"), ("alarm handling", D + "util.py TimeoutFunction")],
     observe=["return or exception of Game.run, flags, alarm, handler, sys.stdout/err, agent output buffers"])

prop("C16", "Agents cannot alter the game through the states they are given",
     "Whatever an agent does to the states handed to its start-up, observation and action call-backs - changing positions, directions, timers, food, walls, capsules, score or flags at any depth, at once or in a later turn - the real game, other agents' observations, the recorded initial layout and later games are unaffected. "
     "Likewise, generating successors from any state, in any order and any number of times, never changes that state or any other state held.",
     ["histories", "fault_sequences"],
     "every object reachable from an observation, scribbled on at any time during any game; every tree of successor generation",
     "The demo has no tests.",
     [D + "game.py", D + "pacman.py", D + "layout.py"],
     [("deepCopy of observations", D + "game.py Game.run, GameStateData.deepCopy, AgentState.copy"), ("copy on write of food", D + "pacman.py PacmanRules.consume"), ("new configuration per move", D + "game.py Configuration.generateSuccessor")],
     observe=["full contents of game.state and of every held state before and after"])

prop("C17", "Every move follows the Pacman rules and the score accounts for every event",
     "After any sequence of moves the state equals what the rules say: an agent moves one step (half a step for a scared ghost) in the chosen legal direction, never into a wall, ghosts neither stop nor turn back except in dead ends, food and capsules disappear exactly when Pacman reaches them, and capsules scare all ghosts for 40 of their moves. "
     "The score changes by -1 per Pacman move, +10 per food, +500 on winning (last food eaten), +200 per scared ghost eaten (it returns to its start, no longer scared) and -500 on losing (touching, within 0.7, a ghost that is not scared), and a game is won or lost exactly then. Illegal moves and moves after the end are refused and change nothing.",
     ["histories", "inputs"],
     "every sequence of agent moves on every layout, compared after each move with an executable reference model",
     "The demo has no tests; collisions with half-step positions, several capsules and simultaneous events need long histories.",
     [D + "pacman.py", D + "game.py", D + "layout.py", D + "util.py"],
     [("generateSuccessor", D + "pacman.py GameState"), ("PacmanRules, GhostRules", D + "pacman.py"), ("Actions.getPossibleActions", D + "game.py"), ("Layout parsing", D + "layout.py")],
     observe=["positions, directions, timers, food, capsules, score, win/lose, legal actions"])

prop("C18", "Ghosts always choose a legal move, whatever the random numbers",
     "For every state in which a ghost can move and every stream of random numbers (including values arbitrarily close to 0 and 1) and every attack and flee probability, the random and the directional ghost return a legal action, with exactly one random draw per move, and never fail. "
     "The directional ghost's distribution gives every legal action its share, favours the actions closest to Pacman (farthest when scared) by the given probability, and sums to one; the random ghost's is uniform; and a game of such ghosts always makes progress.",
     ["schedules", "inputs", "histories"],
     "every reachable state of simulated games and every random stream, with extreme values injected",
     "The demo has no tests, and failing random values have probability about 2^-53.",
     [D + "ghostAgents.py", D + "util.py", D + "pacman.py"],
     [("getDistribution", D + "ghostAgents.py"), ("sample, chooseFromDistribution, Counter.normalize", D + "util.py")],
     observe=["action returned, distribution returned, draws consumed"])

prop("C19", "No key press is lost and keyboard Pacman always moves legally",
     "Every key pressed while the window has focus - even pressed and released again between two of Pacman's turns, or delivered while the display animates - is taken into account at one of the next two turns, and a key held down at every turn while it is down; the move is the pressed direction if legal, otherwise continuing in the last direction if legal, otherwise stopping, the stop key stopping at once. "
     "Focus changes forget keys, the last keys stay in force until new ones come, the move chosen is always legal, and stepping by keyboard waits until a key is down.",
     ["schedules", "fault_sequences"],
     "every timing of press, release, auto-repeat and focus events relative to turns, animation and event-loop polls",
     "The demo has no tests and the behaviour depends on the timing of window events.",
     [D + "keyboardAgents.py", D + "graphicsUtils.py"],
     [("keys_waiting/keys_pressed", D + "graphicsUtils.py"), ("_keypress/_keyrelease/_clear_keys", D + "graphicsUtils.py"), ("getAction/getMove", D + "keyboardAgents.py"), ("wait_for_keys", D + "graphicsUtils.py")],
     [("_keysdown, _keyswaiting, _got_release", "keyboard state", D + "graphicsUtils.py")],
     ["action returned by the keyboard agent for the events delivered"])

prop("C20", "The screen shows the game",
     "From the start of a game and after every move, the window shows every agent that has moved at its position of that move (others where they were after their own last move), ghosts in their colour or white while scared, exactly the food and capsules that are left, the walls as at the start, and the current score; Pacman and ghosts look the way they last moved; the animation ends at the new position and takes the frame time. "
     "This holds for every zoom and frame time, whatever window events arrive during drawing, whatever files lie around, and for several games in a row.",
     ["histories", "schedules"],
     "every game history, zoom, frame time and every stream of window events during updates",
     "The demo has no tests and needs a window system.",
     [D + "graphicsDisplay.py", D + "graphicsUtils.py"],
     [("initialize, update", D + "graphicsDisplay.py PacmanGraphics"), ("move_to, move_by, moveCircle, remove_from_screen", D + "graphicsUtils.py")],
     [("agentImages, food, capsules", "canvas items of what is shown", D + "graphicsDisplay.py PacmanGraphics")],
     ["items on the (simulated) canvas, simulated time"])

prop("C21", "Game records are complete, replayable and never overwritten",
     "With recording on, every game of a batch that returns leaves its own file in the working directory, holding the layout and the moves of exactly that game, from which the game can be replayed to the same final state and score. "
     "No record written earlier is ever changed, even by games within the same second or after the clock was set back; if a record cannot be written completely the error reaches the caller, and a partly written file never reads as a record.",
     ["fault_sequences", "crash_points", "schedules"],
     "every disk fault (open, write, short write, close, disk full) and crash during recording, every clock step between games and batches",
     "The demo has no tests.",
     [D + "pacman.py"],
     [("record", D + "pacman.py runGames")],
     observe=["files in the working directory, exceptions"])

prop("C22", "Layouts are found from sub-directories and the working directory is kept",
     "Asking for a layout by name, with or without its extension, returns the one in the layouts folder of the current directory, else in the current directory itself, else likewise from up to three parent directories, nearest first, and None if there is none. "
     "The loaded layout has exactly the walls, food, capsules, Pacman and ghosts of the file, and whatever happens - file vanishes, read error, malformed file - the working directory afterwards is the one before.",
     ["fault_sequences", "configurations"],
     "every placement of layout files in nested directories and every fault of the file operations during the search",
     "The demo has no tests.",
     [D + "layout.py"],
     [("getLayout/tryToLoad", D + "layout.py"), ("processLayoutText", D + "layout.py")],
     observe=["returned layout or exception, working directory"])

prop("C23", "A batch plays exactly the games asked for, each from the initial layout",
     "runGames plays exactly the requested number of games one after another with the given agents and display, each starting from the layout as loaded (no food, score, position or timer left over from an earlier game, even one that crashed), and returns them in order. "
     "The reported scores, average, win rate and win/loss record are those of the returned games.",
     ["histories", "fault_sequences"],
     "every batch of 1 to 4 games with agents that win, lose, crash or time out in any order",
     "The demo has no tests.",
     [D + "pacman.py", D + "game.py"],
     [("runGames", D + "pacman.py"), ("newGame", D + "pacman.py ClassicGameRules"), ("initialize copies layout", D + "game.py GameStateData.initialize")],
     observe=["games returned, initial states, printed summary"])

prop("C24", "Activation weighs values by evidence similarity and relations by count",
     "The activation graph of a conditional graph gives every value of every variable the average over all selected outcomes of: 1 if the value is in the evidence and the outcome, else the outcome's similarity to the evidence (shared nodes and edges over all nodes and edges of both) if the value's node can be reached from the evidence over the allowed relations, else 0. "
     "For relations, per variable pair, it counts the evidence's own edges once per selected outcome and each allowed edge of an outcome that leads one step further away from the evidence, and marks exactly the evidence's variables and edges as in the query. Nodes and edges of activation graphs are equal exactly when variables, weights or counts and mark agree. No selected outcome means all weights zero.",
     ["histories", "schedules", "inputs"],
     "every conditional graph derived from any interleaved history, any iteration order, any relation filter, with computations cancelled and retried",
     "Tests check one fixed conditional graph with two filters in one iteration order.",
     [R + "conditional_graph.py", R + "sample_graph.py", R + "activation_graph.py"],
     [("activation_graph", R + "conditional_graph.py"), ("external_nodes, belt_nodes, similarity", R + "sample_graph.py")],
     observe=["nodes, edges and number of outcomes of the activation graph"])

prop("C29", "A command line plays exactly what it asks for, and with -f always the same",
     "Reading a Pacman command line gives exactly the run it asks for: the named layout, a Pacman agent of the named class with the given agent arguments (and the number of training games, unless given among them), the given number of ghosts of the named class numbered from 1, the display kind with its zoom and frame time, the number of games and of training games, recording, exception handling and time limit; what is not given has its documented default. "
     "Agent classes are looked up in the *gents.py modules of the PYTHONPATH directories and then of the working directory; directories that do not exist and modules that cannot be imported are passed over. What cannot be satisfied (malformed options, a layout or agent that is not found, a keyboard agent without graphics) ends in an error before any game is set up. "
     "Training games come first, are played on a quiet display and are not among the returned games; all games are played by the agents, and from the layout, that were asked for. With -f the same command plays the same games whatever state the random numbers were in; without it they are not seeded.",
     ["histories", "fault_sequences", "inputs"], "every command line over the documented options in every notation and order, every tree of module directories with missing directories, failing imports and modules that vanish after being listed, every state of the random numbers, several commands one after another",
     "The demo has no tests.",
     [D + "pacman.py"],
     [("readCommand, parseAgentArgs", D + "pacman.py"), ("loadAgent", D + "pacman.py"), ("runGames", D + "pacman.py"), ("random.seed", D + "pacman.py readCommand")],
     observe=["arguments for runGames, games set up and returned, exceptions, files written, moves of games played twice"])

prop("C30", "Random draws return only possible values, each with its probability",
     "Drawing from a counter, a dictionary, a list of probabilities with values or a list of (probability, value) pairs always returns one of its values, whatever random number comes, extreme ones included: never one of probability zero, and each on a share of the random numbers equal to its probability (counters, dictionaries and probabilities with values are normalised). A draw uses one random number; n draws return n values and use n of them. A coin of probability p falls true on a share p of the random numbers, never for 0 and always for 1. "
     "Asking for the probability of a value gives the sum over its occurrences. Drawing and asking change no distribution, and a weight changed in between counts from the next draw on.",
     ["schedules", "histories", "inputs"], "every sequence of random numbers, extreme ones included, every distribution with zero, tiny and huge weights and rounding errors in its sum, draws of several clients and changes of the weights interleaved",
     "The demo has no tests; the failing random numbers come once in 2**53 draws.",
     [D + "util.py"],
     [("sample, nSample, sampleFromCounter", D + "util.py"), ("chooseFromDistribution", D + "util.py"), ("flipCoin, getProbability", D + "util.py")],
     observe=["values returned for chosen random numbers, random numbers used, distributions afterwards"])

prop("C31", "Game states are recognised however they were reached",
     "Two states of games on one layout are equal exactly when the positions, directions and scared times of all agents, the food, the capsules and the score agree; equal states have equal hashes, however they were reached, replayed or copied, so that a table keyed by states finds exactly the entries of equal states. A state equals nothing that is not a state. While a state is held its hash, its text and what it consists of never change, whatever is done with other states. "
     "The text of a state shows its board (capsules, else agents, else food, walls) and score. The explored states handed out are exactly the states expanded since the last time and their successors. Grids compare, count, list and print their cells, and survive being packed into numbers. The neighbours, successor positions and directions that a searcher asks for agree with the moves of the game.",
     ["histories", "schedules", "fault_sequences", "inputs"], "every interleaving of clients that expand, replay, copy, edit and compare states of games on one layout, with refused moves and calls cut off at any line and repeated",
     "The demo has no tests.",
     [D + "pacman.py", D + "game.py"],
     [("GameState.__eq__/__hash__/__str__, explored", D + "pacman.py"), ("GameStateData, AgentState, Configuration, Grid equality and hash", D + "game.py"),
      ("packBits, reconstituteGrid", D + "game.py"), ("Actions.getLegalNeighbors, getSuccessor, Directions", D + "game.py")],
     observe=["==, hash, str of states, agents and grids; dictionaries keyed by states; getAndResetExplored"])

prop("C32", "The demo program plays one whole game with its player",
     "Started where it finds its layout, the demo program plays exactly one game on it: Pacman moved by the player's keys, against two ghosts that make legal moves, agents in turn, every move by the rules and shown in one window, each of Pacman's moves taking the frame time of 0.1 s. When the game is won or lost the window goes, the summary of this one game is printed and the program ends; it ends in no other way, except that closing the window at any moment of the game ends it, with exit status 0 and without a summary, before Pacman's next move but one. It leaves no files behind.",
     ["schedules", "fault_sequences", "histories"], "every layout with two ghosts, every sequence of keys, focus changes and other window events at any time, the window closed at any time, every random number, slow event handling",
     "The demo has no tests and needs a window system and a player.",
     [D + "demo.py", D + "pacman.py", D + "graphicsUtils.py", D + "graphicsDisplay.py", D + "keyboardAgents.py", D + "ghostAgents.py"],
     [("main, _build_configuration", D + "demo.py"), ("runGames", D + "pacman.py"), ("_destroy_window, end_graphics, sleep", D + "graphicsUtils.py")],
     observe=["window contents, moves, printed summary, exit, files"])

prop("C25", "Inference agrees with Bayesian and Markov networks on equivalent models",
     "Marginals of a joined relational network built from the factors of a Bayesian or Markov network equal those of exact inference in that network.",
     ["inputs"], "every discrete Bayesian or Markov network that the experiments' encoding can express",
     "The experiments compare a few fixed networks by eye.",
     [R + "relation_graph.py", "Python/research/scripts/experiments/comparing_with_bayes_network.py"],
     [("encoding of factors as outcomes", "Python/research/scripts/experiments")])

prop("C26", "Structural queries answer from exactly the sample's nodes and edges",
     "For every sample, however it was obtained and whatever was asked, built, cancelled or failed before, the structural queries answer from exactly its own nodes and edges: neighbours, belt nodes (one step away) and external nodes (everything reachable outside the given nodes) are each returned with the edges that connect them to nodes nearer the given ones, over allowed relations only (no filter or an empty one allows all); similarity is the share of common nodes and edges among all of both (1 for two empty samples); a.is_subgraph(b) holds exactly when b has all nodes and edges of a, equality when both have the same; restriction to variables, contained variables and values, views and value replacement likewise. A query changes neither the sample nor the sets it was given, and an answer that its caller changes never shows up in a later answer.",
     ["histories", "fault_sequences", "schedules", "inputs"], "every sample reached by any interleaving of builds, joins, copies and transformations, every centre and filter, with queries cancelled at any point and repeated, provider failures, callers that modify the answers, and any iteration order",
     "Tests check a few fixed samples, each built directly and asked once.",
     [R + "sample_graph.py", R + "graph_components.py"],
     [("belt_nodes, external_nodes, neighboring_values", R + "sample_graph.py SampleGraph"),
      ("similarity, is_subgraph, __eq__/hash", R + "sample_graph.py SampleGraph"),
      ("transform_with_replaced_values, variables_subgraph_hash, views", R + "sample_graph.py SampleGraph"),
      ("opposite_endpoint, equality of nodes and edges", R + "graph_components.py")],
     observe=["answers of the query methods"])

prop("C27", "The demo's containers behave as stack, queue, priority queue and counter",
     "Stack, Queue, PriorityQueue and Counter of the demo utilities follow their usual abstract data types.",
     ["inputs"], "every sequence of operations", "The demo has no tests.",
     [D + "util.py"], [("container classes", D + "util.py")])

prop("C28", "Walls are drawn as closed outlines of the wall cells",
     "The wall lines and arcs on the window form closed, gap-free outlines of the wall cells of the layout.",
     ["inputs"], "every layout", "The demo has no tests.",
     [D + "graphicsDisplay.py"], [("drawWalls", D + "graphicsDisplay.py PacmanGraphics")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
