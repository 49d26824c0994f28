"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
ENV = "gym_anm/envs/anm_env.py"; SIM = "gym_anm/simulator/simulator.py"; PF = "gym_anm/simulator/solve_load_flow.py"
DEV = "gym_anm/simulator/components/devices.py"; BR = "gym_anm/simulator/components/branch.py"
BUS = "gym_anm/simulator/components/bus.py"; CST = "gym_anm/simulator/components/constants.py"
A6 = "gym_anm/envs/anm6_env/anm6.py"; A6E = "gym_anm/envs/anm6_env/anm6_easy.py"
MPC = "gym_anm/agents/mpc.py"; MPCC = "gym_anm/agents/mpc_constant.py"; MPCP = "gym_anm/agents/mpc_perfect.py"
REN = "gym_anm/envs/anm6_env/rendering/py/rendering.py"; SRV = "gym_anm/envs/anm6_env/rendering/py/servers.py"

def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

p("C01", "A seeded reset erases every trace of the past",
  "After any earlier use of an environment - resets, steps, rejected calls, numerical-solver errors, calls interrupted at an arbitrary point, network collapse - a call to reset with a seed starts an episode that is identical, value for value, to the one a freshly constructed environment produces with that seed and the same actions. This covers observations, rewards, flags, the state vector, the timestep counter, the two cost components and the electrical quantities of the whole network.",
  ["histories", "crash_points", "fault_sequences", "configurations"],
  "every network configuration, every history of calls before the reset, every interruption point inside reset or step, every solver error, every seed and action sequence afterwards",
  "The tests only ever reset new environments or environments that ran a few clean steps; none compares an episode after a dirty history with a fresh one.",
  [ENV, SIM, DEV, A6, A6E],
  [("environment reset", ENV + ":reset"), ("network reset and storage re-initialisation", SIM + ":reset"), ("calendar reset", A6 + ":reset")],
  ["return values of reset/step", "env.state, env.timestep, env.e_loss, env.penalty, env.simulator.state"])

p("C02", "Same seed and actions replay the same episode exactly",
  "An environment driven with the same seed and the same actions produces exactly the same observations, rewards, flags and state, bit for bit, on every run. Nothing outside the environment may influence the result: not how long any computation takes on the wall clock, not the global random generators or whoever else draws from them, not hash randomisation, not other environments or earlier episodes in the process.",
  ["schedules", "histories", "configurations"],
  "every seed, action sequence, sequence of seeded and unseeded resets, timing of the optimisation solver, state of the global random generators and hash seed",
  "Tests run once on one machine speed and pin the solver's timing-dependent parameter through a plugin, so they cannot see wall-clock or global-state dependence.",
  [ENV, A6, A6E, DEV, "gym_anm/envs/anm6_env/utils.py"],
  [("per-environment random generator", ENV + ":reset"), ("set-point projection", DEV + ":map_pq"), ("random date", "gym_anm/envs/anm6_env/utils.py:random_date")],
  ["return values of reset/step"])

p("C03", "Environments and agents in one process never affect one another",
  "Any number of environments and MPC agents living in the same process, including deep copies of one another, behave exactly as each would alone, however their reset, step and act calls are interleaved. This holds whether the calls alternate in one thread or run in several threads pre-empted at arbitrary points.",
  ["schedules", "histories", "configurations"],
  "every interleaving of calls on several environments/agents, at call granularity and at source-line granularity between threads, including copies taken in the middle of an episode",
  "No test drives two environments alternately or from two threads; only particular interleavings of shared state would show a difference.",
  [ENV, SIM, DEV, PF, BR, BUS, A6, A6E, MPC],
  [("all mutable state lives in instances", SIM + ":__init__, " + ENV + ":__init__"), ("shared module-level network description is never written", "gym_anm/envs/anm6_env/network.py")],
  ["return values of reset/step/act"])

p("C04", "Network collapse is terminal, absorbing and priced as documented",
  "When the power flow has no solution after an action, step returns terminated=True, a zero observation of the usual size, and a reward of minus the penalty clipping value divided by (1 - discount factor). Until the next reset every further valid action returns the zero observation, reward 0 and terminated=True without sampling or advancing anything, and a later reset starts a normal episode again.",
  ["histories", "fault_sequences", "configurations"],
  "every network, every point of an episode at which the power flow fails (physically or because the linear solver breaks down), every sequence of later calls, every discount factor and clipping",
  "Tests force one collapse in one network; they do not continue episodes afterwards nor combine collapse with clipping, discount factors and solver breakdown.",
  [ENV, SIM, PF],
  [("terminal handling", ENV + ":step"), ("convergence flag", PF + ":solve_pfe_newton_raphson")],
  ["return values of step, calls of next_vars"])

p("C05", "A live grid state always satisfies the AC power-flow equations",
  "Whenever reset returns or step does not report termination, the reported bus voltages (slack bus at its fixed magnitude and zero angle), injections, currents and branch flows all satisfy Kirchhoff's laws for the given network description, the bus injections equal the sums over the connected devices, and every quantity agrees across its units. A numerical-solver breakdown is never passed off as a state, and an operating point that Newton's method solves readily from the usual flat start is not reported as collapsed when the solver works.",
  ["histories", "fault_sequences", "configurations"],
  "every accepted network (any bus numbering, transformer taps and phase shifts, several devices per bus), every history of actions and exogenous values, and every failure of the linear solver during Newton-Raphson (NaN, wrong result, exception)",
  "Tests check three fixed small networks with fixed injections and a working linear solver.",
  [PF, SIM, BR, BUS],
  [("Newton-Raphson acceptance test", PF + ":_newton_raphson_sparse"), ("branch flow equations", BR + ":compute_currents, compute_power_flows"), ("state gathering and units", SIM + ":_gather_state")],
  ["env.simulator.state", "terminated flag"])

p("C06", "Storage never creates, loses or over-fills energy over a history",
  "Along any episode each storage unit's state of charge changes per step exactly by its reported active power times the step duration, scaled by its efficiency (charging power times efficiency is stored, discharging power divided by efficiency is drawn), and stays within its minimum and maximum capacity. Only accepted transitions move it: rejected calls and steps after collapse leave it unchanged, and reset sets it to the sampled initial value limited to the capacity.",
  ["histories", "fault_sequences", "configurations"],
  "every network with storage units, step length, efficiency, history of resets, set-points, rejected calls and collapses",
  "Tests check a single update for one unit; a drift, double count or stale value appears only over a multi-call history.",
  [DEV, SIM, ENV],
  [("state-of-charge update", DEV + ":StorageUnit.update_soc"), ("state-of-charge constraints", DEV + ":StorageUnit.map_pq"), ("initial state of charge", SIM + ":reset")],
  ["des_soc, dev_p in env.simulator.state and observations"])

p("C07", "Applied set-points are always feasible and as close as possible",
  "Whatever an agent requests and whatever demand and generation limits are drawn, the power each device actually injects lies within its operating region for the current step (power limits, capability-curve cuts, currently available generation, energy left or room left in storage, the load's fixed reactive ratio). It is the feasible point closest to the request, so a feasible request is applied unchanged.",
  ["histories", "configurations", "schedules"],
  "every device specification (including omitted limits), every request and draw, every storage history, and every timing of the optimisation solver",
  "Tests check a few hand-picked set-points on fresh devices with the solver's timing pinned.",
  [DEV, SIM],
  [("projection on the operating region", DEV + ":map_pq"), ("operating region construction", DEV + ":_check_type_specific_specs")],
  ["dev_p, dev_q, gen_p_max in env.simulator.state"])

p("C08", "The reward is exactly the documented cost of the new state",
  "For every step that does not end in collapse the reward equals minus the sum of the clipped energy loss and the clipped constraint penalty, where the energy loss is the step duration times (net generator and load injections plus curtailed renewable power) and the penalty is the step duration times lambda times (total voltage-limit excess plus total branch-rating excess), all in per-unit and all computed from the resulting state. The cost components exposed by the environment are those same two clipped values, and reset sets both to zero.",
  ["histories", "configurations", "fault_sequences"],
  "every network, history, clipping setting, lambda and step length, including steps after rejected calls, solver errors and resets",
  "Tests check the reward of single transitions for a few fixed networks without clipping interactions or histories.",
  [SIM, ENV],
  [("reward computation", SIM + ":_compute_reward"), ("clipping", ENV + ":step")],
  ["reward, env.e_loss, env.penalty"])

p("C09", "Observations report the true state in the declared order, units and bounds",
  "Every observation is, entry by entry in the requested order and unit, the corresponding quantity of the current grid state (or auxiliary variable, or the user's function of the state vector), clipped to the declared observation bounds and contained in the observation space; the state vector itself lists device powers, storage levels, generation limits and auxiliary variables in the documented layout. The declared bounds follow the network description, so a quantity within its physical range is never altered by the clipping.",
  ["histories", "configurations", "fault_sequences"],
  "every way of specifying observations (whole state, list with or without units and 'all', user function), every network, every history",
  "Tests sample a handful of observation lists in one network; the product of quantities, units, index sets, bounds and histories is far larger.",
  [ENV, SIM, CST],
  [("variable extraction", ENV + ":_extract_state_variables"), ("bounds", SIM + ":get_state_space"), ("default units", CST + ":STATE_VARIABLES")],
  ["obs returned by reset/step", "env.observation_space", "env.state"])

p("C10", "Returned values are snapshots and inputs are never modified",
  "Observations, states and network-state records already handed to the caller never change because of later calls. Writing into a returned observation, the action array after a step, the arrays returned by the user's sampling functions, or the network description after construction has no effect on the episode, and the library itself never writes into any of them.",
  ["histories", "configurations", "inputs"],
  "every history of calls, every returned or supplied array, every moment at which the caller overwrites it",
  "Tests read each value immediately and throw it away, so aliasing is invisible to them.",
  [ENV, SIM, A6E],
  [("fresh arrays per call", ENV + ":_construct_state, _terminal_state"), ("fresh state record per transition", SIM + ":_gather_state")],
  ["arrays held by the caller"])

p("C11", "A rejected step leaves the episode exactly as it was",
  "A step that is refused - an action outside the action space (wrong shape, type, out of bounds, NaN), a sample of the internal variables with the wrong size, or an exception raised by the user's sampling function - raises an error and changes nothing. The episode then continues exactly as if the refused call had never been made.",
  ["histories", "fault_sequences", "inputs"],
  "every kind of refused call, at every point of every episode, any number of times",
  "Tests check that an error is raised, never that the environment continues unharmed afterwards.",
  [ENV, A6],
  [("argument checks before any mutation", ENV + ":step"), ("calendar advanced only after a successful step", A6 + ":step")],
  ["return values of later steps, env.state, env.timestep, env.date"])

p("C12", "Reset finds a live initial state within 100 draws or fails cleanly",
  "Reset draws initial states until one is not collapsed, at most 100 of them, uses the first good one (even if it is the last allowed draw), and raises the dedicated initialization error after 100 bad ones. A draw of the wrong size is refused with that same error, and after any such failure the environment can be reset again normally.",
  ["histories", "fault_sequences", "configurations"],
  "every number and order of bad draws before a good one (physical collapse or solver breakdown), every network, repeated failures and recoveries",
  "No test makes the initial power flow fail; the retry loop and its error path are never executed.",
  [ENV, SIM, "gym_anm/errors.py"],
  [("bounded retry loop", ENV + ":reset")],
  ["number of init_state calls, exception type, return value of reset"])

p("C13", "MPC agents always return a valid action and never disturb the environment",
  "For every environment and live state the MPC agents return a finite action inside the action space, after any number of previous calls, episodes and interrupted calls. Planning changes nothing in the environment, its random stream or its network, and the answer depends only on the current state, not on earlier calls of the agent beyond the optimiser's tolerance.",
  ["histories", "configurations", "fault_sequences"],
  "every supported network (any numbering of buses and devices, with or without loads, generators or storage), horizon, discount, safety margin and episode history",
  "Tests run the agents on the single built-in network and on fixed states.",
  [MPC, MPCC, MPCP],
  [("problem construction and re-parameterisation", MPC + ":_solve, _update_parameters"), ("clipping", MPC + ":act")],
  ["returned action, env state before and after"])

p("C14", "MPC plans are optimal for the current state and true forecasts",
  "The action returned by an MPC agent is the first stage of a plan that satisfies the documented multi-stage DC optimal power flow for the current storage levels and the agent's forecasts, and no other first stage leads to a cheaper plan. The constant-forecast agent uses the current demand and generation limits at every stage; the perfect-forecast agent uses exactly the demand and generation limits that the environment then realises, also across midnight.",
  ["histories", "configurations", "inputs"],
  "every network, state reached along an episode, horizon length, discount, safety margin and time of day",
  "Tests compare a few objective values for one network; they neither vary numbering nor check forecasts against the realised future along an episode.",
  [MPC, MPCC, MPCP, A6E],
  [("DC optimal power flow", MPC + ":_single_step_optimization_problem"), ("forecasts", MPCC + ":forecast, " + MPCP + ":forecast")],
  ["returned action, realised demand and generation limits"])

p("C15", "Every viewer receives the network description exactly once, before any update",
  "However the browser connections, the environment's messages and the servers' threads are interleaved, each connected viewer that stays connected receives the initial description of the network exactly once and before the first state update. This includes viewers that connect before the description is available, in the middle of an update, or late in the episode.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of viewer connections and disconnections, environment messages and server threads",
  "No test starts the rendering servers; the ordering depends on thread and network timing.",
  [SRV, REN],
  [("description stored and sent to viewers", SRV + ":WsServer.new_client, msg_received")],
  ["messages received by each viewer"])

p("C16", "Every live viewer gets each rendered state once and in order",
  "Each viewer that remains connected receives every state rendered after it has received the description exactly once and in the order rendered, with all delivered copies identical. Viewers that crash, reset or leave at any moment, and the environment's own short-lived connections, neither disturb other viewers nor stop the server or the environment.",
  ["schedules", "fault_sequences", "crash_points"],
  "every interleaving of viewers joining, leaving and crashing with the stream of rendered states, every network delay and reset, server stalls of up to three seconds",
  "No test starts the rendering servers or injects a dead viewer.",
  [SRV, REN],
  [("broadcast", SRV + ":WsServer.msg_received"), ("client bookkeeping", SRV + ":WsServer.new_client, client_left"), ("one connection per update", REN + ":update")],
  ["messages received by each viewer", "exceptions in the environment"])

p("C17", "Rendering start-up succeeds or fails cleanly for any server start timing",
  "The first render call succeeds whenever both servers come up within the documented waiting times, in whatever order and however slowly, and whether or not the default ports are taken; it opens the browser page only when the page can be served. If a server does not come up in time or dies, the call raises within a bounded time, leaves no server process behind, and a later render call can start afresh.",
  ["schedules", "fault_sequences", "configurations"],
  "every start-up delay of either server, refused or failing connection, occupied port, HTTP error and server crash during start-up",
  "No test starts the rendering servers; the outcome depends on process timing and failures.",
  [REN, SRV, A6],
  [("start-up waiting loops", REN + ":start"), ("port selection", SRV + ":_is_port_in_use, _select_random_free_port"), ("first render", A6 + ":render")],
  ["exceptions from render, live server processes, browser openings"])

p("C18", "Closing always stops the servers and rendering can be restarted",
  "After close returns, whatever happened before - normal rendering, resets, collapsed networks, servers or viewers that crashed, a first render that failed - no server process started by the environment is left running. Closing is harmless when repeated or when nothing was rendered, and a later render call starts a working visualisation again.",
  ["histories", "crash_points", "fault_sequences"],
  "every sequence of render, step, reset and close calls, with failures at any point of rendering",
  "Tests never start rendering, so never have anything to close.",
  [A6, REN],
  [("close", A6 + ":close, " + REN + ":close")],
  ["live server processes after close"])

p("C19", "The picture shows the environment's state and never changes it",
  "Every message delivered to a viewer is valid JSON whose content equals the network description, respectively the environment's date, injections, flows, storage levels, voltages, costs and collapse flag at the moment of the render call that sent it, and with skip_frames=n exactly every (n+1)-th render call sends a state update. Rendering has no influence on the episode: observations, rewards and random draws are the same with and without it.",
  ["histories", "configurations", "fault_sequences"],
  "every episode including collapse, unclipped costs and resets, every skip_frames value and render cadence, rendering faults",
  "No test renders; strict JSON and cadence are never checked.",
  [A6, REN],
  [("message content", REN + ":start, update"), ("frame skipping", A6 + ":render"), ("rendering specs", SIM + ":get_rendering_specs")],
  ["messages received by viewers, trajectory with and without rendering"])

p("C20", "The calendar advances by exactly one step length per step",
  "In the six-bus environments the date after n accepted steps (terminal steps included) is the initial date plus n times the step length, for any step length, and the year count is the number of complete 365-day periods since the initial date. The initial date is the one passed in the reset options, or else a midnight in 2020 drawn from the environment's seeded generator, advanced by the time of day in the easy task; refused steps do not advance it, and every reset, or call of reset_date, restarts both.",
  ["histories", "configurations", "fault_sequences"],
  "every step length, initial date, history of steps, refused steps and resets, including year boundaries and leap days",
  "Tests check one step length and never cross a year, an odd step length, or a refused step.",
  [A6, A6E, "gym_anm/envs/anm6_env/utils.py"],
  [("date increment", A6 + ":step"), ("date reset", A6 + ":reset, reset_date"), ("time of day", A6E + ":reset")],
  ["env.date, env.year_count"])

p("C21", "The easy task replays its fixed daily profile from any start time",
  "In the easy task the time-of-day variable starts at a uniformly drawn quarter-hour, increases by one per step and wraps after 96, and at every instant each load draws exactly the profile value of that quarter-hour and each generator's available power is the profile value of that quarter-hour (limited to its capacity). The profile is the same for every environment, episode, day and history.",
  ["histories", "configurations", "fault_sequences"],
  "every seed and start time, episodes of any length, histories with refused steps, solver errors and resets, several environments side by side",
  "Tests look at the time series arrays and a few steps, not at long or disturbed episodes.",
  [A6E],
  [("profile lookup", A6E + ":next_vars, init_state")],
  ["dev_p, gen_p_max, aux in observations"])

p("C22", "Malformed networks and arguments are refused at construction",
  "A network description or environment argument that violates the documented rules (duplicate or unknown identifiers, no or several slack buses, crossed limits, parallel branches, unknown quantities or units, out-of-range constants) is refused with the dedicated error when the environment is constructed.",
  ["inputs", "configurations"],
  "every malformed description or argument",
  "Tests sample single-rule violations.",
  ["gym_anm/simulator/check_network.py", "gym_anm/envs/utils.py", DEV, BR, BUS],
  [("checks", "gym_anm/simulator/check_network.py:check_network_specs, gym_anm/envs/utils.py:check_env_args")])

JS = "gym_anm/envs/anm6_env/rendering/js/"
p("C23", "The browser page always displays the latest state it was sent",
  "Whenever the page has received the network description and a state, in whatever order and however slowly its scripts, its drawing and its connection come up, it displays that latest state: the date and year count, every injection, flow, storage level, voltage and cost as text, bars scaled to the limits of the description, arrows along the sign of each power, potential of the renewable generators, crosses and colours for violated limits, and the mark of a collapsed network. Nothing remains on the page from earlier states, no script error occurs for any state the environment can reach (collapsed networks without numbers included), and losing the connection leaves the last state displayed.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "every sequence of states and of network descriptions, every order and delay in which documents, scripts, the drawing and messages arrive, every moment of losing the connection",
  "There are no tests of the browser code; what is displayed depends on all earlier messages (rotations, colours and crosses are toggled in place) and on the order in which the page's parts finish loading.",
  [JS + "init.js", JS + "graph.js", JS + "devices.js", JS + "reward.js", JS + "dateTime.js", JS + "text.js", REN],
  [("start of the page and message handling", JS + "init.js"), ("drawing of devices, lines and buses", JS + "devices.js"), ("address of the server written into the page", REN + ":write_html")],
  ["the page's drawing (texts, sizes, colours, transforms) after each message"])

p("C24", "Wrapped, vectorised or restored environments continue the same episodes",
  "An environment obtained with gymnasium.make, run in a synchronous vector environment with automatic resets, deep-copied, or restored from a pickle - in the same process or in another one after a crash that only the pickle survived - produces exactly the observations, rewards, flags, dates, exceptions and random draws that the environment itself produces for the same seeds and actions. Returned values always have the types and shapes that Gymnasium's interface prescribes, and episodes are never truncated.",
  ["histories", "configurations", "crash_points", "fault_sequences"],
  "every history of resets, steps, refused steps and collapses, every point at which a checkpoint is taken or the process crashes, any number of sub-environments",
  "Tests construct the classes directly, never wrap, vectorise, copy or pickle an environment in the middle of an episode.",
  [ENV, A6, A6E, SIM, "gym_anm/__init__.py"],
  [("interface", ENV + ":reset, step"), ("registration", "gym_anm/__init__.py"), ("state of an episode", SIM + ":Simulator")],
  ["returned values, exceptions, env.state, env.date"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
