def mech(*xs):
    return [dict(name=x.split('@')[0], where=x.split('@')[1]) for x in xs]

A = 'mushroom_rl/'

prop('C01', 'Interaction loop records exactly what happened',
     'Moving an agent for N steps or N episodes executes exactly that many, and the returned dataset lists, in order and without loss or repetition, the transitions that took place: the observation the agent acted on, the action that was executed, the reward and next observation the environment produced, the terminal flag the environment raised, and an end-of-episode flag exactly when the environment terminated or the time limit was reached. '
     'The environment is reset exactly at the beginning of a run and after every ended episode (from the requested initial states, in order, when given), and the policy memory is reset with it and carried along the steps of an episode. '
     'Each step is shown to the step callback exactly once, and state preprocessors attached to the loop are applied to every observation before the agent sees it.',
     ['histories', 'configurations'], 'For every episode-length pattern, horizon, run budget (steps, episodes, initial states), array backend and stateless or stateful policy.',
     'tests run one fixed agent on one grid and compare a few counters; the claim ranges over all interleavings of terminations, time limits and run budgets',
     [A+'core/core.py', A+'core/_impl/core_logic.py', A+'core/agent.py', A+'core/_impl/numpy_dataset.py', A+'core/_impl/torch_dataset.py', A+'core/_impl/list_dataset.py'],
     mech('run loop and step@core/core.py Core._run/_step/_reset', 'budget logic@core/_impl/core_logic.py'),
     ['environment boundary (reset/step log)', 'policy boundary (draw log)', 'returned dataset'],
     'history checker over the environment/policy event log against the returned dataset',
     'Exploration: random termination scripts, horizons, budgets, backends; unique ids in every observation, action and reward make the history unambiguous. Trusts the harness environment and the log.')

prop('C02', 'Every collected sample reaches learning exactly once and on schedule',
     'While learning, the algorithm is fitted exactly after each block of N steps (or N episodes) and at no other time, and each fit receives exactly the samples collected since the previous fit, in order, each exactly once, together with their per-step info and, for episodic agents, the per-episode policy parameters. '
     'After each fit the fit callbacks run once each, in order, on the same data, and a pure evaluation never fits nor runs fit callbacks.',
     ['histories', 'configurations'], 'For every run budget, fit period (steps or episodes), episode-length pattern, backend, and agent kind (step-based, episodic, stateful).',
     'tests check one period on one environment; the claim is about every combination of budget, period and termination pattern',
     [A+'core/core.py', A+'core/_impl/core_logic.py', A+'core/dataset.py', A+'utils/callbacks/collect_dataset.py'],
     mech('fit schedule@core/_impl/core_logic.py fit conditions', 'dataset hand-over and clear@core/core.py Core._run'),
     ['fit entry point', 'fit callbacks', 'step callback'],
     'exactly-once / ordering checker over the fit and callback event log',
     'Exploration of random schedules; exactly-once and order are decided from unique sample ids.')

prop('C03', 'Parallel environments: per-environment histories are faithful',
     'Running an agent on a batch of parallel environments yields, for every environment, exactly the transitions that environment experienced while it was active, in order, with correct terminal and end-of-episode flags, actions routed to the environment they were computed for, and only environments whose episode ended being reset. '
     'The number of collected episodes equals the request (steps are rounded up to a whole parallel step), inactive environments contribute nothing, requested initial states are imposed once each, and every sample is given to learning exactly once, with its info and policy memory, in fit blocks of the requested number of steps or episodes; in flattened data the newest stored step of each environment closes its trajectory.',
     ['histories', 'schedules', 'configurations'], 'For every number of environments, episode-length pattern per environment, run budget, fit period, backend and initial states.',
     'tests use one toy vector environment with fixed seeds; masks, residual steps and staggered resets have many more combinations',
     [A+'core/vectorized_core.py', A+'core/_impl/vectorized_core_logic.py', A+'core/dataset.py', A+'core/vectorized_env.py', A+'core/_impl/numpy_dataset.py', A+'core/_impl/torch_dataset.py', A+'core/array_backend.py'],
     mech('mask logic@core/_impl/vectorized_core_logic.py', 'flattening and residuals@core/dataset.py VectorizedDataset', 'step/reset routing@core/vectorized_core.py'),
     ['vector environment boundary log', 'flattened dataset', 'fit entry point'],
     'per-environment history checker with conservation (in = out + held) over event logs',
     'Exploration with scripted vector environments; unique ids identify environment, episode and step of every sample.')

prop('C04', 'Multi-process environments behave like the same environments run in-process',
     'A batch of environments served by worker processes returns, for every masked reset and step, the observations, rewards, terminal flags and infos that the same environments would produce when run one after another in this process, each worker receiving exactly the action addressed to it and inactive workers not being touched. '
     'Results are never attributed to another environment whatever the relative speed of the workers, a seed given to the batch reaches every worker, imposed initial states reach the environment they are meant for, and releasing the batch leaves no worker process running.',
     ['schedules', 'histories', 'fault_sequences'], 'For every sequence of masked resets and steps, number of workers and injected worker delays.',
     'tests run one schedule with equally fast workers',
     [A+'core/multiprocess_environment.py'],
     mech('command pipe per worker@core/multiprocess_environment.py _env_worker/step_all/reset_all'),
     ['public batch interface', 'worker-side environment log carried in the infos'],
     'differential history monitor under injected worker delays (workers vs in-process reference)',
     'Exploration of random command sequences with random per-worker delays; interleavings are sampled, not enumerated.')

prop('C05', 'Datasets behave like the list of their transitions on every backend',
     'Building, appending to, indexing, slicing, viewing, copying, concatenating, clearing, selecting episodes or random samples of, and exporting a dataset yields exactly the transitions (including policy memory and per-episode parameters) that the same operations yield on a plain list of transitions, identically for every storage backend. '
     'Concatenation marks the end of the first operand as an episode end and leaves both operands unchanged; copies are independent of the original; what is stored is not altered by later changes to the arrays that were appended.',
     ['inputs', 'histories', 'configurations'], 'For every sequence of dataset operations, transition contents, shapes, dtypes and backends.',
     'tests use single datasets and fixed indices; operation sequences are not sampled',
     [A+'core/dataset.py', A+'core/_impl/numpy_dataset.py', A+'core/_impl/torch_dataset.py', A+'core/_impl/list_dataset.py', A+'core/array_backend.py'],
     mech('storage implementations@core/_impl/*_dataset.py', 'dataset front-end@core/dataset.py'),
     ['public dataset interface'],
     'lock-step reference-model monitor (list of transitions) over random operation sequences',
     'Exploration: random operation sequences compared after every operation with a list model.')

prop('C06', 'Episode statistics equal their definition',
     'For every dataset, the per-episode (discounted) return, the episode lengths, the number of episodes, the initial states and the summary metrics equal the values computed from the definition on the list of transitions, also when the last episode is incomplete, when the dataset is empty or holds a single step, and on every backend. '
     'Summary metrics consider complete episodes only.',
     ['inputs', 'configurations'], 'For every sequence of rewards and episode-end flags, discount factor and backend.',
     'tests compare a handful of stored numbers',
     [A+'core/dataset.py', A+'core/array_backend.py'],
     mech('return, length and metric computation@core/dataset.py'),
     ['public dataset interface'], 'definition-based oracle on generated datasets',
     'Exploration: random and boundary reward/flag sequences.')

prop('C07', 'Step infos stay aligned with their transitions',
     'Information dictionaries attached to steps are returned for every key (including nested dictionaries and array values) in the same order and number as the transitions they were attached to, through parsing, viewing, copying, concatenation, clearing and the flattening of parallel runs. '
     'Values of different (flattened) keys never mix, steps lacking a key hold a not-a-number placeholder, and copies are independent of the original.',
     ['inputs', 'histories', 'configurations'], 'For every dictionary structure, number of environments, backend and sequence of operations.',
     'tests use three fixed dictionary shapes',
     [A+'core/extra_info.py', A+'core/dataset.py'],
     mech('deferred parsing and structured storage@core/extra_info.py'),
     ['public info mapping'], 'lock-step reference-model monitor (list of dictionaries)',
     'Exploration: random nested structures and operation sequences.')

prop('C08', 'Saved components come back behaving identically',
     'Saving a library object (spaces and environment descriptions, approximators, policies, distributions, schedules, optimizers, traces, replay memories, datasets, preprocessors, running statistics) and loading it, in the same or another process, gives an object whose observable outputs and subsequent evolution under the same operations are identical to the original, which saving leaves unchanged. '
     'Saving the same object to the same file again, or after further changes, stores the state at the time of the last save.',
     ['inputs', 'histories', 'crash_points'], 'For every serializable class, configuration and history of operations before the save.',
     'tests compare attributes right after loading for a few agents; behaviour after the load is not exercised',
     [A+'core/serialization.py', A+'rl_utils/*.py', A+'approximators/', A+'policy/', A+'distributions/', A+'core/dataset.py'],
     mech('attribute save table@core/serialization.py Serializable'),
     ['save/load entry points', 'outputs of original and reloaded twin'],
     'twin-execution monitor: original and reloaded object driven by identical operations',
     'Exploration over all serializable component classes with random histories before and after the save point.')

prop('C09', 'A reloaded agent continues exactly like the original',
     'An agent saved (with its full state) at any point of its learning and loaded again draws the same actions and, given the same experience and random seed, performs the same updates as the original from then on, for every algorithm of the library (an action already chosen for the next step of a running episode is chosen anew). Saved without its full state it acts the same and can learn on. '
     'Saving does not disturb the running agent.',
     ['crash_points', 'histories', 'configurations'], 'For every algorithm, and every save point in the learning history.',
     'tests check attribute equality directly after loading; continuing to learn after loading is never tested',
     [A+'core/serialization.py', A+'core/agent.py', A+'algorithms/'],
     mech('attribute save table and post-load relinking@algorithms/* _add_save_attr/_post_load'),
     ['save/load entry points', 'policy weights and draws of the twin agents'],
     'twin-execution monitor over save points of the learning history (fault-style restart injection)',
     'Exploration: every algorithm, several save points, comparison of drawn actions and learned parameters afterwards.')

prop('C10', 'Replay memory holds the latest experience and serves it intact',
     'A replay memory of capacity N always holds exactly the last min(N, added) samples, reports its size and readiness accordingly, and every batch it returns consists of stored transitions returned field by field as they were added. '
     'With n-step returns each stored transition carries the discounted reward sum over n consecutive steps of its own episode and the next state and flags of the last of these steps, and windows that would cross an episode end or the end of the added block are not stored; adding experience never alters the data passed in; sequence memories return contiguous pieces of one trajectory with their true history length.',
     ['histories', 'inputs', 'configurations'], 'For every capacity, sequence of additions of any sizes (including larger than the capacity), n, backend and sampling history.',
     'tests reach one addition pattern inside an algorithm run',
     [A+'rl_utils/replay_memory.py'],
     mech('ring buffer@rl_utils/replay_memory.py ReplayMemory', 'n-step return@rl_utils/replay_memory.py', 'sequence sampling@rl_utils/replay_memory.py SequenceReplayMemory'),
     ['add/get boundary'], 'reference-model monitor (deque) with unique sample ids at the add/get boundary',
     'Exploration: random add/get histories against a deque model.')

prop('C11', 'Prioritized memory samples stored data in proportion to its priority',
     'A prioritized replay memory holds exactly the latest samples with the priorities last assigned to them, total priority equals their sum, and a draw selects each stored sample with probability proportional to its priority, never an empty slot or overwritten sample. '
     'The importance weights it returns match these probabilities and the correction exponent, normalized to a maximum of one, and priority updates affect exactly the samples they name.',
     ['histories', 'inputs'], 'For every capacity, history of additions, updates and draws.',
     'tests run one prioritized agent with fixed seeds',
     [A+'rl_utils/replay_memory.py'],
     mech('sum tree@rl_utils/replay_memory.py SumTree', 'priority and weight handling@rl_utils/replay_memory.py PrioritizedReplayMemory'),
     ['add/get/update boundary'], 'reference-model monitor plus probability oracle on the draw function',
     'Exploration: random histories; draw probabilities are decided exactly by sweeping the random variate over the cumulative priorities where possible, statistically otherwise.')

prop('C12', 'Temporal-difference algorithms apply their published update',
     'After every observed transition, each tabular or linear temporal-difference learner (Q-learning, Q(lambda), double, weighted, speedy, maxmin, relative Q-learning, R-learning, SARSA, SARSA(lambda), expected SARSA, true online SARSA(lambda), continuous SARSA variants) holds exactly the value estimates given by its published update rule applied to the transitions seen so far, with no bootstrap from terminal states, step sizes as scheduled per state-action pair, and eligibility traces restarted at episode boundaries. '
     'Entries not involved in the update are left unchanged.',
     ['inputs', 'histories'], 'For every sequence of transitions, rewards, terminations, step sizes, discount and trace parameters.',
     'tests compare the final table of one seeded run on one chain',
     [A+'algorithms/value/td/', A+'rl_utils/eligibility_trace.py', A+'rl_utils/parameters.py'],
     mech('update rules@algorithms/value/td/*.py', 'traces@rl_utils/eligibility_trace.py'),
     ['fit entry point', 'value table after each fit'],
     'lock-step reference implementation of each update rule',
     'Exploration: random transition histories replayed through the learner and an independent reference.')

prop('C13', 'Deep Q-learning variants regress to the published target',
     'At every learning step each deep value-based algorithm (DQN, double, averaged, maxmin, dueling, categorical, noisy, quantile, rainbow) regresses its network toward the target defined by its paper, computed from the sampled batch, the current online network and the target network, with no bootstrap on terminal transitions and n-step discounting where n-step returns are used. '
     'Learning starts only once the memory is ready, one batch per fit, and reward clipping and prioritized weights are applied exactly as configured.',
     ['inputs', 'histories', 'configurations'], 'For every batch content, network parameters, discount and configuration.',
     'tests compare final weights of one seeded run per variant',
     [A+'algorithms/value/dqn/', A+'approximators/'],
     mech('target computation@algorithms/value/dqn/*.py'),
     ['batch leaving the memory', 'regression call of the online approximator'],
     'reference-target monitor at the regression boundary',
     'Exploration: targets recomputed independently from the recorded batch and network outputs for every learning step.')

prop('C14', 'Target networks follow the online network exactly as scheduled',
     'In every algorithm that uses target networks, targets start equal to the online networks; with periodic updates they change only at, and exactly at, every configured number of fits (of learning steps for the categorical, quantile and rainbow variants) and then equal the online parameters (the oldest member of the ensemble for averaged targets), and with soft updates each learning step moves them by exactly the configured fraction toward the online parameters. '
     'Delayed policy updates take place exactly every configured number of critic updates and never touch other networks.',
     ['histories', 'configurations'], 'For every update period, mixing factor, delay, number of learning steps, and algorithm with target networks.',
     'tests look only at the end of one seeded run',
     [A+'algorithms/value/dqn/abstract_dqn.py', A+'algorithms/value/dqn/averaged_dqn.py', A+'algorithms/value/dqn/maxmin_dqn.py', A+'algorithms/actor_critic/deep_actor_critic/deep_actor_critic.py', A+'algorithms/actor_critic/deep_actor_critic/ddpg.py', A+'algorithms/actor_critic/deep_actor_critic/sac.py'],
     mech('hard update@algorithms/value/dqn/abstract_dqn.py', 'soft update@algorithms/actor_critic/deep_actor_critic/deep_actor_critic.py'),
     ['parameters of online and target approximators around each fit'],
     'trace-specification monitor over parameter snapshots around each learning step',
     'Exploration over periods, mixing factors and delays.')

prop('C15', 'Batch value iteration performs exact Bellman backups on its data',
     'Fitted Q-iteration and its double and boosted variants fit, at each iteration, exactly the reward plus discounted greedy (or cross-estimated) value of the next state with zero for terminal next states, for exactly the requested number of iterations (the boosted variant fits one additional model per iteration so that its targets add up to that value); least-squares policy iteration solves for the weights satisfying the projected Bellman equation of its greedy policy on the data. '
     'The data handed to the algorithm is not modified.',
     ['inputs', 'configurations'], 'For every dataset of transitions, discount and number of iterations.',
     'tests compare one seeded run',
     [A+'algorithms/value/batch_td/'],
     mech('backup@algorithms/value/batch_td/*.py'),
     ['regression calls', 'returned weights'], 'reference-target monitor on regression calls and fixed-point residual oracle',
     'Exploration: random small datasets, regression calls intercepted, fixed-point residual evaluated independently.')

prop('C16', 'Return and advantage estimators equal their definition',
     'Monte-Carlo, n-step bootstrapped, and generalized advantage estimates computed from a dataset equal the values obtained from their mathematical definition: bootstrapping stops at terminal states, nothing leaks across episode boundaries, and truncated episodes are bootstrapped from the value of their last next state.',
     ['inputs', 'configurations'], 'For every reward sequence, value function, terminal and end-of-episode flags, discount and trace parameter.',
     'tests reach these functions only inside one seeded run',
     [A+'rl_utils/value_functions.py'],
     mech('recursions@rl_utils/value_functions.py'),
     ['function boundary'], 'definition-based oracle (forward sums) against the recursive implementation',
     'Exploration: random trajectories with all flag patterns.')

prop('C17', 'Deep actor-critic updates follow their published objectives',
     'At every learning step, the off-policy actor-critics (deterministic, twin-delayed, soft) regress their critics to the published target for the sampled batch (smoothed and clipped target actions within the action limits and the minimum of the critics for the twin-delayed and soft variants, the entropy term and its temperature for the soft one, no bootstrap on terminal transitions) and move the actor along the gradient of its published objective. '
     'The on-policy ones (advantage actor-critic, proximal and its recurrent version, trust-region) use advantages (normalized for the proximal and trust-region ones) and value targets from the fresh data, the proximal ones take the clipped-ratio steps over minibatches partitioning the data in each epoch, recurrent sequences are true histories of one episode, and the trust-region step follows the conjugate gradient direction for the damped Fisher matrix scaled to the divergence limit and halved until it qualifies, and never exceeds the configured divergence (by more than its factor 1.5) nor worsens the surrogate objective.',
     ['inputs', 'histories', 'configurations'], 'For every batch content, network parameters, configuration and seed.',
     'tests compare final weights of one seeded run per algorithm',
     [A+'algorithms/actor_critic/deep_actor_critic/'],
     mech('critic target and actor loss@algorithms/actor_critic/deep_actor_critic/*.py', 'line search@algorithms/actor_critic/deep_actor_critic/trpo.py'),
     ['batch leaving the memory', 'critic regression call', 'actor parameters before/after'],
     'reference-target monitor at the regression boundary and shadow optimizer on a copied actor',
     'Exploration: each learning step recomputed on deep copies with an independent implementation.')

prop('C18', 'Discrete policies are exact probability distributions over actions',
     'For every action-value approximator, state and exploration parameter, the action probabilities reported by the epsilon-greedy, Boltzmann and mellowmax policies are non-negative, sum to one and equal their formula (with the exploration share spread over all actions, ties between greedy actions shared equally, the inverse temperature as configured or as solved from the mellowmax equation), and drawn actions follow exactly these probabilities and are valid actions. '
     'Exploration schedules advance once per drawn action (for the visited state only) and, for the epsilon-greedy policy, not when probabilities are queried.',
     ['inputs', 'histories'], 'For every table of action values (including ties, extreme magnitudes and negative values), state, and parameter value.',
     'tests check one table and stored numbers',
     [A+'policy/td_policy.py', A+'approximators/table.py'],
     mech('probability and draw@policy/td_policy.py'),
     ['policy call and draw boundary'], 'formula oracle plus exact draw-distribution monitor (random source swept)',
     'Exploration: random tables with ties and extremes; draw frequencies tested at a 1e-9 false-alarm level.')

prop('C19', 'Continuous policies: densities, samples and gradients agree',
     'For every Gaussian-type policy (fixed, diagonal, state-dependent, log-parameterised covariance, torch Gaussian and Boltzmann, squashed soft-actor-critic, Ornstein-Uhlenbeck, clipped, deterministic), the reported density is that of its stated distribution, drawn actions follow this distribution, reported score gradients are the gradient of the log density with respect to the parameters, entropies match, and setting then reading the parameters returns them. The squashed policy reports the log density of the action rescaled to the unit box. '
     'Clipped and squashed actions always lie within the action limits.',
     ['inputs'], 'For every parameter vector, state and action.',
     'tests evaluate one or two points',
     [A+'policy/gaussian_policy.py', A+'policy/torch_policy.py', A+'policy/noise_policy.py', A+'policy/deterministic_policy.py', A+'algorithms/actor_critic/deep_actor_critic/sac.py'],
     mech('density, draw and gradient@policy/*.py'),
     ['policy call, draw and gradient boundary'], 'closed-form and finite-difference oracles with common random numbers for draws',
     'Exploration: random parameters/states/actions; draws compared through statistical tests at a 1e-9 level.')

prop('C20', 'Parameter distributions: density, samples, gradients and fits agree',
     'For every Gaussian parameter distribution (fixed, diagonal and full covariance, numpy and torch), density, log-density, entropy and score gradient equal those of the stated Gaussian, samples follow it, parameters round-trip, and the (weighted) maximum-likelihood fit equals the weighted sample moments. '
     'The constrained fit stays within the requested divergence from the previous distribution and does not lose more entropy than allowed.',
     ['inputs'], 'For every mean, covariance, sample set, weights and bounds.',
     'tests evaluate a few points with stored results',
     [A+'distributions/gaussian.py', A+'distributions/torch_distribution.py', A+'distributions/distribution.py'],
     mech('density and fits@distributions/*.py'),
     ['distribution interface'], 'closed-form oracles on generated parameters and samples',
     'Exploration: random well-conditioned parameters and weights.')

prop('C21', 'Policy search updates follow their published formulas',
     'At every fit, the policy-gradient methods (episodic and per-step likelihood-ratio, natural) and the black-box methods (parameter-exploring gradients, reward-weighted regression, relative entropy variants, model-based relative entropy, episodic proximal) compute the update given by their published formula from the episodes collected with the parameters that actually generated them, and apply it through the configured step rule. '
     'Relative-entropy weights respect the configured divergence bound, and each new episode runs with parameters drawn from the current search distribution (conditioned on the context of that episode where the search is contextual, with the same context used again when the episode is learned from).',
     ['inputs', 'histories', 'configurations'], 'For every set of episodes, returns, policy parameters, discount and configuration.',
     'tests compare final parameters of one seeded run per algorithm',
     [A+'algorithms/policy_search/'],
     mech('gradient and weight computation@algorithms/policy_search/**.py'),
     ['fit entry point', 'policy/distribution parameters around each fit'],
     'shadow computation of the published estimator on the same episodes',
     'Exploration: random episodes; update recomputed independently and compared.')

prop('C22', 'Schedules and adaptive step sizes take the specified values',
     'Constant, linear, exponential-decay and adaptive (variance-based) parameters return, at each update, exactly the value of their formula for the number of updates of that table entry, respect minimum and maximum, keep entries independent, and are not advanced by reading the value.',
     ['histories', 'inputs'], 'For every configuration, table shape and sequence of updates and reads.',
     'tests reach a few steps of a few schedules',
     [A+'rl_utils/parameters.py', A+'rl_utils/variance_parameters.py'],
     mech('schedule computation@rl_utils/parameters.py', 'variance estimates@rl_utils/variance_parameters.py'),
     ['call and read boundary'], 'lock-step reference model over update/read histories',
     'Exploration: random configurations and update/read sequences.')

prop('C23', 'Gradient step rules move parameters as specified',
     'The fixed-step, adaptive-step and Adam optimizers return, for every sequence of parameters and gradients, the value given by their formula in the maximizing or minimizing direction, without modifying the arrays passed in.',
     ['inputs', 'histories'], 'For every sequence of gradients, learning rate, hyper-parameters and direction.',
     'tests reach them through one seeded run',
     [A+'rl_utils/optimizers.py'],
     mech('step rule@rl_utils/optimizers.py'),
     ['call boundary'], 'lock-step reference implementation', 'Exploration: random gradient sequences.')

prop('C24', 'Built-in environments honour their contract and stated dynamics',
     'Every built-in simulated environment (car on hill, cart-pole, inverted pendulum, LQR, puddle world, segway, ship steering, grid worlds) starts where its reset says (given, fixed or randomly drawn state), evolves and rewards according to its stated dynamics for every admissible action, clips out-of-range actions, raises the terminal flag exactly in its stated terminal set, and returns observations and dimensions consistent with its advertised spaces. '
     'Trajectories are reproducible from the seed and start state, observations already returned are not altered by later steps, and the state passed to reset is respected.',
     ['inputs', 'histories', 'configurations'], 'For every configuration, start state and action sequence.',
     'tests replay one seeded trajectory per environment and compare its end',
     [A+'environments/car_on_hill.py', A+'environments/cart_pole.py', A+'environments/inverted_pendulum.py', A+'environments/lqr.py', A+'environments/puddle_world.py', A+'environments/segway.py', A+'environments/ship_steering.py', A+'environments/grid_world.py'],
     mech('step functions@environments/*.py'),
     ['reset/step boundary'], 'reference-dynamics monitor on reset/step streams',
     'Exploration: random configurations, start states and action sequences incl. extremes, against an independent integrator.')

prop('C25', 'Finite MDPs and their generators are valid and sampled faithfully',
     'Every generated finite MDP (chain, grid world, taxi) has transition rows that are probability distributions (or all zero for terminal states) and rewards, start distribution and walls exactly as the map and parameters specify, and stepping a finite MDP samples next states from the row of the current state and action, returns the reward of the sampled transition, and terminates exactly on terminal states.',
     ['inputs', 'configurations'], 'For every map, size, success probability, reward and start distribution, and every state and action.',
     'tests check two maps with stored matrices',
     [A+'environments/finite_mdp.py', A+'environments/generators/'],
     mech('matrix construction@environments/generators/*.py', 'sampling@environments/finite_mdp.py'),
     ['generated matrices', 'reset/step boundary'], 'invariant and independent-construction oracles over random maps; sampled-transition monitor',
     'Exploration: random maps and parameters; sampling tested statistically at 1e-9 and by support.')

prop('C26', 'Planning solvers return optimal solutions',
     'Value iteration returns values within the accuracy implied by its tolerance of the optimal ones, policy iteration returns exactly optimal values and a greedy policy, and the linear-quadratic solver returns the optimal gain and the exact value, action-value and gradient of any stabilizing linear (Gaussian) controller. '
     'The car-on-hill solver returns the discounted outcome of the shortest successful plan.',
     ['inputs', 'configurations'], 'For every finite MDP, discount and tolerance, and every stabilizable linear-quadratic problem and controller.',
     'tests check one problem each',
     [A+'solvers/dynamic_programming.py', A+'solvers/lqr.py', A+'solvers/car_on_hill.py'],
     mech('solver recursions@solvers/*.py'),
     ['function boundary'], 'optimality-residual and simulation oracles on random problems',
     'Exploration: random problems, Bellman/Riccati residuals, simulated rollouts and finite differences.')

prop('C27', 'Function approximators compute, fit and expose what they claim',
     'Regressors of every kind (tables, linear, tile-coding, neural, generic, per-action, ensembles) predict exactly the function of their current weights for single inputs and batches alike, select the requested action or ensemble member or aggregate, change under fitting only as specified (exact least squares for linear batches, gradient steps on the stated loss for networks, addressed entries for tables), and their weight getters, setters, sizes and derivatives are consistent with the predictions.',
     ['inputs', 'configurations'], 'For every weight vector, input, batch, number of actions and outputs, and ensemble size.',
     'tests compare a few stored predictions',
     [A+'approximators/'],
     mech('prediction, fit and weights@approximators/**.py'),
     ['predict/fit/diff/get_weights/set_weights boundary'], 'reference evaluators and finite-difference monitors',
     'Exploration: random configurations, weights and batches.')

prop('C28', 'Feature maps compute their definition',
     'Gaussian, Fourier, polynomial, random-Fourier, von-Mises and constant features, tilings, Voronoi tilings and functional features return for every input exactly their defining values, identically for single inputs and batches and for the plain and tensor implementations; every tiling activates exactly one tile per tiling for inputs inside its range and none outside, and the advertised feature size is the actual one. '
     'State-action features place the state features in the block of the action and zeros elsewhere.',
     ['inputs', 'configurations'], 'For every input, range, number of features, tiles and actions.',
     'tests compare one stored vector per feature kind',
     [A+'features/', A+'utils/features.py'],
     mech('feature evaluation@features/**.py'),
     ['feature call boundary'], 'definition-based oracle on random inputs and configurations',
     'Exploration: random configurations and inputs incl. boundaries.')

prop('C29', 'Observation normalization is exact and leaves observations alone',
     'Observation preprocessors apply the documented mapping from the statistics of exactly the observations shown to them (standardization with clipping, range normalization of bounded components only), do not alter the observation they receive, and map alike after being saved and loaded; running statistics equal the statistics of the stream (or of the window) they were fed, whatever the batching of the stream.',
     ['inputs', 'histories'], 'For every stream of observations, bounds, batching and backend.',
     'tests use one short stream',
     [A+'rl_utils/preprocessors.py', A+'rl_utils/running_stats.py'],
     mech('mapping and running moments@rl_utils/preprocessors.py, running_stats.py'),
     ['call/update boundary'], 'lock-step reference model over observation streams',
     'Exploration: random streams and bounds.')

prop('C30', 'Array backends agree and spaces describe their elements',
     'Every array operation offered by the numeric backends gives the same values with every backend and the plain mathematical result, conversions between backends preserve values, shapes and precision-safe types, and the packing of padded sequences keeps exactly the valid entries of each environment in order. '
     'Discrete and continuous spaces report the shape, size and bounds they were given.',
     ['inputs', 'configurations'], 'For every array shape, content, mask and backend pair.',
     'tests check a few operations on one shape',
     [A+'core/array_backend.py', A+'rl_utils/spaces.py', A+'utils/torch.py'],
     mech('backend tables@core/array_backend.py'),
     ['backend interface'], 'differential monitor across backends with a plain-Python oracle',
     'Exploration: random arrays and masks through every backend operation.')

prop('C31', 'Logged experiment data is complete, ordered and recoverable',
     'Values and arrays logged for a run are stored on disk in the order and number logged, under their own name and seed, and are recovered unchanged when the run is continued by appending or inspected later; logging for one seed or name never alters the data of another, and the best-agent (of a logger) and last-agent snapshots are the agents that were logged as such. Every message goes once, in order, to the log file of its own logger.',
     ['histories', 'crash_points', 'configurations'], 'For every sequence of logging calls, names, seeds and restarts.',
     'tests log three values once',
     [A+'core/logger/'],
     mech('array append and store@core/logger/data_logger.py'),
     ['logger calls and files on disk'], 'offline checker of the files against the log-call history, with restart injection',
     'Exploration: random logging histories with restarts in a scratch directory.')

prop('C32', 'Runs are reproducible from their seeds',
     'Given the same seed of the global random generators, environment and agent configuration, every algorithm produces identical interaction data and learned parameters on repetition, in the same process or a new one, regardless of what was run before. '
     'Different seeds give different exploration.',
     ['configurations', 'histories'], 'For every algorithm and seed.',
     'tests rely on it but compare only final numbers of one seed within one process order',
     [A+'core/', A+'algorithms/', A+'policy/', A+'approximators/'],
     mech('global generators only@whole package'),
     ['dataset and parameter digests of repeated runs'], 'differential monitor of repeated executions (same process, polluted process, new process)',
     'Exploration: every algorithm run repeatedly with and without unrelated activity in between.')

prop('C33', 'Learning and evaluation never corrupt data they do not own',
     'Fitting, predicting, drawing actions, evaluating and computing statistics leave the experience, states, weights vectors and option dictionaries passed by the caller unchanged, and evaluating an agent does not change its learned parameters, its memories or what it learns afterwards (running observation statistics, which follow every state seen, and exploration schedules, which advance with every action drawn, excepted).',
     ['histories', 'inputs'], 'For every algorithm, dataset and configuration.',
     'tests never compare inputs before and after a call',
     [A+'algorithms/', A+'core/', A+'rl_utils/', A+'approximators/', A+'policy/'],
     mech('copy discipline@whole package'),
     ['digests of arguments before/after each call'], 'argument-integrity monitor (digest before/after) wrapped around public entry points',
     'Exploration: every algorithm; byte digests of arguments around each call.')

prop('C34', 'Classic actor-critic updates follow their published formulas',
     'After every transition the stochastic actor-critic (discounted and average-reward) and the compatible off-policy deterministic actor-critic hold exactly the critic and actor weights given by their published update on the transitions seen so far, with traces reset at episode start and no bootstrap from terminal states.',
     ['inputs', 'histories'], 'For every transition history, features, step sizes and trace parameter.',
     'tests compare one seeded run',
     [A+'algorithms/actor_critic/classic_actor_critic/'],
     mech('update rules@algorithms/actor_critic/classic_actor_critic/*.py'),
     ['fit entry point', 'weights after each fit'], 'lock-step reference implementation', 'Exploration: random transition histories.')

prop('C35', 'Minibatch, angle, frame and derivative helpers are exact',
     'Iterating over minibatches of any set of arrays yields every sample exactly once per pass, in blocks of the requested size (the last possibly shorter), keeps the arrays aligned sample by sample and leaves the arrays unchanged; angle utilities map every angle to its equivalent representative and angle differences to the shortest one, rotation conversions describe the same rotation, stacked frames keep their order and content, and numerical derivatives match the exact ones and leave the differentiated object as they found it.',
     ['inputs', 'configurations'], 'For every number of samples, batch size, number of arrays and angle.',
     'tests do not cover these helpers',
     [A+'utils/minibatches.py', A+'utils/angles.py', A+'utils/frames.py', A+'utils/numerical_gradient.py'],
     mech('shuffled index blocks@utils/minibatches.py', 'wrapping@utils/angles.py'),
     ['generator output'], 'exactly-once and alignment checker with unique ids', 'Exploration: random sizes and angles.')

prop('C36', 'MuJoCo environments report and drive the simulation they wrap',
     'For every model, the observation returned by reset and step is the concatenation, in the order specified, of the named simulator quantities (minus the entries removed, plus those added), also right after a reset and when the joint state is given to reset; each action entry drives the actuator named at its position, one environment step advances the simulation by exactly n_substeps times n_intermediate_steps time steps, the spaces and limits are those of the model, and the user hooks run in the documented order with the documented arguments. '
     'Collision queries and data read or written refer to the named objects. An environment over several models uses one model per episode, chosen in list order or uniformly, with its own geometry, the given time step and its own collision groups, and refuses models with different spaces.',
     ['inputs', 'configurations', 'histories'], 'For every model, specification, number of steps and action sequence.',
     'tests run four fixed environments for twenty steps from the default state',
     [A+'environments/mujoco.py', A+'utils/mujoco/'],
     mech('observation assembly@utils/mujoco/observation_helper.py', 'step loop@environments/mujoco.py'),
     ['reset/step results', 'user hooks'], 'lock-step comparison with a raw twin simulation over generated models',
     'Exploration: random models, specifications and actions.')

prop('C37', 'Gym, Atari, MiniGrid and dm_control wrappers are faithful',
     'An environment wrapped from gym, gymnasium, MiniGrid or dm_control delivers the observations, rewards, end-of-episode flags and step infos of the wrapped environment for the same seed and actions, with its spaces, its horizon unless another is given, and without ever flagging its time limit as an absorbing state; a state given to reset is the state the following steps start from (where the observation is the state), user wrappers are applied in order with their own arguments, and a fixed seed fixes every episode. '
     'The Atari interface repeats each action over the skipped frames summing the rewards, pools the last two frames, stacks the last frames in order, ends the episode at a lost life only when asked and then continues the same game, fires at the start of a game and of a life when the game needs it, and never executes more initial no-op actions than allowed.',
     ['inputs', 'configurations', 'histories'], 'For every wrapped environment, action sequence and configuration.',
     'tests run one short seeded trajectory of one or two environments; gymnasium, Atari and MiniGrid cannot run in the test environment',
     [A+'environments/gym_env.py', A+'environments/gymnasium_env.py', A+'environments/atari.py', A+'environments/gymnasium_atari.py', A+'environments/minigrid_env.py', A+'environments/dm_control_env.py'],
     mech('time limit removal and state setting@environments/gym_env.py', 'frame skipping and lives@environments/atari.py'),
     ['calls received by the wrapped environment', 'reset/step results'], 'lock-step comparison with a raw twin and recorded calls of generated environments',
     'Exploration: generated environments, classic control and dm_control tasks, scripted games.')

prop('C38', 'PyBullet environments report and drive the simulation they wrap',
     'For every set of models, the observation returned by reset and step is the concatenation, in the order specified, of the named body, link and joint quantities and contact flags of the simulation; a contact flag is 1 exactly when the two named links or bodies touch, also within one model and whatever the order of the names. '
     'Each action entry drives the joint named at its position in its control mode within the joint effort and velocity limits, one environment step advances the simulation by exactly n_intermediate_steps time steps, reset restores the initial situation before setup is called, the spaces, indices and joint limits are those of the models (infinite for unlimited joints), and the user hooks run in the documented order with the documented arguments.',
     ['inputs', 'configurations', 'histories'], 'For every model, specification, control mode and action sequence.',
     'tests run four fixed air hockey environments for a few steps',
     [A+'environments/pybullet.py', A+'utils/pybullet/'],
     mech('observation assembly and control@utils/pybullet/index_map.py', 'contact flags@utils/pybullet/contacts.py', 'step loop@environments/pybullet.py'),
     ['reset/step results', 'user hooks'], 'lock-step comparison with a raw twin simulation over generated models',
     'Exploration: random models, specifications and actions.')

prop('C39', 'Air hockey and ball-in-a-cup tasks follow their description',
     'In the MuJoCo and PyBullet air hockey tasks every observation is the planar puck position and linear and angular velocity in the frame of each robot, followed by its joint positions and velocities and by the task flags; a hit or bounce flag is set from the first simulation step of the episode at which the puck touches the end effector of that robot or a short side (PyBullet hit: moves faster than 0.1, only the opponent side) and cleared by reset. '
     'Episodes start in the documented region and velocity range and end exactly when the puck leaves the table or the condition of the task holds in the state reached, the reward is the one of the task in the state reached minus the action penalty, the constraint information, get_puck and get_ee describe the current robots and puck, and the noise, delay, boundary and sub-problem options do what they say in every combination. '
     'The ball-in-a-cup task rewards and ends when the ball is within 5 cm of the goal, ends on contact with the robot, and starts every episode from the same situation.',
     ['inputs', 'configurations', 'histories'], 'For every task, option, action sequence and puck trajectory.',
     'tests run each task for twenty steps from the default start with one constant action and never reach a hit, a goal or the end of an episode',
     [A+'environments/mujoco_envs/', A+'environments/pybullet_envs/'],
     mech('observation frame and flags@environments/mujoco_envs/air_hockey/single.py', 'rewards and end of episode@environments/mujoco_envs/air_hockey/, environments/pybullet_envs/air_hockey/'),
     ['reset/step results', 'simulator state after each simulation step'], 'reference task recomputed from the recorded simulator state',
     'Exploration: thrown pucks and random actions over all tasks and options.')

prop('C40', 'Collection callbacks record the learning history faithfully',
     'Attached to a learning run, the collection callbacks hold after every fit exactly one entry per fit since they were last cleaned: all transitions given to learning in order, the value table (the mean table of an ensemble), the maximal value of the given state and the value of the given parameter entry at that moment. '
     'Later learning or evaluation never changes entries already recorded, evaluation records nothing, cleaning empties the callback (also before anything was collected) without damaging histories handed out before, and observing does not advance the parameter.',
     ['histories', 'configurations'], 'For every learner, order of callbacks and sequence of learning, evaluation and cleaning.',
     'tests attach one callback to one short run and compare the last value',
     [A+'utils/callbacks/'],
     mech('recording@utils/callbacks/collect_q.py, collect_max_q.py, collect_parameters.py, collect_dataset.py'),
     ['fit callbacks', 'collected histories'], 'history checker: copies taken at every fit callback against the collected histories, compared again later',
     'Exploration: random finite MDPs, learners, schedules and phase sequences.')

prop('C41', 'Movement primitives and policy vectors play out their trajectories',
     'A probabilistic movement primitive draws at the t-th step of an episode an action with mean mu(phi(t/duration)) and the given covariance, its phase growing by one step per action, stopping at one unless periodic, restarting with every episode and being recorded unchanged as the policy state; its density is the matching Gaussian. '
     'A dynamic movement primitive follows the explicit Euler trajectory of its canonical and transformation systems from rest, also through goal changes and saving, and reaches its goal whatever its weights. '
     'In black-box optimization each episode is the movement of the parameters drawn for it from its beginning, and in parallel runs the end of one episode never disturbs the movements of the other environments; a vector of policies behaves as that many independent copies, with its own weights, resets and sizes.',
     ['inputs', 'configurations', 'histories'], 'For every primitive, weight vector, episode length pattern and number of environments.',
     'the movement primitives are not touched by any test; policy vectors only through one short run',
     [A+'policy/promps.py', A+'policy/dmp.py', A+'policy/vector_policy.py'],
     mech('phase@policy/promps.py', 'Euler step@policy/dmp.py', 'masked reset@policy/vector_policy.py, algorithms/policy_search/black_box_optimization/black_box_optimization.py'),
     ['draw_action/reset results', 'recorded datasets', 'episode starts'], 'lock-step comparison with reference trajectories, whitened noise tests, twin policies for vectors',
     'Exploration: random primitives, episode lengths and numbers of environments.')

prop('C42', 'Rendering and recording show what happened and change nothing',
     'With render set, the environment is rendered exactly once after every step, and otherwise never; with record set, each environment\'s recorder gets exactly the frames of that environment\'s own steps, in order, also when some parallel environments are inactive, and is closed once at the end of the run; recording without rendering is refused. '
     'The data collected and the behaviour of the environment are the same with and without rendering. The video recorder leaves one readable video per recording with all its frames, at the given size and rate, and never overwrites another recording. '
     'Pictures show the state: objects drawn by the built-in environments and simulators appear where the state says, drawing primitives cover the pixels of their geometric definition, arguments are never modified, and every frame starts clean.',
     ['inputs', 'configurations', 'histories'], 'For every run, budget, number of environments, mask pattern, drawing call and state.',
     'no test renders or records anything',
     [A+'core/core.py', A+'core/vectorized_core.py', A+'utils/record.py', A+'utils/viewer.py', A+'utils/pybullet/viewer.py', A+'utils/mujoco/viewer.py'],
     mech('one frame per step@core/core.py', 'frame to recorder@core/vectorized_core.py', 'video files@utils/record.py', 'drawing@utils/viewer.py'),
     ['frames handed to recorders', 'decoded video files', 'pixels of frames', 'trajectories of rendered and unrendered twins'],
     'trace checker on step/render/record events, decoded videos against the frames given, pixel predicates, twin runs',
     'Exploration: random runs and shapes on headless display drivers; MuJoCo frames through a software renderer.')

prop('C43', 'Plots and experiment summaries show the data they are given',
     'The mean and 95% confidence interval of repeated runs equal the sample mean and the Student-t half width, in the returned values and in the drawn curves. A data buffer holds the latest values received while it was tracking, up to its length, also after saving and loading. '
     'The plotting callback records for every sample the state, action and reward and for every finished episode its return and length, keeps the windows and the tracking state of plots as switched on and off by the user, and draws exactly the buffered data and the bounds of the spaces.',
     ['inputs', 'histories'], 'For every table of runs, sequence of updates, activation history and run.',
     'no test touches the plotting code',
     [A+'utils/plot.py', A+'utils/plots/databuffer.py', A+'utils/plots/window.py', A+'utils/plots/plot_item_buffer.py', A+'utils/callbacks/plot_dataset.py'],
     mech('summary@utils/plot.py', 'buffer@utils/plots/databuffer.py', 'activation@utils/plots/window.py', 'callback@utils/callbacks/plot_dataset.py'),
     ['buffer contents', 'curves of the offscreen plots', 'matplotlib artists'], 'lock-step comparison with list models under random histories',
     'Exploration: random tables, histories and runs on an offscreen display.')
