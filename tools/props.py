NOTES = ("Every check is bash check.sh <ID> <tier>; a replay file is re-run with bash check.sh --replay <file>. "
         "The seams are installed from /verif at run time; no hooks are committed in /repo.")
BASE_NOTE = ("Seeded search, not exhaustive: a clean batch is evidence for the explored schedules, histories and "
             "fault sequences only. ")
PROPS = [
    dict(
        id="R01", title="Sampled replay transitions are faithful to the collected history",
        statement=("Whatever a collector has appended so far, every row a learner samples from the replay buffer equals one "
                   "transition of that history: state (zero padded at episode starts when frames are stacked), action, extra "
                   "fields, n-step discounted reward or reward list, number of steps, terminal flag and following state and "
                   "fields. Batches already handed out are not changed by later additions, and malformed transitions are "
                   "refused without affecting what is sampled afterwards."),
        over=["histories", "configurations", "schedules", "fault_sequences"],
        text=("every interleaving of additions, refused additions and reads, every capacity, stack size, horizon, discount, "
              "field set and output format, over any number of wrap-arounds and with arbitrary contents of fresh memory"),
        why=("tests fill the buffer in a few fixed patterns and read at the end; mistakes at the wrap-around, at short episodes "
             "or with unwritten memory need particular histories"),
        files=["reagent/replay_memory/circular_replay_buffer.py"],
        mech=[("padding and circular write", "ReplayBuffer.add/_add_transition"),
              ("stack and multi-step gather", "ReplayBuffer.sample_transition_batch")],
        observe=["ReplayBuffer.add", "ReplayBuffer.sample_transition_batch", "ReplayBuffer.sample_all_valid_transitions"],
        tech="collector/learner interleavings against a history model, refused adds and dirty memory injected",
        note=BASE_NOTE + "Contents documented as undefined (after a terminal step) are not compared.",
    ),
    dict(
        id="R02", title="Exactly the complete, still stored transitions are sampleable",
        statement=("After any history, the set of sampleable transitions is exactly those whose full stacked past is still stored "
                   "and whose multi-step future is complete or ended by a terminal; the reported size is its cardinality and a bulk "
                   "read or data-set export returns each exactly once. Random sampling draws every one of them with equal "
                   "probability, never anything else, and is refused when there is none."),
        over=["histories", "configurations", "fault_sequences"],
        text="every history of accepted and refused additions, at every step of it, for every capacity, stack size and horizon",
        why=("tests check a handful of fixed histories; validity is maintained incrementally, so a slip shows only after "
             "particular sequences of episode lengths and wrap-arounds"),
        files=["reagent/replay_memory/circular_replay_buffer.py", "reagent/replay_memory/utils.py"],
        mech=[("incremental validity flags", "ReplayBuffer.add/set_index_valid_status"),
              ("export of the buffer as a data frame", "replay_memory/utils.py replay_buffer_to_pre_timeline_df")],
        observe=["ReplayBuffer.size", "is_valid_transition", "sample_index_batch", "sample_all_valid_transitions",
                 "replay_buffer_to_pre_timeline_df"],
        tech="step-by-step comparison with a history model, refused adds injected",
        note=BASE_NOTE + "Uniformity is judged by bounds that a uniform draw misses with probability below 1e-15.",
    ),
    dict(
        id="R03", title="Replay buffer checkpoints are crash safe and restore everything",
        statement=("A checkpoint whose save returned can be loaded into a fresh process and then samples, reports and continues "
                   "exactly like the buffer that was saved, until four newer iterations replace it or the disk damages it. A save "
                   "interrupted by a crash or a disk error never makes another retained checkpoint unusable and never yields a mix: "
                   "loading it either fails or gives one saved state in full, and a failed load leaves the buffer as it was."),
        over=["crash_points", "fault_sequences", "histories", "configurations"],
        text=("every point at which the process dies or the disk refuses a call during a save, every at-rest loss or truncation of "
              "a file, over any sequence of adds, saves, restarts and loads"),
        why="tests save and load once on a healthy disk and read single attributes; no crash, error or restored buffer is exercised",
        files=["reagent/replay_memory/circular_replay_buffer.py", "reagent/replay_memory/prioritized_replay_buffer.py"],
        mech=[("write to a temporary name, then rename", "ReplayBuffer.save"), ("read everything before changing anything", "ReplayBuffer.load"),
              ("collection of old iterations", "ReplayBuffer.save CHECKPOINT_DURATION")],
        observe=["ReplayBuffer.save", "ReplayBuffer.load", "the checkpoint directory"],
        tech="simulated disk with crash, ENOSPC, EIO and at-rest damage at numbered events, restart and audit",
        note=BASE_NOTE + "Crash model: process death; data handed to the operating system is durable (no power loss).",
    ),
    dict(
        id="R04", title="Prioritized replay draws in proportion to the current priorities",
        statement=("At any moment each transition is drawn with probability proportional to the priority it was last given, "
                   "stratified draws stay inside their stratum, and entries of zero priority, padding and transitions that are not "
                   "sampleable are never returned. The priorities handed out with a batch are the current ones, negative "
                   "priorities are refused without side effects, and sampling fails only when sampleable transitions hold next "
                   "to none of the priority."),
        over=["histories", "schedules", "inputs", "fault_sequences"],
        text=("every history of additions, (delayed) priority updates and draws, every capacity, and every random quantile "
              "including the boundary ones"),
        why="tests use one or two small trees and ordinary random numbers; rounding drift and boundary quantiles need long histories and rare draws",
        files=["reagent/replay_memory/sum_tree.py", "reagent/replay_memory/prioritized_replay_buffer.py"],
        mech=[("sum tree", "SumTree.set/sample/stratified_sample"), ("retry on unsampleable index", "PrioritizedReplayBuffer.sample_index_batch")],
        observe=["SumTree.sample", "PrioritizedReplayBuffer.sample_transition_batch", "get_priority"],
        tech="update/draw interleavings with a randomness seam (boundary quantiles) against an exact reference",
        note=BASE_NOTE + "Cumulative sums are compared up to 1e-9 of the total, frequencies up to 6.5 standard deviations.",
    ),
]
PROPS += [
    dict(
        id="G01", title="Online collection stores each step once and trains on schedule",
        statement=("Every environment step of a collection loop (streaming data set, post-step training, buffer filling, plain "
                   "episodes) enters the replay buffer exactly once and before the next step: the observation and action mask it was "
                   "chosen under, the executed action, its log-probability, reward, terminal flag, episode id and position. "
                   "A training batch of the configured size is produced exactly at the configured step frequency once enough "
                   "transitions are stored, and the trainer receives the values stored. Episodes end where the environment or the "
                   "step limit ends them, fills reach the size asked for, and a failing environment or a consumer that stops loses no completed step."),
        over=["histories", "schedules", "fault_sequences", "configurations"],
        text=("every environment behaviour and failure point, every consumer that pulls, stops and starts again, every buffer, "
              "batch size, frequency and step limit"),
        why="the online tests run real environments to a score, which tolerates lost, doubled or shifted steps",
        files=["reagent/gym/datasets/replay_buffer_dataset.py", "reagent/gym/runners/gymrunner.py", "reagent/gym/agents/post_step.py",
               "reagent/gym/agents/agent.py", "reagent/gym/utils.py", "reagent/gym/preprocessors/trainer_preprocessor.py",
               "reagent/gym/preprocessors/replay_buffer_inserters.py"],
        mech=[("collect-and-yield loop", "ReplayBufferDataset.__iter__"), ("episode loop", "run_episode"),
              ("train every n-th step", "train_with_replay_buffer_post_step")],
        observe=["ReplayBuffer.add", "trainer.train", "run_episode result", "the environment"],
        tech="scripted environment and consumer with failures and stops at arbitrary points, history model as oracle",
        note=BASE_NOTE + "Recorded finding: abandoning a loop inside an episode and starting another joins the two episodes.",
    ),
    dict(
        id="G02", title="Parallel evaluation reports every episode's true return in order",
        statement=("Evaluating a policy for n episodes returns, for every requested discount factor, the discounted return of each of "
                   "the n episodes in episode order, each episode run to its end or the step limit, whatever the number of worker "
                   "processes and the order in which they finish. If the work cannot be shipped to workers it is done serially with the same "
                   "result, and a failing episode makes the evaluation fail visibly."),
        over=["schedules", "fault_sequences", "configurations"],
        text="every worker count, chunk schedule and completion order, every failure of a worker or of serialization",
        why="the tests only compare an average score from one run of a real pool",
        files=["reagent/gym/runners/gymrunner.py", "reagent/core/multiprocess_utils.py", "reagent/gym/types.py"],
        mech=[("pool map with serial fallback", "evaluate_for_n_episodes"), ("arguments shipped by value", "multiprocess_utils")],
        observe=["evaluate_for_n_episodes"],
        tech="simulated process pool with drawn worker schedules, serialization and environment failures",
        note=BASE_NOTE + "The pool is a stand-in with real pickling; process death inside a pool is not simulated.",
    ),
]

PROPS += [
    dict(
        id="T01", title="Every training batch performs exactly the published update",
        statement=("For the shipped value-based and actor-critic trainers, each training batch changes every network exactly as the "
                   "algorithm prescribes: each loss steps its own optimizer and nothing else, target networks move once per prescribed "
                   "step, networks a batch does not train stay as they were, and the batch itself is not modified. A batch that fails "
                   "or is interrupted at any point has no effect on how later batches are trained."),
        over=["histories", "fault_sequences", "configurations", "inputs"],
        text=("every algorithm option (DQN, BCQ, QR-DQN, C51, parametric DQN, SAC, TD3, SlateQ, CRR), every sequence of batches and "
              "every point at which the data loader, the forward pass or the user interrupts a session"),
        why=("unit tests build trainers but hardly train them; one generator is shared by all optimizers of a batch, so wrong "
             "pairing or a left-over generator only shows in the weights after particular sequences"),
        files=["reagent/training/reagent_lightning_module.py", "reagent/training/dqn_trainer.py", "reagent/training/dqn_trainer_base.py",
               "reagent/training/qrdqn_trainer.py", "reagent/training/c51_trainer.py", "reagent/training/parametric_dqn_trainer.py",
               "reagent/training/sac_trainer.py", "reagent/training/td3_trainer.py", "reagent/training/slate_q_trainer.py",
               "reagent/training/discrete_crr_trainer.py", "reagent/optimizer/soft_update.py"],
        mech=[("one generator step per optimizer", "ReAgentLightningModule.training_step"), ("update rules", "train_step_gen of each trainer"),
              ("target updates as an optimizer", "SoftUpdate.step")],
        observe=["all network parameters after every batch", "the batch", "global step"],
        tech="real Lightning sessions interrupted at drawn points, compared batch by batch with reference learners",
        note=BASE_NOTE + "Compared in float64 with a relative tolerance; noise is a function of the batch (randomness seam).",
    ),
    dict(
        id="T02", title="Resumed training equals uninterrupted training",
        statement=("Training n epochs in any number of sessions, each warm started from the trainer the previous one saved, and "
                   "restarting a session that died from its last automatic checkpoint, trains exactly the epochs asked for, each once, "
                   "and ends with the same networks, target networks, optimizer state and schedules as one uninterrupted run. "
                   "What save_trainer wrote is the trainer that was saved, also when other processes save at the same time."),
        over=["crash_points", "histories", "schedules", "configurations"],
        text=("every division into sessions and every point of death: inside an epoch, around or inside a checkpoint write, before, "
              "while or after saving; every algorithm option"),
        why="no test warm starts a trainer or interrupts one; lost state only shows when a later session is compared with a run that never stopped",
        files=["reagent/workflow/model_managers/model_manager.py", "reagent/workflow/model_managers/discrete_dqn_base.py",
               "reagent/workflow/model_managers/actor_critic_base.py", "reagent/workflow/utils.py",
               "reagent/training/reagent_lightning_module.py", "reagent/optimizer/optimizer.py", "reagent/training/sac_trainer.py"],
        mech=[("stopping epoch carried in the checkpoint", "StoppingEpochCallback"), ("warm start path", "ModelManager.initialize_trainer"),
              ("save through a local file", "ModelManager.save_trainer")],
        observe=["epochs and batches trained", "the saved checkpoint's state_dict, optimizer_states and epoch"],
        tech="sessions with process death at numbered points and restart from what is on disk, compared bit by bit with an uninterrupted run",
        note=BASE_NOTE + "Crash model: process death. Data is a function of the epoch; shuffling by the data source is not part of it.",
    ),
]

PROPS += [
    dict(
        id="E01", title="Evolution strategy machines stay in agreement",
        statement=("In distributed evolution-strategy training all machines of a job hold bit-identical parents and populations "
                   "after the same number of epochs, whatever the order and delay of their rewards; each epoch moves the parent once, by the "
                   "gradient estimate of the rewards averaged over exactly the machines of the job, and leaves it alone when all "
                   "rewards are equal. An epoch that fails before the rewards are combined has no effect and can be run again."),
        over=["schedules", "fault_sequences", "configurations", "histories"],
        text="every interleaving and failure of machines, environments and collectives, every population, seed, network shape and number of machines",
        why="there is no test of several machines; agreement depends on how each of them seeds, sums and orders its work",
        files=["reagent/training/gradient_free/es_worker.py", "reagent/training/gradient_free/evolution_pool.py"],
        mech=[("all_reduce of the rewards", "EsWorker.run_epoch"), ("seeded population, estimate and Adam step", "EvolutionPool")],
        observe=["EvolutionPool.parent_tensors", "population_tensors", "EsWorker.run_epoch result"],
        tech="machines as scheduled nodes with simulated collectives that fail or complete in drawn orders, reference update as oracle",
        note=BASE_NOTE + "The parent is compared within bounds for single-precision rewards; equal rewards only where they are exactly equal.",
    ),
]

SERVING_NOTE = BASE_NOTE + ("Races are judged by happens-before over instrumented accesses of the executed schedule. "
                            "Executor, web transport and expression language are stand-ins.")
PROPS += [
    dict(
        id="S01", title="Decision plans run each operator once, after what it needs",
        statement=("A decision request is answered exactly once: with the value its plan defines, each operator run once and only after "
                   "all operators it depends on, given exactly their outputs, the plan's constants and the request's input. When an operator fails, "
                   "an input is missing or the plan is not finished within 30 seconds the request is refused in time, and nothing that "
                   "happens to one request, however late its operators end, harms the process or other requests."),
        over=["schedules", "fault_sequences", "configurations", "inputs"],
        text="every operator graph and order of its definition, every schedule of the executor and clients, every slow, stalled or failing operator",
        why="the tests run one small plan from one thread; time-outs, failures and late operators never occur in them",
        files=["serving/reagent/serving/core/OperatorRunner.cpp", "serving/reagent/serving/core/DecisionService.cpp",
               "serving/reagent/serving/core/OperatorFactory.cpp", "serving/reagent/serving/cli/Server.cpp"],
        mech=[("task graph of one request", "OperatorRunner::run"), ("request handler", "Server.cpp /api/request"),
              ("request processing", "DecisionService::attachIdAndProcess")],
        observe=["POST /api/request", "Operator::run of simulated operators", "memory accesses"],
        tech="compiled service under a scheduler that decides threads, time and operator failures, reference evaluation of plans as oracle",
        note=SERVING_NOTE,
    ),
    dict(
        id="S02", title="Concurrent decision requests and plan updates are isolated",
        statement=("Requests, feedback and plan replacements that overlap in any way neither race, dead-lock nor touch freed memory. "
                   "Every request is answered as if by one version of its plan that was in force during it, with its own ids; request ids the "
                   "service makes up are unique."),
        over=["schedules", "histories", "configurations"],
        text="every interleaving of clients, executor threads and plan replacements, for simulated and all shipped operators",
        why="the tests are single threaded; a race or a mixed plan needs a particular interleaving",
        files=["serving/reagent/serving/core/DecisionService.cpp", "serving/reagent/serving/core/DecisionService.h",
               "serving/reagent/serving/core/InMemoryLogJoiner.cpp", "serving/reagent/serving/core/LocalRealTimeCounter.cpp",
               "serving/reagent/serving/core/SharedParameterHandler.cpp", "serving/reagent/serving/operators/SoftmaxRanker.cpp",
               "serving/reagent/serving/operators/Ucb.cpp"],
        mech=[("plan container lock", "DecisionService::getPlan/createPlan"), ("shared joiner, counters and parameters", "core/*"),
              ("unique ids", "DecisionService::generateUuid4")],
        observe=["POST /api/request", "POST /api/feedback", "DecisionService::createPlan", "memory accesses, locks"],
        tech="compiled service with several simulated clients, race, dead-lock and use-after-free detection, plan versions as oracle",
        note=SERVING_NOTE,
    ),
    dict(
        id="S03", title="Decisions and their feedback are joined exactly once",
        statement=("Every answered decision that gets accepted feedback is joined and logged exactly once, with the request, the operator outputs, the "
                   "answer and one accepted feedback unchanged and the rewards the plan's reward function and aggregator define; every operator of the plan is "
                   "given that feedback once, with its own past inputs and output. Repeated or malformed feedback, feedback for unknown "
                   "decisions and refused requests add nothing."),
        over=["histories", "schedules", "fault_sequences", "inputs"],
        text="every order and overlap of decisions and feedback, repeated, early, wrong and truncated feedback, every value type",
        why="the tests join one decision with one feedback in order; loss and duplication need overlap or repetition",
        files=["serving/reagent/serving/core/InMemoryLogJoiner.cpp", "serving/reagent/serving/core/LogJoiner.cpp",
               "serving/reagent/serving/core/DecisionService.cpp", "serving/reagent/serving/core/DecisionPlan.cpp",
               "serving/reagent/serving/core/Containers.h", "serving/reagent/serving/cli/Server.cpp"],
        mech=[("join by request id", "InMemoryLogJoiner"), ("rewards", "DecisionService::computeRewardAndLogFeedback"),
              ("feedback to operators", "DecisionService::_giveFeedback")],
        observe=["POST /api/feedback", "InMemoryLogJoiner::getLoggedData and its log file", "Operator::giveFeedback"],
        tech="compiled service, overlapping clients with duplicated, early and broken feedback and failing operators, joined history as oracle",
        note=SERVING_NOTE + " Plans stay constant in this check.",
    ),
    dict(
        id="S04", title="Bandit operators learn from every joined feedback exactly once",
        statement=("UCB pulls an arm without rewards first, uniformly and reported as such, and otherwise the arm with the highest UCB1 score of the "
                   "rewards given so far: each joined reward enters exactly one batch of the configured size, and each full batch counts once. "
                   "PropensityFit adds to every value the sum of one step per joined feedback towards the target, and keeps it for actions without feedback. Neither "
                   "concurrency nor replacing the plan loses or doubles anything."),
        over=["histories", "schedules", "configurations", "inputs"],
        text="every history of requests and (late, repeated, concurrent) feedback, arms, batch and window sizes, targets and plan replacements",
        why="the tests converge roughly on one thread, which tolerates lost or doubled rewards",
        files=["serving/reagent/serving/operators/Ucb.cpp", "serving/reagent/serving/operators/PropensityFit.cpp",
               "serving/reagent/serving/core/LocalRealTimeCounter.cpp", "serving/reagent/serving/core/SharedParameterHandler.cpp"],
        mech=[("batched rewards per arm", "Ucb::giveFeedback"), ("arm choice", "Ucb::runInternal"), ("shared shifts", "PropensityFit::giveFeedbackInternal")],
        observe=["POST /api/request", "Ucb::getArmExpectation", "PropensityFit::getShift", "logged operator outputs"],
        tech="compiled service, histories against an exact reference; concurrent clients with rewards coded so that sums reveal loss",
        note=SERVING_NOTE,
    ),
    dict(
        id="S05", title="Rankings carry the probability with which they were drawn",
        statement=("The rankers return a permutation of the actions they are given, and the propensity of each position is the probability that the ranking "
                   "up to there is drawn; rankings are drawn with these probabilities. The other operators compute what their definition says "
                   "for every action, and parameters or requests for which that is undefined are refused without harm to the process."),
        over=["inputs", "configurations", "schedules"],
        text="every set of values including equal and extreme ones, every parameter, every pipeline of shipped operators, all random draws",
        why="the tests look at one or two orders; a wrong propensity biases every counterfactual estimate without any visible failure",
        files=["serving/reagent/serving/operators/EpsilonGreedyRanker.cpp", "serving/reagent/serving/operators/SoftmaxRanker.cpp",
               "serving/reagent/serving/operators/Softmax.cpp", "serving/reagent/serving/operators/Expression.cpp",
               "serving/reagent/serving/operators/Frechet.cpp", "serving/reagent/serving/operators/ActionValueScoring.cpp"],
        mech=[("rolling propensity", "EpsilonGreedyRanker::runInternal, SoftmaxRanker::run")],
        observe=["POST /api/request", "logged operator outputs"],
        tech="compiled service with a seeded randomness seam, exact propensities and binomial bounds on frequencies",
        note=SERVING_NOTE + " Frequencies alarm only below probability 1e-11; Frechet noise is checked for sign and determinism.",
    ),
    dict(
        id="S06", title="The service starts with exactly the valid plans of its directory",
        statement=("Whatever the configuration directory holds, the service starts, and serves exactly the plans whose file is readable and valid, "
                   "each under its path relative to the directory. Broken, truncated, unreadable or vanishing files, links without "
                   "target, directories and special files cost only themselves, and a refused plan leaves the one in force as it was."),
        over=["fault_sequences", "configurations", "inputs"],
        text="every directory content and every failure to open or read one of its files",
        why="no test reads plans from disk",
        files=["serving/reagent/serving/core/DiskConfigProvider.cpp", "serving/reagent/serving/core/DecisionService.cpp",
               "serving/reagent/serving/core/Containers.h"],
        mech=[("recursive read of the directory", "DiskConfigProvider::initialize/readConfig"), ("plan creation", "DecisionService::createPlan")],
        observe=["start of DecisionService", "POST /api/request"],
        tech="compiled service started on drawn directories with open and read failures injected below the C library",
        note=SERVING_NOTE,
    ),
]

PROPS += [
    dict(
        id="M01", title="Every training metric is counted once and written with its step",
        statement=("Every value a trainer reports is aggregated exactly once, in the order it was reported, and appears in exactly one published "
                   "summary of its interval or epoch; values of ranks that do not report and unknown metrics change nothing. Metrics written to the "
                   "summary writer go, with the step in force, to the innermost active writer only, and a writer failure or an interrupted epoch "
                   "neither loses nor repeats other metrics."),
        over=["histories", "fault_sequences", "configurations"],
        text=("every sequence of reported values, epochs, nested writer contexts and step changes, and every point at which a writer, the data "
              "loader or the user interrupts it"),
        why="tests call an aggregator or the writer context once, on a healthy writer; double counting shows after interrupted or failing histories",
        files=["reagent/core/observers.py", "reagent/core/aggregators.py", "reagent/core/tracker.py", "reagent/tensorboardX.py",
               "reagent/training/reagent_lightning_module.py", "reagent/workflow/reporters/reporter_base.py",
               "reagent/workflow/reporters/discrete_dqn_reporter.py", "reagent/workflow/reporters/sac_reporter.py",
               "reagent/workflow/reporters/td3_reporter.py"],
        mech=[("interval aggregation", "IntervalAggregatingObserver.update"), ("writer stack", "SummaryWriterContext._pop/push/increase_global_step"),
              ("epoch flush", "ReporterBase.flush")],
        observe=["reporter.log", "values in aggregators", "calls made to each SummaryWriter"],
        tech="reporting clients and real training sessions interrupted at drawn points, with failing writers, against a history model",
        note=BASE_NOTE + "The summary writers are stubs that record or fail; trainers, reporters, observers and aggregators are real.",
    ),
    dict(
        id="W01", title="The published-model store survives crashes and concurrent publishers",
        statement=("A publication that returned is what every later lookup of that model, set of modules and workflow finds until a newer one "
                   "replaces it; publications of other models are never changed by it. A publication cut short by a crash, a disk error or a "
                   "missing file leaves every module at its old or its new path, the store readable, and others able to publish; concurrent "
                   "publishers behave as if one came after the other."),
        over=["crash_points", "schedules", "fault_sequences", "histories"],
        text=("every interleaving of publisher and reader processes at their file operations and every point of process death, full disk or "
              "I/O error"),
        why="no test publishes twice, from two processes or on a disk that fails",
        files=["reagent/publishers/file_system_publisher.py", "reagent/publishers/model_publisher.py"],
        mech=[("replace by rename under a lock", "FileSystemPublisher.do_publish"), ("lookup", "FileSystemPublisher.get_latest_published_model")],
        observe=["FileSystemPublisher.publish", "FileSystemPublisher.get_latest_published_model", "the database file"],
        tech="publisher processes interleaved at file operations on a simulated disk, checked per key for linearizability",
        note=BASE_NOTE + "Crash model: process death; data handed to the operating system is durable. The simulated processes share one interpreter.",
    ),
]

PROPS += [
    dict(
        id="W02", title="A training workflow trains on the asked data and publishes what it trained",
        statement=("A workflow run trains, in each epoch, exactly the rows of the table sample it was given, once, in batches of the asked size, and "
                   "evaluates exactly the evaluation sample, both normalized with the one normalization that the saved models also apply. Each saved "
                   "model computes what its trained network computes; a run that fails, dies or is rejected by validation publishes nothing, and "
                   "no run changes the models of another."),
        over=["crash_points", "fault_sequences", "histories", "configurations"],
        text=("every algorithm, sample range, way of supplying normalization and prepared data, and every stage at which a run fails, dies, or "
              "overlaps another run, with clocks that stand still or jump back"),
        why="tests of the workflow need Spark, run once on a healthy machine, and only compare an average score",
        files=["reagent/workflow/training.py", "reagent/workflow/utils.py", "reagent/workflow/data/manual_data_module.py",
               "reagent/workflow/model_managers/model_manager.py", "reagent/workflow/model_managers/discrete_dqn_base.py",
               "reagent/workflow/model_managers/actor_critic_base.py", "reagent/preprocessing/batch_preprocessor.py",
               "reagent/prediction/predictor_wrapper.py"],
        mech=[("stages of a run", "training.query_and_train"), ("sample ranges", "get_sample_range"), ("prepared data", "ManualDataModule.prepare_data/setup"),
              ("saved models", "ModelManager.train_workflow")],
        observe=["batches given to training_step and test_step", "RLTrainingOutput", "the saved TorchScript files",
                 "FileSystemPublisher.get_latest_published_model"],
        tech="workflow runs with failures and process death at numbered stages, overlapping at the saving of models, against table and network references",
        note=BASE_NOTE + "Spark and petastorm are not installed: the warehouse and the reader are in-memory stubs behind the same functions.",
    ),
]

PROPS += [
    dict(
        id="W03", title="The offline Gym workflow hands on what happened and judges the last model",
        statement=("Collecting with offline_gym leaves a table of exactly the asked number of steps: each row is one step the environment really took - its "
                   "episode, order, state, action, reward and the probability with which the random policy took it - with possible actions that include the one "
                   "taken and, where all are allowed, every action of the table. The same seed (and the same environment) gives the same table; a failing environment or disk fails the command. timeline_operator hands exactly "
                   "that table to Spark under the configured names. evaluate_gym plays the asked number of episodes, each bounded by max_steps, with the module last "
                   "published for that model and name, takes the action this module prefers (the highest valued, or the actor's, scaled to the action space), and passes "
                   "exactly when the mean episode reward reaches the bar."),
        over=["histories", "crash_points", "fault_sequences", "configurations"],
        text=("every sequence of collections, hand-overs, publications and evaluations by one or more processes, with discrete and continuous scripted "
              "environments, failures of the environment, disk errors and death at any write"),
        why="tests run one environment with one seed on a healthy machine and look only at the score",
        files=["reagent/workflow/gym_batch_rl.py", "reagent/replay_memory/utils.py", "reagent/gym/utils.py",
               "reagent/gym/policies/predictor_policies.py", "reagent/gym/policies/random_policies.py", "reagent/publishers/file_system_publisher.py",
               "reagent/gym/runners/gymrunner.py", "reagent/core/multiprocess_utils.py"],
        mech=[("collection", "gym_batch_rl.offline_gym, replay_buffer_to_pre_timeline_df"), ("hand-over", "gym_batch_rl.timeline_operator"),
              ("evaluation", "gym_batch_rl.evaluate_gym, DiscreteDQNPredictorPolicy, ActorPredictorPolicy")],
        observe=["the pickled table", "the table given to upload_as_parquet and the timeline operator's parameters", "actions the environment received", "success of evaluate_gym"],
        tech="sequences of commands over a scripted environment, a simulated disk and pool, against the environment's own log and reference network outputs",
        note=BASE_NOTE + "Spark is not installed: the hand-over is a recording stub. max_steps bounds an episode to that many steps or one more.",
    ),
    dict(
        id="T05", title="Tabular policies and value functions equal what they are defined as",
        statement=("Monte Carlo values are the mean discounted return after the first (or every) visit in the episodes really played since the last clearing reset, "
                   "over just enough episodes from that state to reach the asked number of returns, at most the asked number of episodes; averaged values are the mean return "
                   "of the asked number of episodes of each state; dynamic-programming values are those of the policy at its evaluation, within what the threshold allows, and "
                   "values of actions come from the values of the next states. A policy trained by dynamic programming is greedy for its own values, equally among equal "
                   "actions; one trained by Monte Carlo is the softmax of the summed returns seen, updated at the asked interval, and training stops when it has "
                   "settled. Exploration probability is kept throughout. A failing environment fails that call only, and later answers are right. A saved policy, its exploration included, "
                   "loads exactly in any process; a missing, torn or failed file is refused without effect."),
        over=["histories", "fault_sequences", "crash_points", "inputs"],
        text="every Markov decision process with terminal states, and every history of updates, evaluations, trainings, resets, saves and loads with environment and disk failures",
        why="tests run two fixed environments and compare two estimates with each other within wide bounds",
        files=["reagent/ope/trainers/rl_tabular_trainers.py"],
        mech=[("evaluation", "DPValueFunction, MonteCarloValueFunction, EstimatedStateValueFunction"), ("training", "DPTrainer, MonteCarloTrainer"),
              ("persistence", "TabularPolicy.save/load")],
        observe=["values returned", "action distributions", "episodes played in the environment", "files"],
        tech="histories over drawn decision processes with failing environments and disks, against exact linear algebra and the episodes really played",
        note=BASE_NOTE + "States count as equal by value. Policy iterations that swing between actions of equal value are not judged.",
    ),
]

PROPS += [
    dict(
        id="O02", title="Sequential off-policy estimates are those of the episodes logged",
        statement=("The logger records each episode the policy plays in the environment: its steps in order, up to the horizon or the end, with the probability the policy had for "
                   "each action. Over any such log, directly or handed over as a page of evaluation data, the sequential estimators give the value their definitions give over all "
                   "steps of all episodes, of whatever lengths: the direct method the mean model value of the first states, (weighted) importance sampling and doubly robust their "
                   "per-decision sums, where an ended episode keeps its last ratio and earns nothing, MAGIC a mixture of its j-step estimates; with the logged and true values as references, "
                   "and normalized by the logged value. OPEvaluator reports each of them, and the bandit estimates, in its own place. A value model or policy that fails fails that "
                   "evaluation only; logs and policies are not changed."),
        over=["histories", "inputs", "fault_sequences", "configurations"],
        text=("every finite decision process, history of policy changes, logged episodes of any lengths, discounts, weight clamps, and failures of the environment, the policy or "
              "the value model at any call"),
        why="the one test of these compares a page with its log within 1.0, and both go through the same code",
        files=["reagent/ope/estimators/sequential_estimators.py", "reagent/evaluation/ope_adapter.py", "reagent/ope/test/envs.py"],
        mech=[("logging", "Environment.step, PolicyLogGenerator.generate_log"), ("estimates", "DMEstimator, IPSEstimator, DoublyRobustEstimator, MAGICEstimator"),
              ("pages", "SequentialOPEstimatorAdapter, OPEvaluator")],
        observe=["logs", "EstimatorResults", "CpeEstimateSet"],
        tech="histories of logging and evaluating in drawn decision processes with failing environments, models and policies; estimates recomputed from the episodes really played",
        note=BASE_NOTE + "Single precision; the weights of MAGIC's mixture and bootstrap errors are not judged; NeuralDualDICE is not run.",
    ),
]

PROPS += [
    dict(
        id="G03", title="Policies act with the probability they report",
        statement=("Every action a policy returns is an allowed one, is drawn with exactly the probability its current scores, "
                   "temperature, exploration rate and action mask prescribe, and carries that probability as its log_prob; asking for the "
                   "log_prob of that action again gives the same value. This holds across learner updates, exploration decay and network "
                   "failures, and acting changes neither the scores nor the network or its mode."),
        over=["histories", "inputs", "configurations", "fault_sequences"],
        text=("every history of acts, bulk draws, learner updates, decays and network failures, for softmax, greedy, epsilon-greedy, "
              "Gaussian, Dirichlet, Frechet-sort, slate, random and serving policies, every mask and temperature"),
        why="tests look at single samples with fixed scores; a wrong probability shows only in frequencies and corrupts every off-policy estimate",
        files=["reagent/gym/policies/policy.py", "reagent/gym/policies/random_policies.py", "reagent/gym/policies/predictor_policies.py",
               "reagent/gym/policies/samplers/discrete_sampler.py", "reagent/gym/policies/samplers/continuous_sampler.py",
               "reagent/samplers/frechet.py", "reagent/models/actor.py"],
        mech=[("sampling", "sample_action"), ("probability of an action", "log_prob"), ("exploration decay", "EpsilonGreedyActionSampler.update")],
        observe=["Policy.act", "Sampler.sample_action", "Sampler.log_prob", "ActorOutput"],
        tech="histories of acting, learning and failing networks; draws compared with the distribution computed from the scores",
        note=BASE_NOTE + "Frequencies are judged by bounds a correct policy misses with probability below 1e-13.",
    ),
    dict(
        id="V01", title="Evaluation sees every logged row once, whatever the batches",
        statement=("Off-policy evaluation of a discrete DQN trainer collects every logged row exactly once and in order, however the "
                   "rows are divided into batches, with the predictions the networks give in evaluation mode, and reports for the reward and every "
                   "metric the estimates (direct, importance sampling, doubly robust, sequential, weighted), Monte-Carlo loss and action statistics "
                   "those rows imply. Evaluating changes no network, mode, step or batch and no later training, and a network or "
                   "loader failure fails that evaluation visibly, leaving the next one unaffected."),
        over=["histories", "configurations", "fault_sequences", "inputs"],
        text=("every division of the rows into batches, every order of training, evaluation and failure, any number of episodes, actions "
              "and metrics, and failures at every network call or batch"),
        why=("tests feed one hand-made page to one estimator; rows lost or repeated at batch borders, and state that leaks between "
             "evaluation and training, need sequences of them"),
        files=["reagent/evaluation/evaluation_data_page.py", "reagent/evaluation/evaluator.py", "reagent/evaluation/doubly_robust_estimator.py",
               "reagent/evaluation/sequential_doubly_robust_estimator.py", "reagent/evaluation/weighted_sequential_doubly_robust_estimator.py",
               "reagent/evaluation/ope_adapter.py", "reagent/training/dqn_trainer_base.py", "reagent/workflow/model_managers/discrete_dqn_base.py"],
        mech=[("collection of rows", "gather_eval_data / DQNTrainerBase validation"), ("joining of pages", "EvaluationDataPage.append/compute_values"),
              ("estimates", "Evaluator.evaluate_post_training")],
        observe=["EvaluationDataPage fields", "CpeDetails", "networks and later training"],
        tech="sessions of training and evaluation with drawn batch divisions and failures, estimates recomputed row by row",
        note=BASE_NOTE + "The weighted (MAGIC) estimate is bounded by what its weights allow, not recomputed.",
    ),
    dict(
        id="T03", title="On-policy training uses each trajectory exactly as published",
        statement=("REINFORCE updates once for every update_freq trajectories, with the sum of their policy gradients, and PPO passes "
                   "update_epochs times over the last update_freq trajectories in minibatches that contain each exactly once per pass; a value "
                   "network is trained by its own optimizer on the same trajectories. A trajectory that fails leaves no trace in later "
                   "updates, an update that fails has applied whole minibatches only and training goes on after it, and a restart from the saved "
                   "state continues with the saved networks."),
        over=["histories", "fault_sequences", "configurations", "inputs"],
        text="every option of both trainers, every sequence of trajectories, failures at every network or sampler call, restarts",
        why="no unit test trains these trainers step by step; accumulation across trajectories and after failures only shows in sequences",
        files=["reagent/training/reinforce.py", "reagent/training/ppo_trainer.py", "reagent/training/utils.py",
               "reagent/gym/policies/samplers/discrete_sampler.py", "reagent/training/trainer.py"],
        mech=[("gradient accumulation", "Reinforce.train"), ("trajectory buffer and minibatches", "PPOTrainer.train/update_model"),
              ("returns", "discounted_returns, whiten")],
        observe=["parameters of the policy and value networks after each trajectory", "state_dict"],
        tech="trajectory sequences with failures and restarts, parameters compared with a reference learner after each",
        note=BASE_NOTE + "Parameters are compared to single precision.",
    ),
]

PROPS += [
    dict(
        id="T04", title="Ranking and world-model trainers take exactly the prescribed steps",
        statement=("Each batch changes each network of a ranking, reward, imitation or world-model trainer exactly by the gradient of its "
                   "published loss through its own optimizer, with the configured accumulation, warm-up and baseline; slates simulated for "
                   "training are drawn with, and logged with, the probability the network gives them and earn what the reward models give. A batch that "
                   "fails leaves no trace and a restart from the saved state continues with every trained network. Evaluating reports the "
                   "metrics those data imply and changes nothing, and the probabilities of all rankings of a candidate set add to one."),
        over=["histories", "configurations", "fault_sequences", "inputs"],
        text=("every sequence of batches, evaluations, failed batches, unreadable reward models and restarts, for Seq2Slate (importance "
              "sampled, simulated, teacher forcing, differentiable reward, pairwise attention), reward network, MDN-RNN, ensemble world model, "
              "Seq2Reward, compressed model and imitator trainers, with every clamp, weight, discount, optimizer and architecture"),
        why=("tests train to a loss threshold; a wrong sign of a small term, a gradient kept over a failure or a network missing from "
             "a checkpoint still passes them"),
        files=["reagent/training/ranking/seq2slate_trainer.py", "reagent/training/ranking/seq2slate_sim_trainer.py",
               "reagent/training/ranking/seq2slate_tf_trainer.py", "reagent/training/ranking/seq2slate_dr_trainer.py",
               "reagent/training/ranking/seq2slate_attn_trainer.py", "reagent/training/ranking/helper.py", "reagent/models/seq2slate.py",
               "reagent/training/reward_network_trainer.py", "reagent/training/world_model/mdnrnn_trainer.py",
               "reagent/training/world_model/seq2reward_trainer.py", "reagent/training/world_model/compress_model_trainer.py",
               "reagent/training/cem_trainer.py", "reagent/training/imitator_training.py",
               "reagent/evaluation/ranking_policy_gradient_evaluator.py", "reagent/evaluation/reward_net_evaluator.py",
               "reagent/evaluation/world_model_evaluator.py", "reagent/evaluation/seq2reward_evaluator.py",
               "reagent/evaluation/compress_model_evaluator.py"],
        mech=[("losses and accumulation", "train of each trainer"), ("simulation", "Seq2SlateSimulationTrainer._simulated_training_input"),
              ("ranking distribution", "Seq2SlateTransformerModel"), ("evaluation", "*Evaluator.evaluate")],
        observe=["gradient and class of every optimizer step", "parameters", "values reported", "state_dict"],
        tech="training histories with failing networks, missing files and restarts; every optimizer step against a reference loss",
        note=BASE_NOTE + "Gradients are compared to single precision.",
    ),
]

PROPS += [
    dict(
        id="O01", title="Parallel bandit off-policy estimates are those of the logged data",
        statement=("Estimating policies from logged bandit experiments, on one process or many, gives every experiment and estimator one "
                   "result: the direct, importance, weighted importance, doubly robust, switch and switch doubly robust values their "
                   "definitions give over all the logged samples, and the logged and true values as ground truth. Reward models never score "
                   "samples they were trained on. A task whose data cannot be written or read, or whose training fails, fails the "
                   "evaluation or is reported as missing, and is never replaced by another result; temporary files do not remain."),
        over=["inputs", "configurations", "schedules", "fault_sequences"],
        text=("every set of experiments, samples, estimator options and number of workers, every order in which workers take and finish "
              "tasks, disk errors, lost, emptied or cut task files, and failing reward models"),
        why="the unit tests estimate one experiment in one process with true models; sharing between tasks and workers is never exercised",
        files=["reagent/ope/estimators/estimator.py", "reagent/ope/estimators/contextual_bandits_estimators.py", "reagent/ope/utils.py",
               "reagent/ope/trainers/linear_trainers.py", "reagent/ope/types.py"],
        mech=[("distribution of tasks", "Evaluator.evaluate / run_evaluation"), ("estimates", "BanditsEstimator subclasses"),
              ("cross-fitting", "DMEstimator._train_model")],
        observe=["Evaluator results per experiment", "EstimatorResults.report", "files left", "samples given to trainers"],
        tech="a simulated process pool (pickled calls, drawn placement and order) over a simulated faulty disk; estimates recomputed from definitions",
        note=BASE_NOTE + "Death of a worker process is not injected: the pool itself is a stub.",
    ),
    dict(
        id="G04", title="Online data of every trainer kind is what happened",
        statement=("Whatever an agent, a replay buffer and a preprocessor hand to a policy-gradient, world-model, parametric, slate, ranking or "
                   "sparse-feature trainer describes the steps that were taken: each row holds the observation, documents, action, action "
                   "probability and n-step reward of one executed step and the step after it, windows show consecutive steps of one episode, "
                   "id lists belong to their own rows, and an episode is trained on exactly once and only when complete, also episodes of one step, after "
                   "overwritten buffer positions and after an environment failed."),
        over=["histories", "fault_sequences", "configurations", "inputs"],
        text=("every environment, action and observation kind, policy, buffer size, horizon, stack, episode length, batch size and training "
              "frequency, environments that fail and consumers that stop"),
        why=("the end-to-end tests only check that learning reaches a threshold after long training; a row that is slightly wrong, or wrong "
             "only at an episode's edge, still learns"),
        files=["reagent/gym/preprocessors/trainer_preprocessor.py", "reagent/gym/preprocessors/replay_buffer_inserters.py",
               "reagent/gym/preprocessors/default_preprocessors.py", "reagent/gym/runners/gymrunner.py", "reagent/gym/agents/agent.py",
               "reagent/gym/agents/post_episode.py", "reagent/gym/datasets/replay_buffer_dataset.py", "reagent/gym/envs/changing_arms.py",
               "reagent/gym/envs/recsim.py", "reagent/gym/envs/oracle_pvm.py"],
        mech=[("collection", "run_episode, Agent, ReplayBufferDataset"), ("batch making", "*InputMaker, trainer_preprocessor"),
              ("insertion", "RecSimReplayBufferInserter")],
        observe=["every batch a trainer receives", "environment steps and policy answers as they happened"],
        tech="simulated sessions with spied environment and policy and injected failures; every received row traced back to an executed step",
        note=BASE_NOTE + "Two defects of slate-Q batches are recorded as known findings.",
    ),
]

PROPS += [
    dict(
        id="S07", title="A plan written in Python is the plan the service runs",
        statement=("A decision plan composed with reagent.serving.config (operators, DecisionPlanBuilder, export command) means to the service what "
                   "it says: under the name app/plan.json it ranks, learns and computes rewards with exactly the operators, shared operators, parameters, "
                   "reward function and aggregator that were written, whether numbers are given as integers or floats, whatever else the same "
                   "builder or process built before, and whether all applications or one is exported. What cannot be expressed is refused when "
                   "it is built. An export that is interrupted leaves every plan as it was, as it is now, or refused, never another one, and the next "
                   "export repairs it."),
        over=["configurations", "fault_sequences", "crash_points", "inputs"],
        text="every plan graph and kind of parameter, every sequence of exports, every crash or disk error inside one",
        why="no test exports a plan or reads an exported one back; the builder's output and the service's input were never put together",
        files=["serving/reagent/serving/config/builder.py", "serving/reagent/serving/config/serialize.py", "serving/reagent/serving/config/config.py",
               "serving/reagent/serving/config/namespace.py", "serving/reagent/serving/config/operators.py", "serving/reagent/serving/config/main.py",
               "serving/reagent/serving/core/Containers.cpp", "serving/reagent/serving/core/DiskConfigProvider.cpp"],
        mech=[("plan composition", "DecisionPlanBuilder.serialize/build"), ("typing of constants", "serialize._value_to_json, namespace.DecisionOperation"),
              ("export", "main.export")],
        observe=["reagent.serving.config.main export command", "POST /api/request", "POST /api/feedback", "joined feedback"],
        tech="real builder and export on a simulated disk, then the compiled service on that directory beside the same plans written by hand",
        note=SERVING_NOTE + " A crash may truncate a plan's file: the service then refuses that plan until the next export.",
    ),
]

PROPS += [
    dict(
        id="G05", title="Planned actions follow the imagined consequences",
        statement=("The cross-entropy planner imagines, for each candidate action sequence, the configured number of trajectories of at most the planning horizon, "
                   "each from the observed state through one world model of the ensemble, drawing next states and ends as that model predicts. The action it "
                   "returns is the one these trajectories imply: for discrete actions the first action with the best average discounted return, for continuous ones the refinement "
                   "of the search distribution by the elites, within the action bounds. Planning changes no model, uses the models as trained so far, and a "
                   "failing model fails that plan only."),
        over=["histories", "configurations", "fault_sequences", "inputs"],
        text=("every population, ensemble, horizon, elite count, update rate, stopping rule, discount, action kind and bounds, and every history of plans, "
              "model updates and model failures"),
        why=("the planner is only run by long end-to-end training tests with one configuration; a return discounted wrongly, an end ignored or states "
             "leaking between trajectories still plans plausibly"),
        files=["reagent/models/cem_planner.py", "reagent/models/world_model.py", "reagent/models/mdn_rnn.py",
               "reagent/workflow/model_managers/model_based/cross_entropy_method.py", "reagent/training/cem_trainer.py"],
        mech=[("imagined trajectories", "acc_rewards_of_one_solution, sample_reward_next_state_terminal"),
              ("choice of the action", "discrete_planning, continuous_planning"), ("building", "CrossEntropyMethod.build_trainer")],
        observe=["every call of a world model with what it returned", "CEMPlannerNetwork.forward", "CEMPolicy.act"],
        tech="every call of the world models is recorded; trajectories, returns, elites and the action are recomputed from the record; models are updated and fail in between",
        note=BASE_NOTE + "Frequencies are judged by bounds a correct planner misses with probability below 1e-13.",
    ),
    dict(
        id="G06", title="Shipped environments follow their rules in every episode",
        statement=("The shipped simulated environments (string games, PocMan, linear dynamics, possible-action tester, ToyVM) give, after any history of resets, "
                   "steps and refused actions, and whatever other environments run in between, exactly the observations, rewards and episode ends their rules define, with the stated "
                   "probabilities where the rules are random. A state embedding shows the raw observation and the world model's encoding of the last steps of "
                   "this episode only, and leaves the model in the mode it found it, also when the model fails or an action is refused."),
        over=["histories", "schedules", "fault_sequences", "inputs"],
        text=("every interleaving of one to three environments, every action sequence, episode abandonment, illegal and late action, world-model failure and "
              "callers that go on using their arrays"),
        why="tests only train on the environments and look at a score; a wrong rule at an episode's edge or a leak between episodes shows in no single test",
        files=["reagent/gym/envs/pomdp/string_game.py", "reagent/gym/envs/pomdp/string_game_v1.py", "reagent/gym/envs/pomdp/pocman.py",
               "reagent/gym/envs/pomdp/state_embed_env.py", "reagent/gym/envs/dynamics/linear_dynamics.py",
               "reagent/gym/envs/functionality/possible_actions_mask_tester.py", "reagent/gym/envs/toy_vm.py", "reagent/gym/envs/wrappers/recsim.py"],
        mech=[("rules", "Env.step, Env.reset"), ("state embedding", "StateEmbedEnvironment.embed_state")],
        observe=["observations, rewards and ends returned by reset and step", "possible_actions_mask", "mode of the world model"],
        tech="interleaved histories of several environments with refused actions and failing world models, compared step by step with independent rules",
        note=BASE_NOTE + "Where two readings of PocMan's rules differ (distance of ghosts, step 200 or 201) both are accepted.",
    ),
]

NA_NOTE = ""
PROPS += [
    dict(
        id="N01", title="Normalization maps every feature as its declared type says",
        statement=("A preprocessor built from normalization parameters maps each present feature by the transformation of its type (binary, probability, "
                   "continuous, Box-Cox, quantile, enum, discrete and continuous action), clamps as stated, gives missing features their neutral value, and keeps the "
                   "columns of one-hot features together, for every value and parameter set; the sparse and the batch variants agree with it."),
        over=["inputs", "configurations"], text="every feature value, presence pattern and parameter set",
        why="tests sample distributions; the mapping has to hold for every value, also at the edges of quantiles and clamps",
        files=["reagent/preprocessing/preprocessor.py", "reagent/preprocessing/normalization.py", "reagent/preprocessing/sparse_to_dense.py"],
        mech=[("mapping", "Preprocessor.forward")], observe=["Preprocessor.forward"], tech="", note="",
        na=("A preprocessor is a pure function of its arguments: no schedule, clock, I/O, randomness or history can influence it, so there is nothing for a simulator to "
            "decide; input generation alone would be property-based testing. That a workflow trains and serves with one and the same normalization is claimed as W02."),
    ),
    dict(
        id="N02", title="Slate off-policy estimators and DualDICE compute their formulas",
        statement=("The slate estimators (pseudo-inverse, cascade, PBM, NDCG and ERR models) and NeuralDualDICE compute what their papers define for every log, and are unbiased "
                   "where the paper proves it."),
        over=["inputs", "configurations"], text="every log of slates and every pair of logging and target policy",
        why="tests compare with loose tolerances on a few generated worlds",
        files=["reagent/ope/estimators/slate_estimators.py", "reagent/ope/estimators/sequential_estimators.py"],
        mech=[("estimation", "Estimator.evaluate")], observe=["Estimator.evaluate"], tech="", note="",
        na=("Pure numeric functions of an in-memory log, evaluated in one thread without I/O, state or recovery; the estimators around which processes, files, histories or "
            "failing models exist are claimed as O01, O02 and V01."),
    ),
    dict(
        id="N03", title="Network architectures compute the functions they are named after",
        statement=("Each shipped network (dueling, quantile, categorical, actor, critic, Seq2Slate, LSTM-based) computes, for every input, the function its architecture "
                   "defines, batch row by batch row, and exporting it does not change that function."),
        over=["inputs", "configurations"], text="every input batch, layer configuration and parameter value",
        why="tests check shapes on single inputs",
        files=["reagent/models", "reagent/net_builder", "reagent/prediction/predictor_wrapper.py"],
        mech=[("forward", "forward")], observe=["forward"], tech="", note="",
        na=("Forward passes are deterministic pure functions of parameters and input. What depends on histories is claimed elsewhere: training steps (T01, T03, T04), "
            "acting (G03), planning (G05), saved and published models (T02, W01, W02)."),
    ),
    dict(
        id="N04", title="Configuration is parsed into exactly what was written",
        statement=("A configuration given as YAML or nested dictionaries builds exactly the configured objects: defaults where nothing is given, one member per "
                   "union, each registered class under its name, unknown or ill-typed fields refused."),
        over=["inputs", "configurations"], text="every configuration text",
        why="tests parse the shipped examples only",
        files=["reagent/core/configuration.py", "reagent/core/registry_meta.py", "reagent/core/tagged_union.py", "reagent/core/dataclasses.py"],
        mech=[("parsing", "make_config_class, TaggedUnion, RegistryMeta")], observe=["objects built"], tech="", note="",
        na=("Parsing happens once, in one thread, from a string in memory; there is no schedule, time, fault or history in it that a simulator could vary."),
    ),
    dict(
        id="N05", title="The timeline operator joins each step with its true successors",
        statement=("The Spark timeline operator turns a table of logged steps into transitions: each row is joined with the next row of the same episode, multi-step rewards "
                   "and next actions are those of the following steps, whatever the order and partitioning of the input, and rows outside the asked period are not used."),
        over=["inputs", "configurations", "schedules"], text="every table, partitioning and period",
        why="tests run single small tables",
        files=["preprocessing/src/main/scala/com/facebook/spark/rl", "reagent/workflow/data_fetcher.py", "reagent/workflow/spark_utils.py"],
        mech=[("joining", "Timeline, MultiStepTimeline, data_fetcher.query_data")], observe=["output tables"], tech="", note="",
        na=("The code runs inside Spark: neither Spark, pyspark nor a Scala compiler is installed here and none can be fetched, so the real code cannot be executed, and "
            "simulating Spark itself would judge the stand-in."),
    ),
]
