HOOK_COMMITS = ["590ec4125ea9892c94e515c9be2cebc1b043db14"]
NOT_APPLICABLE = []
REF = "reference-model monitor over generated and played executions"

prop("R01", "Checkers are conserved over every history of play",
  "In every backgammon position reached from a valid position by any sequence of offered moves and passes, by a person or by any of the program's players, each side has exactly 15 checkers counting points, bar and borne off.",
  ["histories", "inputs"], "every sequence of moves, passes and dice from every valid position",
  "The tests apply a handful of hand-picked moves; conservation is about every move (hits, double hits, entries, bear-offs) in every position of games of any length.",
  [BG], [("move application", BG + " get_next_state, apply_move"), ("move generation", BG + " get_valid_moves")],
  "invariant monitor over recorded play histories (generated positions, long games, matches, self-play)",
  "Every position observed is judged; about a million transitions per quick run. Says nothing about positions never driven.")
prop("R02", "The moves offered are exactly the legal plays of the dice",
  "For every valid unfinished position, player and roll, the offered moves are exactly the legal backgammon plays: every one can be played step by step under the rules (entering first, blocked points, bearing off only when all checkers are home and with the exact-or-highest rule, both dice used whenever possible), every final position some legal play reaches is reached by exactly one offered move, and nothing is offered exactly when no die can be played. Where only one of two different dice can be played, either is allowed; a double is offered as two successive two-dice plays.",
  ["inputs"], "every valid position, either player, all 36 rolls, first or second half of a double",
  "The tests compare move lists for about thirty hand-written positions; the rules interact (bar, contact during bear-off, wasted dice, blocked doubles) in a space no list samples.",
  [BG], [("move generation", BG + " get_valid_moves, get_normal_moves, get_entry_moves, is_collectible, remove_duplicate_states")],
  REF + " (independent rules engine, both colours by mirroring)",
  "Independent executable rules compared on about 200k (position, roll) pairs per quick run; bounded by the generator's position families.")
prop("R03", "Applying a move changes the position exactly as the move says",
  "Applying an offered move, at once or step by step, yields the position the rules give: each checker leaves its point (or the bar) and arrives at its destination (or off the board), an opposing single checker there goes to its bar, and nothing else changes; a pass changes no checker, and neither changes the game's identity. The game's own consistency check accepts exactly the positions with 15 checkers of each player.",
  ["inputs"], "every valid position, roll and offered move",
  "Tests check a few moves by comparing whole boards; the effect of each kind of step combines with every configuration of the points involved.",
  [BG], [("move application", BG + " get_next_state, apply_move, skip_turn"), ("consistency check", BG + " is_valid")],
  REF, "About a million applied moves per quick run, compared with an independent implementation of the rules.")
prop("R04", "Turns, doubles, dice and the end of the game follow the protocol",
  "A new game is the standard starting position with player -1 to move. After a move the turn passes to the opponent with two fresh dice between 1 and 6, except that a double is played twice by the same player with the same dice before the turn passes; a pass hands over the turn at once, also between the two plays of a double. The game is won by a player exactly when all 15 of that player's checkers are off. The id given to a game changes nothing else and stays with it.",
  ["histories"], "every history of rolls, moves and passes",
  "Turn order is a state machine over histories; the tests look at single transitions and never at a pass inside a double or long sequences.",
  [BG], [("turn protocol", BG + " apply_move, skip_turn, roll_die"), ("end of game", BG + " check_winner, check_win, check_win_without_player")],
  "state-machine monitor over played histories", "Hundreds of thousands of transitions per quick run, with doubles, passes and game ends required to have been seen.",
  state=[("is_second_play", "second half of a double", BG), ("roll", "current dice", BG), ("player", "player to move", BG)])
prop("R05", "Dice are fair and independent",
  "Every roll, whether asked for explicitly or made when the turn passes after a move, a double or a pass, shows each of the 36 ordered outcomes with probability 1/36, for either player, independently of the rolls before.",
  ["histories"], "all rolls over all histories, per cause of the roll and player",
  "No test looks at the distribution; fairness is a statistical statement over long histories.",
  [BG], [("dice", BG + " roll_die, apply_move, skip_turn")],
  "statistical monitor (chi-square per group) over recorded rolls", "Detects deviations of about 1-2 percent per face in quick runs; groups with fewer than 1000 rolls are not judged; the random source is replaced by a seeded one, so the operating system's entropy is trusted.")
prop("R06", "Numbering moves for the network loses nothing",
  "For every position, roll and offered move of either game, the move's number lies inside the action space, different offered moves of a position get different numbers, a pass has a number of its own, and turning the number back in the same position gives the same move.",
  ["inputs"], "every position, player, roll and offered move, through the game interface and the direct methods",
  "The encoding tests use the direct methods only and a few moves per roll; losslessness is about all moves of all positions (order of dice, bar, bear-off with a larger die).",
  [BG, "src/backgammon/encoding.rs", "src/tictactoe/mod.rs"], [("encoding", BG + " encode, decode"), ("direct methods", "src/backgammon/encoding.rs")],
  "round-trip and collision monitor over generated positions", "Millions of (position, roll, move) cases per quick run.")
prop("R07", "The network input shows exactly the position",
  "The network input of a backgammon position holds six planes of 4x6 cells: checkers per point in order, the player to move, each side's bar, each side's borne-off count, the two dice (first half player -1 or first die, second half player 1 or second die), and whether it is the second play of a double; for tic-tac-toe three 3x3 planes mark the squares of player -1, empty squares and squares of player 1. Nothing else influences it.",
  ["inputs"], "every position",
  "Tests compare two or three tensors; a wrong cell only shows for positions where the values differ.",
  [BG, "src/tictactoe/mod.rs"], [("features", BG + " as_tensor"), ("features", "src/tictactoe/mod.rs as_tensor")],
  "oracle comparison of network inputs over generated positions", "Every cell of tens of thousands of inputs per quick run; all reachable tic-tac-toe positions.")
prop("R08", "Tic-tac-toe follows its rules in every reachable position",
  "From the empty board with player -1 to move, in every reachable position the offered moves are exactly the empty squares, a move fills its square for the player to move and passes the turn, and the result is the player with three in a row, a draw (0) on a full board without one, and nothing otherwise. The id given to a game changes nothing else and stays with it.",
  ["inputs", "histories"], "all 5478 reachable positions and all their moves",
  "The tests cover a few boards; the claim is about all of them.",
  ["src/tictactoe/mod.rs"], [("rules", "src/tictactoe/mod.rs get_valid_moves, apply_move, check_winner, skip_turn")],
  "exhaustive execution of the reachable game with a reference oracle", "Complete enumeration of reachable positions.")
prop("R09", "The printed board shows the position",
  "The printed form of a backgammon position lets a reader recover exactly the checkers of each side on every point, bars, borne-off counts, the player to move and the dice; the printed tic-tac-toe board shows every square.",
  ["inputs"], "every position, including points with more than five checkers",
  "No test reads the printed board back.",
  [BG, "src/tictactoe/mod.rs"], [("printing", BG + " to_pretty_str"), ("printing", "src/tictactoe/mod.rs to_pretty_str")],
  "print-and-parse-back monitor", "Tens of thousands of printed positions per quick run; all 3^9 tic-tac-toe boards.")
VS, AZ, AP, ANP, AV = "src/versus.rs", "src/alphazero/alphazero.rs", "src/alphazero/alpha_parallel.rs", "src/alphazero/alpha_no_parallel.rs", "src/alphazero/alpha_versus.rs"
SM, AM, ND, NS, MU, NO, NN = "src/mcts/simple_mcts.rs", "src/mcts/alpha_mcts.rs", "src/mcts/node.rs", "src/mcts/node_store.rs", "src/mcts/utils.rs", "src/mcts/noise.rs", "src/alphazero/nnet.rs"
GAMES = "Games driven: backgammon, tic-tac-toe and synthetic games with seeded rules (forced passes, repeated turns, long action lists)."

prop("S01", "Players always answer with a legal move and pass only when they must",
  "Asked for a move in any position, every kind of player (random, tree search, network-guided) answers with one of the legal moves, and passes exactly when there is none; so every move played in a match or in self-play is legal and every pass is forced.",
  ["inputs", "configurations", "histories"], "every position, network, temperature, search setting and every history of matches and self-play",
  "Unit tests play no whole games with the network player and sample default settings; illegal or missing answers appear in blocked positions, with small temperatures or extreme settings.",
  [VS, SM, AM, AZ, AP, ANP], [("tree search player", SM + " mct_search"), ("network player", AV + " get_next_move_for_state"), ("match loop", VS + " play"), ("self-play loop", AP + " self_play_parallel")],
  "online legality monitor wrapped around the game, over matches, self-play and single answers",
  "Every move and pass of recorded runs is judged. " + GAMES,
  hook="no: the games are wrapped from outside")
prop("S02", "Search trees are well formed and account for every iteration",
  "After a search, every node's position is its parent's with the recorded legal move applied, no move appears twice under a node, expanded and untried moves together are the legal moves, and visits are conserved: each iteration adds exactly one visit along one path, for each searched game separately, so a root has as many visits as iterations; finished games are never expanded and the answer is a move visited most.",
  ["inputs", "configurations"], "every start position, number of iterations, number of games searched together and network",
  "Tests build small trees by hand; the bookkeeping matters over thousands of iterations with finished, blocked and shared positions in one store.",
  [SM, AM, ND, NS], [("tree search", SM + " mct_search, backpropagate"), ("batched search", AM + " alpha_mcts_parallel"), ("expansion", ND + " expand, alpha_expand_tensor"), ("store", NS)],
  "structural invariant monitor over trees reported by the search hook", "Every node of every observed tree. " + GAMES,
  hook="record_tree in src/verif_hooks.rs")
prop("S03", "Random playouts are legal, uniform, bounded and report the true result",
  "A playout from any position plays only legal moves, each chosen with equal probability, passes only when no move is legal, stops at the end of the game or after the configured number of rounds, and reports 1, -1 or 0 for a win, loss or no result of the given player.",
  ["inputs", "configurations"], "every start position, player and round limit",
  "A playout is random; a test sees one result and cannot tell which game it belongs to.",
  [ND], [("playout", ND + " simulate")],
  "step-by-step recorded playouts with result oracle and chi-square uniformity", "Tens of thousands of playout steps per quick run; uniformity on the first two steps. " + GAMES)
prop("S04", "What a search learns at a node is about that node's game, position and side",
  "Each value a search adds is the evaluation of the very position reached (the game's result when it is over, otherwise the network's value or a playout's) seen from the right side, and each move's prior is the network's probability for that move renormalised over the legal moves; searching games together gives every one of them what it would get alone.",
  ["inputs", "configurations"], "every batch of positions, network, and number of iterations",
  "Rows and nodes can be mixed up only when several games are searched together and some of them end or are blocked on the way; tests search one position and do not check values.",
  [AM, SM, MU, ND], [("batched evaluation", AM + " alpha_mcts_parallel"), ("single", AM + " alpha_mcts"), ("back-propagation", SM + " backpropagate"), ("priors", MU + " turn_policy_to_probs_tensor_parallel")],
  "per-node re-evaluation oracle over trees reported by the search hook", "Own value of every node recovered by subtracting its children's and compared with the network run separately; tolerance 3e-4. " + GAMES,
  hook="record_tree in src/verif_hooks.rs")
prop("S05", "Every search step follows the upper-confidence rule of the right side",
  "At every fully expanded node each iteration descends into a child with the greatest upper-confidence score (mean value for the side choosing there, plus the exploration term with the configured constant, visits and prior), and where untried moves remain the plain search tries exactly one of them.",
  ["inputs", "histories", "configurations"], "every iteration of every search",
  "The rule is a statement about each step of a search; tests compare at most a final answer.",
  [SM, AM, ND], [("plain selection", SM + " select_leaf_node, select_ucb; " + ND + " ucb"), ("guided selection", AM + " select_alpha, select_leaf; " + ND + " alpha_ucb")],
  "step monitor: trees after k and k+1 iterations of the same seeded search are compared", "Steps where the two runs are not comparable are skipped and counted; their share is bounded. " + GAMES,
  hook="record_tree in src/verif_hooks.rs")
prop("S06", "Searches find what a few moves of looking ahead decide",
  "With a reasonable budget, both searches take wins, block single threats and keep the perfect-play result in tic-tac-toe, bear off the last checkers in backgammon when anything else loses, and the tree-search player clearly beats the random one from either seat.",
  ["inputs"], "every position whose best moves are certain, either side to move",
  "A test asserts two or three positions; a sign or side error shows only in positions with the other player to move, other depths or longer matches.",
  [SM, AM, ND, VS], [("tree search", SM + " mct_search"), ("guided search", AM + " alpha_mcts, alpha_mcts_parallel")],
  "outcome oracle (minimax, forced bear-offs) over all tic-tac-toe positions and matches", "3900 tic-tac-toe and 260 backgammon positions per quick run with 200 to 2500 iterations; shares of misses of at most 0 to 0.5 percent plus five standard deviations are tolerated (at most 0.1 percent were seen).")
prop("S07", "Probabilities handed around are distributions over the legal moves",
  "Priors, root probabilities and search results put non-negative numbers summing to one on exactly the legal moves' numbers of the right game and zero elsewhere; exploration noise blends a fraction epsilon of a random distribution over the legal moves into the root's priors and nothing else, and a move sampled from probabilities has probability proportional to them.",
  ["inputs", "configurations"], "every position, batch, network output, noise setting and temperature",
  "Tests check shapes and one or two sums; the statement is about every position and row, and about distributions of random choices.",
  [MU, NO, AM], [("priors", MU + " turn_policy_to_probs*"), ("search result", MU + " get_prob_tensor, get_prob_tensor_parallel"), ("noise", NO), ("sampling", MU + " weighted_select_tensor_idx")],
  "distribution oracle over conversions, searches, noise and samples (chi-square)", "Thousands of conversions per quick run, tolerance 2e-4. " + GAMES,
  hook="record_tree in src/verif_hooks.rs")

LEARN = "Games driven: both real games and synthetic ones with draws, passes and repeated turns; games are recorded by a wrapper around the game type."
prop("L01", "Self-play records every position of every game once, with its result",
  "A self-play run, serial or of many games at once, plays exactly the configured number of games, each to its end or to the round limit, and its training fragments are exactly the positions at which a player of those games had to choose a move, each once, with that position's network input and the result of its own game from the point of view of the player to move there (0 for draws and games cut off).",
  ["histories", "configurations"], "every self-play run: any number of games at once, lengths, draws, cut-offs, passes and networks",
  "The tests run self-play without looking at the fragments; mixed-up games or sides only show when several games end at different times.",
  [AZ, AP, ANP], [("parallel self-play", AP + " self_play_parallel"), ("sequential self-play", ANP + " self_play"), ("fragments", AZ + " MemoryFragment")],
  "conservation and matching oracle between recorded games and returned fragments",
  "Every fragment of every observed run is matched with the games really played. " + LEARN)
prop("L02", "Training targets and played moves follow the visits of their own search",
  "The policy recorded for a position is the visit counts of the search made at that position raised to 1/temperature and normalised, zero on every other move; in self-play and matches the move played is drawn from that distribution (network players) or is a most visited one (tree-search player), for every usable temperature and search length.",
  ["inputs", "configurations", "histories"], "every position, temperature, number of iterations, number of games at once and player",
  "A target can only be compared with the search that produced it while it happens; tests see neither, and draws are random.",
  [AZ, AP, ANP, AV, MU, VS], [("targets", AP + " self_play_parallel; " + ANP + " self_play"), ("temperature", MU + " apply_temperature"), ("drawing", AZ + " weighted_select_tensor_idx"), ("network player", AV)],
  "per-move monitor of searches reported by the hook against targets and moves played; statistics of the draws",
  "Targets compared to 2e-3; the draws are tested with a standardised sum over thousands of moves. " + LEARN,
  hook="record_tree in src/verif_hooks.rs")
prop("L03", "Saved training data loads back unchanged",
  "Training fragments written to disk and read back are the same fragments in the same order (features, policy and outcome each still belonging together), for any number of them from one up, and training on loaded data gives the same network as training on the data itself; a set with a missing or cut off file is refused.",
  ["inputs", "crash_points"], "every set of fragments of either game",
  "The tests save nothing or one fixed set; reshaping errors show for particular sizes and values.",
  [AZ], [("saving", AZ + " save_training_data"), ("loading", AZ + " load_training_data")],
  "round-trip monitor with a training comparison", "Hundreds of fragment sets per quick run, sizes one to hundreds. " + LEARN)
prop("L04", "Learning saves each iteration's own data and models; train uses its scope",
  "A learning run creates one new run directory holding, per learning and self-play iteration, exactly the fragments of that self-play, leaves earlier runs untouched, saves after each iteration the network trained the configured number of passes on that iteration's fragments, and keeps a best model; the train command trains on exactly the fragments of the run, iteration or self-play asked for, starting from the given model, writes only its result, and refuses a scope that is incomplete or has no directory.",
  ["histories", "configurations"], "every setting of iterations and sizes, every existing content of the directories, every scope",
  "The tests never run a whole learning run or the train command; directories, data and models interact over several iterations.",
  [AP, ANP, AZ, "src/main.rs"], [("learning", AP + " learn_parallel"), ("sequential learning", ANP + " learn"), ("training", AZ + " train"), ("train command", "src/main.rs handle_command, get_all_paths_rec")],
  "end-to-end monitor: recorded games against saved data, saved models against an independent Adam on that data",
  "Models are compared weight by weight with an independent training over every possible grouping into batches where that is feasible. " + LEARN)
prop("L05", "An interrupted learning run keeps what it had finished",
  "The data of each self-play is complete on disk before the next one is over, and the model of each iteration before the next iteration's self-play is over. Whatever the moment at which a learning run is stopped, the data of earlier runs and the data and models of everything this run had finished are intact (only the model of an iteration of the same number is replaced), and the stored best model is a complete network, the one from before or the new one, never a part of one and never missing once there was one. Afterwards training on the run works exactly if its data is complete, and learning can be started again from the best model.",
  ["crash_points", "histories", "configurations"], "every call by which a learning run changes files, with no, a weaker and a better best model",
  "No test stops a run; what matters is the state of the disk between any two changes of files.",
  [AP, "src/alphazero/alpha_versus.rs", AZ], [("learning", AP + " learn_parallel"), ("best model", "src/alphazero/alpha_versus.rs play_vs_best_model"), ("data", AZ + " save_training_data, load_training_data")],
  "fault injection (the program is ended at each call that changes a file, by an interposed library) and a monitor of the files left behind and of their further use; online monitor of the files at the beginning of every game",
  "Every such call of three learning runs in quick mode (of long sequences of writes to one file the first, a middle and the last), all of them in thorough mode; loss of data by the operating system (power failure) is not modelled.")
prop("N01", "Asking a network is pure: same question, same answer, nothing changed",
  "For every network and position the policy is a distribution over the action space and the value lies between -1 and 1; a position is judged the same alone, within any batch, again later and through the policy-only way; searching, playing matches, self-play and comparing networks change no variable of a network (weights or statistics); only training does.",
  ["inputs", "histories", "configurations"], "every network, position, batch size and use",
  "Batch statistics that leak into answers or change while playing only show with several positions together and with variables compared before and after.",
  [NN, AM, VS, AP, ANP, AV], [("network", NN + " forward_t, forward_policy, forward_train"), ("uses", AM + "; " + VS + " play; " + AV)],
  "differential monitor (batch, alone, again, policy-only) and before/after comparison of all variables",
  "Hundreds of positions per network and quick run, tolerance 2e-4. " + GAMES)
prop("N02", "A saved network comes back exactly, or not at all",
  "A network saved to a file and restored (by path, as the starting point of learning, or as the stored best model) has bit for bit the same variables, gives the same answers and is the one trained on from there; without a given path the best model is used where there is one and a fresh network otherwise; a missing, truncated, empty or foreign file is refused rather than leaving some other network in use.",
  ["inputs", "crash_points"], "every network and file, including files cut off at any point",
  "The tests load nothing; a network that silently stays random looks like any other.",
  [NN, AZ], [("by path", NN + " from_path"), ("starting point", AZ + " new")],
  "round-trip monitor and fault injection (truncated, foreign, missing files)", "Every variable compared; cuts at random offsets. " + GAMES)
prop("N03", "Training is Adam on the loss of exactly the given examples",
  "A training pass uses every example exactly once, in random order, in batches of the configured size, and moves the weights as Adam with the configured learning rate and weight decay does on the mean squared value error plus the cross entropy of the policy; it makes as many passes as configured and leaves the examples as they were, in whatever order.",
  ["inputs", "configurations"], "every set of examples, batch size, number of passes, learning rate and weight decay",
  "A test can see that weights change, not that they change as they should; wrong targets, dropped examples or batches still train.",
  [AZ], [("training", AZ + " train"), ("optimizer", AZ + " new")],
  "independent Adam implementation compared weight by weight after every training",
  "Where a pass has several batches every grouping of the examples is tried, so those sets are small (up to 7). " + LEARN)
prop("N04", "The best model is replaced only by a clearly better one",
  "When a trained network is compared with the stored best one, they play a match and the new one replaces it exactly when it wins at least 55 percent of the games (and counts as worse at 45 percent or less); otherwise the stored one stays as it was; where there is no best model yet the new one becomes it; no other file changes and the network in training is not altered.",
  ["configurations", "histories"], "every number of wins, losses and draws, either network being the better",
  "The tests never compare networks; wrong sides or thresholds need chosen match results.",
  [AV, AP], [("comparison", AV)],
  "decision monitor with match results set from outside (rigged games), files compared bit by bit",
  "Every relevant tally around the threshold plus random ones.")
prop("V01", "Matches are fair and their results are those of the games played",
  "A match plays 400 games, each player beginning half of them, each move chosen by the player whose turn it is with that player's own network or search settings (by the random player equally often among the legal moves), each game until it is over or has lasted the round limit; reported wins, losses, draws, rates, printed text and recorded winners are exactly those of the games played.",
  ["histories", "configurations"], "every pair of players, networks and games",
  "Tests look at a finished result only; who moved, began and won is not visible in it.",
  [VS, AV], [("match", VS + " play, PlayResult"), ("network players", AV)],
  "offline checker over recorded match histories (who chose, who began, who won) against the reported result",
  "Thousands of whole games per quick run, all pairs of player types. " + GAMES)
prop("V02", "Saved games read back as they were played",
  "A record of every game of a match holds the initial position, players, winner, a distinct id and the turns played, is written to a file of its own, and reads back unchanged, alone or with its whole directory; a damaged file is not read as a game, and a record that could not be written completely is not reported as saved.",
  ["inputs", "histories", "crash_points"], "every game of every match, and any content of a record",
  "No test saves and loads records of real matches with unusual ids, names and positions.",
  [VS], [("records", VS + " play, Game"), ("saving and loading", VS + " save_game, load_game, load_all_games")],
  "round-trip monitor over records and offline comparison with recorded matches",
  "Hundreds of made-up and thousands of played records per quick run. The missing turns are a known finding.")
prop("C01", "Every setting governs what it names, and none may be missing",
  "Settings are taken from the configuration as written, in any order and with whole or decimal numbers: the numbers of learning and self-play iterations, games at once, passes, batch size and temperature as given; exactly the configured number of search iterations with the configured exploration constant, round limit and noise (concentration and share), and training with the configured learning rate and weight decay. A configuration in which a needed setting is missing or not a number is refused instead of being replaced by a default.",
  ["configurations"], "every set of usable values in any notation; every needed setting missing, misspelled or not a number",
  "The tests use one configuration; settings that are swapped, ignored or silently defaulted show only when all values differ and their effects are observed.",
  ["src/lib.rs", AZ, AM, SM, NO, AP], [("search settings", "src/lib.rs MctsConfig::from_config"), ("learning settings", AZ + " AlphaZeroConfig::from_config, OptimizerParams::from_config, AlphaZero::from_config")],
  "differential monitor: the effect of each setting on observed searches, playouts, self-play and training against independent reference computations",
  "All thirteen settings vary at once with distinct values; every single missing or unreadable one is tried.",
  hook="record_tree in src/verif_hooks.rs")
prop("C02", "Commands do exactly what is asked, or refuse and leave nothing behind",
  "Play pits the two agents asked for (by name in any case, each with its own model) against each other under the configured temperature and search settings, saves one file per game of the match into the given directory and nothing elsewhere, and prints tallies that agree with the saved winners; learn starts from the given model (else the best one) and leaves the data and models of the configured iterations; replay shows the saved game's id, players, winner and first position and changes nothing. A request that cannot be carried out as asked (missing or unknown agent, game or command, missing or unusable model, configuration, needed setting, output directory or game file, more processors than there are) ends with an error and no file created or changed. A command whose files cannot be written ends with an error.",
  ["inputs", "configurations"], "every combination of commands, options, games, existing files and settings",
  "No test runs the program; arguments mixed up between players, swallowed errors and partial output only show from outside.",
  ["src/main.rs", VS, AZ, AP], [("commands", "src/main.rs main, handle_command"), ("saving and replay", VS + " save_game, print_game")],
  "black-box monitor of the built program: exit codes, output and directory contents, with faults injected in arguments and files",
  "About 110 runs of the real program per quick check, including matches whose result is certain by construction. The train command is judged by L04.")
