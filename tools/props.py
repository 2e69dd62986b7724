"""The properties: one entry each, from which properties.jsonl and MANIFEST.json are generated."""


def P(id, title, statement, over, quant, why, files, mech, note, technique=None):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                mech=mech, note=note, technique=technique)


U = "gerrychain/updaters/"
PROPS = [
    P("C01", "A flipped partition is exactly its parent with the requested nodes moved",
      "Flipping a set of nodes yields a new partition over the same graph in which exactly those nodes have the requested districts and every other node keeps its own. The assignment, the parts and every other view of the plan agree: each node is in exactly one part, the one of its district, and the reported flows are exactly the nodes that changed district. The parent, its siblings and the caller's dictionary are unchanged.",
      ["inputs", "histories"], "every assignment of arbitrary district labels, every set of moved nodes and every destination, over several successive and sibling flips",
      "tests flip one or two fixed nodes of one fixed grid; the guarantee is over all flip sets, labels, node types and flip histories",
      ["gerrychain/partition/partition.py", "gerrychain/partition/assignment.py", "gerrychain/partition/subgraphs.py"],
      ["Partition.flip / _from_parent", "Assignment.update_flows / update_parts"],
      "all connected graphs on 3-5 nodes of the listed shapes, node ids of several types, up to 3 flips in a row"),
    P("C02", "Cut edges are exactly the edges between different districts",
      "After any history of flips, the cut edges of a partition are exactly the graph's edges whose ends are in different districts, each listed once. The cut edges by part list under every district exactly the cut edges with an end in that district. This holds whatever was moved, whether or not intermediate values were read.",
      ["inputs", "histories"], "every assignment, flip set and flip history, and every subset of intermediate states that is read",
      "incremental updates are tested on a handful of single flips; the error cases are particular combinations of simultaneous moves along an edge",
      [U + "cut_edges.py", U + "flows.py"], ["cut_edges", "cut_edges_by_part", "on_edge_flow", "compute_edge_flows"],
      "graphs of 3-5 nodes, up to 3 flips, up to all nodes moved at once"),
    P("C03", "District tallies equal the sums of their nodes' data",
      "The tally of an attribute (or several, or of given data) is, for every district of every partition in a history, the sum of the data over the nodes of that district. Missing data (nan) counts as nothing, and reusing one tally on another graph mixes nothing up. Values are the same whether they are updated step by step or computed afresh.",
      ["inputs", "histories"], "arbitrary numeric data per node (including nan), every assignment, flip set and history",
      "tests compare a few flips with integer data on one grid; stale or double-counted deltas need specific combinations of moves and data",
      [U + "tally.py", U + "flows.py"], ["Tally", "DataTally", "flows_from_changes"],
      "3-5 nodes, arbitrary integer/real data, up to 3 flips"),
    P("C04", "Boundaries, perimeters, areas and Polsby-Popper match the current districts",
      "Boundary node sets, exterior and interior boundary lengths, perimeters and areas reported for a partition are those of its current districts, computed from the boundary lengths and areas on the graph. Polsby-Popper is four pi area over perimeter squared for each district, and the compactness norms are the stated aggregates of it.",
      ["inputs", "histories"], "arbitrary positive lengths and areas, every assignment, flip set and history",
      "tests use one grid with unit lengths, where swapped or stale terms cancel",
      [U + "compactness.py", "gerrychain/metrics/compactness.py", "gerrychain/constraints/compactness.py"],
      ["exterior_boundaries", "interior_boundaries", "perimeter", "boundary_nodes", "polsby_popper"],
      "3-5 nodes, arbitrary lengths/areas, up to 2 flips"),
    P("C05", "County and locality split reports follow from the current plan",
      "A county is reported as split exactly when its nodes lie in more than one district, newly split exactly when it is split now but was whole in an earlier plan of the history, and with exactly the districts its nodes are in. The locality scores (number of parts, pieces, splits, entropies) equal their definitions over the current plan and populations, also when one score object is used on several graphs.",
      ["inputs", "histories"], "every assignment of nodes to counties and districts, arbitrary populations, every flip set and short history",
      "tests look at one plan with fixed counties; entropies are only compared with recorded values",
      [U + "county_splits.py", U + "locality_split_scores.py"], ["county_splits", "tally_region_splits", "LocalitySplits"],
      "3-5 nodes, 2-3 counties, up to 2 flips; logarithms are uninterpreted"),
    P("C06", "Election results report the votes that were cast in each district",
      "For every partition in a history, an election's totals, counts, percentages and wins (a tied district is nobody's win) are those obtained by adding up the nodes' votes by district and party, for any number of parties. Two elections on a plan and one election on two graphs never mix. Districts without votes give undefined (nan) shares rather than wrong ones.",
      ["inputs", "histories"], "arbitrary vote counts per node and party, every assignment, flip set and history",
      "tests check fixed votes on a 3x3 grid; ties, zero-vote districts and stale totals need particular votes",
      [U + "election.py"], ["Election", "ElectionResults", "ElectionUpdater"], "3-4 nodes, 2-3 parties, up to 2 flips"),
    P("C07", "Partisan scores equal their published definitions",
      "Mean-median, mean-thirdian, efficiency gap, wasted votes, partisan bias and partisan Gini of an election equal their definitions over the district vote shares of the current plan. The efficiency gap lies in [-1/2, 1/2], the Gini score in [0, 1] and independent of which party is listed first, and exactly half of all votes are wasted.",
      ["inputs"], "arbitrary votes in every district, 2 to 5 districts, arbitrary turnout",
      "tests compare a few hand-picked elections; sign, order-statistic and tie errors show only for particular vote patterns",
      ["gerrychain/metrics/partisan.py", U + "election.py"], ["mean_median", "mean_thirdian", "efficiency_gap", "partisan_bias", "partisan_gini"],
      "2-5 districts, arbitrary votes with the listed turnouts"),
    P("C08", "A Markov chain yields exactly the accepted, valid states",
      "A chain yields its initial state first and then one state per step, as many states as requested: the proposed state when it is valid and accepted (a true answer), also when it is a self-loop, otherwise the unchanged current state; invalid proposals are redrawn from the same current state and never yielded nor judged for acceptance. Every yielded state satisfies every constraint, an invalid initial state is refused with a ValueError, and iterating again starts over. No more than one previous state is kept alive.",
      ["inputs", "histories"], "arbitrary proposal outcomes, constraint verdicts and acceptance decisions at every step",
      "tests run short chains with fixed stubs; the protocol must hold for all interleavings of invalid, rejected and accepted proposals",
      ["gerrychain/chain.py", "gerrychain/constraints/validity.py"], ["MarkovChain.__next__", "MarkovChain.constraints setter", "Validator"],
      "chains of up to 4 states, up to 2 invalid proposals per step"),
    P("C09", "Constraints hold exactly when the bounded quantity is within its bounds",
      "Bounds, upper, lower, self-configuring and percent-range bounds accept a state exactly when the bounded value lies within the stated limits (inclusive), with limits taken from the first state where so documented. A validator accepts exactly when all its constraints do, and rejects non-boolean answers with a TypeError. Population tolerance, vanishing-district and new-split constraints equal their definitions over the current plan.",
      ["inputs", "histories"], "arbitrary values, limits, percentages, populations and sequences of states",
      "tests sample a few values; boundary equality, zero and first-state effects are missed",
      ["gerrychain/constraints/bounds.py", "gerrychain/constraints/validity.py", "gerrychain/constraints/__init__.py"],
      ["Bounds", "SelfConfiguringUpperBound/LowerBound", "WithinPercentRangeOfBounds", "within_percent_of_ideal_population", "districts_within_tolerance", "no_vanishing_districts", "refuse_new_splits"],
      "up to 3 values/districts/states each"),
    P("C10", "Contiguity checks agree with connectedness of every district",
      "Every contiguity check says yes exactly when all districts are connected, for a first plan, for a plan whose parent is no longer kept and, asked along a chain of contiguous plans, for every later one; loss of a district by a single flip is refused. The number of contiguous parts and the contiguous components are the actual ones, and the no-more-discontiguous bound never lets the number of connected districts fall below the starting number.",
      ["inputs", "histories"], "every plan with arbitrary labels on the listed graphs, every single or multi-node move, short histories",
      "the fast local checks are only tested on hand-made plans; wrong shortcuts need specific local shapes",
      ["gerrychain/constraints/contiguity.py"], ["contiguous", "contiguous_bfs", "single_flip_contiguous", "are_reachable", "contiguous_components"],
      "graphs of 3-6 nodes, moves of 1-2 nodes, histories of 2-3"),
    P("C11", "Spanning-tree generators always return spanning trees, and can return any",
      "For every connected graph and every outcome of the random draws, both spanning-tree generators return a tree that spans the graph's nodes and uses only its edges, leaving node data and edges of the graph alone. Every spanning tree of the graph can be drawn, by the uniform generator with equal probability, also when it is asked a second time. With region surcharges of at least 1 the tree never leaves and re-enters a region that its own edges connect, nodes without a region counting as regions of their own.",
      ["inputs", "configurations"], "every value of every random weight and every random walk within the bound, all small connected graphs",
      "a seeded test samples a few trees of one graph",
      ["gerrychain/tree.py"], ["random_spanning_tree", "uniform_spanning_tree"],
      "all connected graphs on 4 nodes and most on 5; Wilson walks of up to 8-10 draws"),
    P("C12", "Balanced-cut finders return exactly the balanced edges of the tree",
      "Given a spanning tree, populations, an ideal population and a tolerance, the two-sided finders return each tree edge whose removal leaves both sides within tolerance, exactly once, with one of its sides, and no other edge, for every choice of root. In the one-sided mode every returned side is within tolerance, the memoized finder misses no edge with a balanced side, and the contracting one no edge that strictly cuts off a balanced side away from the root. Populations and tree given are not changed.",
      ["inputs"], "arbitrary populations, ideal population and tolerance, every root, all trees on up to 6 nodes",
      "tests only check that seeded runs find some cut",
      ["gerrychain/tree.py"], ["find_balanced_edge_cuts_memoization", "find_balanced_edge_cuts_contraction", "PopulatedGraph"],
      "all trees on 2-5 (thorough: 6) nodes"),
    P("C13", "Random bipartitions are connected, balanced cuts of a spanning tree",
      "Whatever the random draws, a tree bipartition of a connected graph returns a non-empty proper subset that is one side of an edge of a drawn spanning tree, so that the subset and its complement are connected, and both (in one-sided mode: the subset) have a population within the tolerance of the target. When a drawn tree has a balanced cut it is used, the randomly choosing variant takes each balanced cut with equal probability; otherwise another tree is drawn after the configured number of repeats, up to the maximum number of attempts; running out is reported by an error, a reselection request or None exactly as the options say. The graph given is not changed, and with surcharges on up to three kinds of regions no balanced cut of the tree along more, or as many but dearer, region borders than the one taken exists (and none heavier along the same borders).",
      ["inputs", "configurations"], "arbitrary populations, targets and tolerances; every spanning tree, root and cut choice; all option combinations listed",
      "tests run a few seeds on one grid with unit populations; wrong retries, bounds or sides need specific populations and draws",
      ["gerrychain/tree.py"], ["bipartition_tree", "bipartition_tree_random", "_max_weight_choice", "_region_preferred_max_weight_choice"],
      "graphs of 3-5 nodes, up to 3 attempts, arbitrary populations"),
    P("C14", "Initial plans give every node exactly one of the requested districts",
      "Recursive partitioning (by single districts or by seeds) assigns every node of the graph exactly once, to exactly the requested districts, each of them connected and within the tolerance of the target population; otherwise it raises an error instead of returning a plan, for every outcome of the draws and any bipartition method that keeps its own contract. Drawn one by one, no district leaves the rest with an average population outside the tolerance, none that would not is ruled out, and no plan is refused while all cuts are balanced. The graph is not changed, and a random initial partition is one of these plans with the ideal population as target.",
      ["inputs", "configurations"], "arbitrary populations; every outcome of the trees, roots and cuts; 2 to 6 districts",
      "seeded tests check one or two plans with uniform populations; accumulation of population debt shows only with particular populations",
      ["gerrychain/tree.py", "gerrychain/partition/partition.py"], ["recursive_tree_part", "recursive_seed_part", "get_seed_chunks", "Partition.from_random_assignment"],
      "graphs of 3-7 nodes, 2-6 districts, arbitrary populations"),
    P("C15", "A ReCom step redraws one adjacent pair of districts and nothing else",
      "A recombination proposal changes only the nodes of one pair of adjacent districts, keeps both labels in use, and leaves both new districts connected and within the tolerance of the target; the current plan is unchanged and every adjacent pair can be chosen. With pair reselection, pairs that failed are not tried again and an error is raised only when no adjacent pair is left. Spectral recombination splits the merged pair by the sign of the entries of the eigenvector.",
      ["inputs", "configurations"], "arbitrary populations, every choice of pair, tree and cut, every pattern of failing pairs",
      "tests run seeded chains on one grid and look only at balance or that something changed",
      ["gerrychain/proposals/tree_proposals.py", "gerrychain/proposals/spectral_proposals.py"], ["recom", "ReCom", "spectral_recom", "spectral_cut"],
      "graphs of 4-6 nodes, 2-4 districts, arbitrary populations; eigenvector arbitrary"),
    P("C16", "Reversible ReCom accepts with exactly the probability cuts/(M * seam)",
      "Reversible ReCom draws a pair of district labels, and unless they are adjacent stays put; otherwise it draws a spanning tree of the merged pair, picks a balanced cut of it, and moves to that plan exactly when a uniform draw is below the number of balanced cuts over M times the number of edges between the new districts. More balanced cuts than M raise an error. Every plan it proposes changes only the merged pair and has connected districts within the tolerance of the target, and the current plan is unchanged.",
      ["inputs", "configurations"], "arbitrary populations, every pair, tree, cut and acceptance draw, several M",
      "a seeded test runs one chain; an acceptance ratio that is wrong in one factor still runs and still gives valid plans",
      ["gerrychain/proposals/tree_proposals.py"], ["reversible_recom"], "graphs of 4-6 nodes, 2-3 districts, M from 1 to 4; cuts found in the real code"),
    P("C17", "Flip proposals move boundary nodes across the boundary and nothing else",
      "A random flip moves one node across a cut edge: one end of it takes the district of the other, no other node changes, and a plan without cut edges is returned unchanged. The other flip proposals likewise do what their documentation says: any node to any district, the foreign neighbours of a boundary node into its district, one flip for each district, and the slow reversible ones a uniformly drawn boundary node (with its stated rejections). Every such move can be drawn, with the documented probability, and the current plan is unchanged.",
      ["inputs", "histories"], "every plan with the stated labels, also just flipped from another one, every outcome of the draws",
      "tests check a single seeded flip on one plan; impossible or double-counted moves do not show",
      ["gerrychain/proposals/proposals.py"], ["propose_random_flip", "propose_any_node_flip", "propose_chunk_flip", "propose_flip_every_district", "slow_reversible_propose", "slow_reversible_propose_bi"],
      "graphs of 3-6 nodes, every plan with 2-3 labels; exact probabilities on concrete plans"),
    P("C18", "Acceptance rules accept with exactly the stated probability",
      "Cut-edge acceptance takes a step with probability min(1, cut edges before / cut edges after); tilted acceptance always takes steps that are not worse and the others with the given probability; annealing takes a step with probability min(1, exp(-beta * magnitude * worsening)), for maximization and minimization alike. Always-accept accepts. The temperature schedules are at their documented value at every step of every cycle.",
      ["inputs", "histories"], "arbitrary scores, probabilities, temperatures and acceptance draws, every step of the schedules",
      "tests compare acceptance for one or two scripted values; sign, direction and off-by-one errors survive seeded runs",
      ["gerrychain/accept.py", "gerrychain/optimization/optimization.py"], ["cut_edge_accept", "_tilted_acceptance_function", "_simulated_annealing_acceptance_function", "jumpcycle/linearcycle/logitcycle beta functions"],
      "up to 5 steps of arbitrary scores; exp axiomatised, real exp at listed scores; schedules up to the listed durations"),
    P("C19", "Optimizers run the stated bursts and report the best plan of the run",
      "An optimization run yields every plan the chain visits; after each one the best plan and best score are those of the best plan of the run so far (of equally good ones the latest). Short bursts run the given number of bursts of the given length, each starting from the best plan found so far; variable-length bursts start with length 2, double whenever at a burst's end the steps without improvement reach the buffer times the length, and stop at the given total. A progress bar changes nothing, and a second run starts from the initial plan again.",
      ["inputs", "histories"], "arbitrary scores, validity and acceptance of every proposal, maximization and minimization",
      "tests look at the final score of seeded runs; a stale or off-by-one best plan is invisible there",
      ["gerrychain/optimization/optimization.py"], ["SingleMetricOptimizer.short_bursts", "variable_length_short_bursts", "tilted_run", "simulated_annealing"],
      "up to 3 bursts of up to 3 plans with arbitrary scores; up to 26 steps for the length schedule"),
    P("C20", "Gingles scores follow from the minority shares of the current districts",
      "The minority share of each district is its minority population over its total population in the current plan, for every plan of a run. Each Gingleator score is the number of districts at or above the threshold plus its own bonus: none; the next highest share below the threshold; that share scaled over the last tenth below it; or how far the highest or the average share at or above it stays below 1, relative to the threshold. Scores are defined for every plan, with no or all districts above the threshold, and runs maximize them.",
      ["inputs", "histories"], "arbitrary minority populations, shares and thresholds, every plan and move",
      "tests have one example per score; ties at the threshold, none or all districts above it are missed",
      ["gerrychain/optimization/gingleator.py"], ["Gingleator", "num_opportunity_dists", "reward_partial_dist", "reward_next_highest_close", "penalize_maximum_over", "penalize_avg_over"],
      "1-5 districts with arbitrary shares; 3-4 nodes through the class"),
    P("C21", "Graph data survives saving, joining and freezing unchanged",
      "A graph saved to JSON and loaded again has the same nodes (numbers or strings), edges and data. Joining or adding a table gives each node the values of its own row, for the requested columns only, whatever the order of the rows; loading a districtr plan gives each node the district its id has in the file. The frozen graph of a partition shows the same nodes, neighbours, degrees, edges and data as the graph it was made from, cannot be changed, and is never confused with another graph; islands are exactly the nodes without neighbours.",
      ["inputs"], "every graph on 3-4 nodes, arbitrary data, every row order and key assignment",
      "tests read one file and one table in the order of the nodes",
      ["gerrychain/graph/graph.py", "gerrychain/partition/partition.py"], ["Graph.to_json/from_json", "Graph.join", "Graph.add_data", "FrozenGraph", "Partition.from_districtr_file"],
      "2-4 nodes, arbitrary numbers, all row orders"),
    P("C22", "A grid partition has the geometry of its grid and plan",
      "A grid of m by n cells has exactly the cells, the neighbouring pairs (with diagonals if requested), unit areas and populations, and boundary lengths of the rectangle it stands for. Its plan, perimeters, areas, boundary and interior lengths, cut edges and populations are those of the current districts, for the default quadrants and any given plan, also after flips. The coloring helpers give each cell the half or quadrant its coordinates are in.",
      ["inputs", "histories"], "all sizes up to 4x4, every plan on the small ones, every flip, arbitrary coordinates for the coloring",
      "tests use one 3x3 or 10x10 grid and look at a few cells",
      ["gerrychain/grid.py"], ["Grid", "create_grid_graph", "color_half", "color_quadrants", "get_boundary_perim"], "sizes up to 4x4; plans of up to 2x3 cells"),
    P("C23", "The metagraph helpers enumerate exactly the neighbouring plans",
      "The flips listed for a plan are exactly those that give a node the district of a neighbour in another district, each once. The valid flips and states are exactly those of them whose resulting plan satisfies every constraint, whether given as a callable, a validator or a list, and the metagraph degree is their number. The plan itself is unchanged.",
      ["inputs"], "every plan, arbitrary verdicts of the constraints on every neighbouring plan",
      "one test compares sizes on one grid",
      ["gerrychain/metagraph.py"], ["all_cut_edge_flips", "all_valid_flips", "all_valid_states_one_flip_away", "metagraph_degree"], "graphs of 3-5 nodes, every plan with 2-4 labels"),
    P("C24", "Diversity statistics count the distinct plans and districts of a run",
      "While a chain of plans with connected, non-empty districts is passed through, unchanged and in order, the statistics after each plan are the number of plans seen, of distinct plans (counting plans that differ only in district names once) and of distinct districts.",
      ["histories"], "every run of 2-4 plans over small graphs, including repeats, relabellings and returns",
      "one test counts one seeded run",
      ["gerrychain/meta/diversity.py"], ["collect_diversity_stats", "DiversityStats"], "3-4 nodes, runs of 2-4 plans"),
    P("C26", "Graphs built from geometries have exactly the touching pairs and lengths",
      "A graph built from planar, non-overlapping polygons has an edge exactly between those sharing a boundary (rook: of positive length; queen: or a point), labelled with the length shared. Areas, outer-boundary flags and outer-boundary lengths are those of the geometries, after reprojection if requested, and data columns stay with their rows. Invalid geometries are refused unless ignored, overlaps are warned about, and islands reported.",
      ["inputs", "configurations"], "rectangles with arbitrary coordinates in brick patterns or anywhere, both adjacency rules",
      "tests use three fixed polygons or one shapefile",
      ["gerrychain/graph/graph.py", "gerrychain/graph/adjacency.py", "gerrychain/graph/geo.py"], ["Graph.from_geodataframe", "rook", "queen", "add_boundary_perimeters", "warn_for_overlaps"],
      "2-5 axis-parallel rectangles; shapely modelled by rectangle arithmetic and the model cross-checked against real shapely"),
    P("C25", "The same draws give the same run, whatever was run before",
      "Run again from equal inputs with the same random draws, a chain, optimizer, proposal, spanning tree or initial plan gives the same result and asks for the same draws, whatever was run in between on the same or on other graphs and partitions. All randomness comes from Python's `random` module, which is never reseeded, so that seeding it once repeats a run. Iterating one chain a second time starts again at its initial state.",
      ["inputs", "histories"], "every outcome of the draws of the first run, arbitrary populations where listed, repeated on the same or on freshly built objects, after nothing, the same run, a run on another graph or other operations",
      "tests that fix a seed compare with recorded values at most; state that leaks from one run into the next needs two runs in one process and the right draws",
      ["gerrychain/chain.py", "gerrychain/tree.py", "gerrychain/proposals/tree_proposals.py", "gerrychain/proposals/proposals.py", "gerrychain/optimization/optimization.py", "gerrychain/partition/partition.py"],
      ["MarkovChain.__iter__", "recom", "reversible_recom", "recursive_tree_part", "SingleMetricOptimizer"],
      "graphs of 4-5 nodes, runs of 2-4 states; what is run in between follows two fixed streams of draws"),
    P("C27", "A partition's values are its own updaters' on its own plan",
      "The value a partition gives under a name (or attribute) is that updater computed on this very plan, at most once, whatever was asked before and in which order; a name without updater is a KeyError. A partition offers its class's default updaters (unless refused) with the given ones added or replacing them, and so do all partitions flipped from it, however the first was made. Updaters built with on_flow and on_edge_flow are told exactly which nodes and cut edges entered and left each district.",
      ["inputs", "histories"], "arbitrary labels, data, moves, order of reading, and parents already dropped as in a chain",
      "tests read one value of one plan; wrong caching shows only in particular orders of flips and reads, or for values such as 0 and None",
      ["gerrychain/partition/partition.py", U + "flows.py", "gerrychain/partition/geographic.py"],
      ["Partition.__getitem__", "Partition._first_time", "Partition._from_parent", "on_flow", "on_edge_flow"],
      "3-4 nodes, up to 2 flips of up to 3 nodes"),
    P("C28", "The number of spanning trees reported for each district is exact",
      "The number of spanning trees reported for a district is the number of spanning trees of the graph on its nodes (one for a single node, none if it is not connected), up to rounding and whatever data its edges carry. It is reported for exactly the districts of the current plan, also after flips.",
      ["inputs", "histories"], "every plan with arbitrary labels on the listed graphs, every move",
      "one test looks at one grid that is a single district",
      [U + "spanning_trees.py"], ["num_spanning_trees", "_num_spanning_trees_in_district"],
      "graphs of 2-6 nodes with every plan, 3x3 grids with every single move; the determinant is computed by numpy for real on each path"),
    P("C29", "Geometries are projected to the UTM zone that most of them lie in",
      "The zone of a point is the standard UTM zone of its longitude and latitude, with the exceptions for Norway and Svalbard, and points outside of UTM's range are refused. Reprojection uses a zone that contains the centroids of at least as many geometries as any other.",
      ["inputs"], "arbitrary longitudes and latitudes of up to four geometries",
      "one test looks at one city",
      ["gerrychain/graph/geo.py", "gerrychain/vendor/utm/conversion.py"], ["utm_of_point", "identify_utm_zone", "reprojected", "latlon_to_zone_number"],
      "1-4 geometries in the listed longitude bands; trigonometry, which the zone does not depend on, is replaced by constants; the projection itself (PROJ) is outside"),
    P("C30", "Spectral ReCom cuts along the sign pattern of the Fiedler vector",
      "A spectral recombination divides the merged pair of districts by the signs of an eigenvector belonging to the second smallest eigenvalue of the Laplacian (by default the normalized one) of the merged graph, each node going by its own entry. Edges count alike, or with random weights if these are asked for.",
      ["inputs"], "arbitrary eigenvectors, every merged pair of the listed plans, node ids of all types",
      "tests run one seeded chain; a vector that is read in another node order still gives plausible districts",
      ["gerrychain/proposals/spectral_proposals.py"], ["spectral_cut", "spectral_recom"],
      "merged districts of 2-6 nodes; LAPACK is replaced by its contract (ascending eigenvalues, eigenvectors as columns, arbitrary entries) and the matrix it is given is compared with the Laplacian; the real-* cases run LAPACK; graphs without an edge attribute 'weight'"),
]
NA = [
    P("C31", "Reversible ReCom samples plans in proportion to their spanning trees",
      "The stationary distribution of reversible ReCom gives each plan of balanced connected districts a probability proportional to the product of its districts' numbers of spanning trees.",
      ["inputs", "histories"], "every graph, every tolerance, every start",
      "a property of an infinite run's distribution; no finite test decides it",
      ["gerrychain/proposals/tree_proposals.py"], ["reversible_recom"],
      "a statement about the limit of an unbounded random run: bounded symbolic execution decides single steps only; its local ingredients (uniform trees, acceptance probability cuts / (M * seam), all balanced cuts found) are claimed in C11, C12 and C16"),
]
