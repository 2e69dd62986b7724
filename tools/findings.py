import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
C15 d4ba397 recom looped for ever when no adjacent pair of districts could be split; it now gives up with MetagraphError once every adjacent pair failed
C09 41574c6 self-configuring bounds took a first value of zero for "not configured" and were configured again by the next state
C22 1ae9bf2 the boundary perimeter of nodes of one-row and one-column grids missed exposed sides
C03 d4132e6 one tally object of an attribute, reused on a second graph, kept reading the first graph's data
C03 f7edd62 a node with nan data made the tallies of both districts nan when it moved
C05 317981d the entropy scores failed when localities were not strings
C05 faf52dc two partitions shared (and overwrote) one locality score dictionary
C23 26c6281 enumeration of the metagraph neighbours listed the same flip several times
C08 02a6493 an invalid initial state was only refused properly when the constraints were given as an iterable or Validator with __name__d functions
C13 333d819 the randomly choosing bipartition ignored the one-sided mode it was asked for
C12 840f90a a tree on two nodes had no root candidate: two single-node districts could not be recombined
C14 2637242 tree partitioning removed nodes from the cached node set of a FrozenGraph
C17 eae0d0b slow_reversible_propose_bi failed (ValueError) when the chosen boundary node had no neighbour in its own district
C18 61d6c53 simulated annealing failed with OverflowError when a plan scored much better than the current one
C19 43dee68 best_part and best_score did not include the plan just produced (and lost it when the run was left)
C19 6dcbe5f variable length bursts never got longer: the first plan of each burst, a tie with itself, counted as an improvement
C20 a1b4433 two Gingleator scores failed (ValueError) on plans all of whose districts reach the threshold
C21 80841a9 Graph.add_data (and from_geodataframe with cols_to_add) added every column of the table, not the requested ones
C08 9c5ba46 constraints given as an iterator (the documented type is Iterable) were only checked for the initial state
C05 0bf9b72 a LocalitySplits object reused on another graph kept the first graph's localities
C20 790932a a second Gingleator on the same state scored the first one's minority (cached), and the first one afterwards the second's
C28 c984777 num_spanning_trees failed (IndexError) on plans with a district of a single node
C28 331c6d2 num_spanning_trees multiplied the weights of weighted edges (as spectral recombination leaves them) instead of counting trees
C29 f6a35d7 geometries at longitude 180 were put into UTM zone 61, which does not exist (the projection then fails)
C30 3f07f1f spectral recombination assigned the entries of the eigenvector to the wrong nodes unless the nodes were small ascending integers (on a path of named nodes it returned scattered districts)
C27 95d4b8d an updater given to Grid under the name of a default one was ignored, and the defaults were written into the dictionary that was given
C10 80912c7 the contiguity of a plan whose parent had been dropped (as chains do) only looked at the districts that had gained nodes
C17 d193cca propose_flip_every_district failed (IndexError) once a district had lost all of its nodes
C10 ffa4fea contiguous_bfs raised StopIteration for a plan with an empty district, which silently ended a MarkovChain that it constrains
C02 12fe365 a caller that re-used its flips dictionary changed the cut edges and tallies of partitions already made from it
C05 a9afdd3 symmetric_entropy raised ZeroDivisionError for a district or locality without population
C26 51624b1 geometries made invalid by reprojection were accepted, and refused only when errors were to be ignored
"""
out = []
for line in FIXED.strip().splitlines():
    pid, commit, what = line.split(" ", 2)
    out.append({"property": pid, "status": "fixed", "commit": commit, "what": f"fixed: property={pid} {commit} {what}"})
KNOWN = []
try:
    from known import KNOWN
except ImportError:
    pass
json.dump(out + KNOWN, open(f"{V}/known_findings.json", "w"), indent=1)
open(f"{V}/known_findings.json", "a").write("\n")
