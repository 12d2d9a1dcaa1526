"""Single source of properties.jsonl and MANIFEST.json (python3 tools/gen_meta.py rewrites both)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "framework_python/rei/"
CI = F + "foundations/conceptual_item.py"
BE = F + "hypergraph/base_elements.py"
VN = F + "hypergraph/value_node.py"
HT = F + "foundations/hierarchical_traversal_strategies.py"
HG = F + "foundations/hypergraph_traversal_strategies.py"
SE = F + "foundations/query/search_elements.py"
QE = F + "query/query_engine.py"
FF = F + "factories/foundation_factory.py"
AF = F + "factories/abstract_factory.py"
HF = F + "hypergraph/homomorphism_functions.py"
TR = F + "tensor/tensor_representation.py"
FO = F + "hypergraph/factorization_operations.py"
CO = F + "hypergraph/encoding/graph_tensor_icon.py"
CB = F + "hypergraph/encoding/graph_tensor_icon_cbor.py"
CE = F + "format/semantics/CognitiveEntity.py"
SF = F + "format/semantics/cognitive_entity_semantic_factory.py"
SD = F + "format/mapping/cognilang_sdf_icon.py"
KS = F + "format/phys/kinematics/kinematic_semantic_context.py"
SG = F + "format/phys/solid_geometry_context.py"
IN = F + "format/phys/inertia_context.py"
CF = F + "format/mapping/cognilang_file_icon.py"

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms [(name, where)], level_note, technique
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, technique, note, observe=None, na=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or [], na=na))


EXPL = "explicit-state model checking of the real code: breadth-first search over all operation sequences up to a depth"
ENUM = "bounded exhaustive exploration of the real code: every graph of a bounded shape space, against an independent reference model"

prop("C01", "Containment is a consistent forest with exact indices",
     "After any sequence of additions, moves and removals, every element is listed exactly once among the children of exactly the "
     "element that is its parent and of no other, children keep their order of addition, and no element contains itself directly or "
     "indirectly. The child count, the lookup of children by name and the lookup by identifier agree with that list of children, and the "
     "context ids of the children of one container are distinct. Adding an element that lives elsewhere moves it, and a removal by name, "
     "by identifier or by both detaches and yields exactly the matching children.",
     ["histories"], "all sequences of add / move / remove (by name, identifier, both, partially consumed) / register / deregister up to "
     "a depth over small worlds of nodes, edges, relations, values, semantic values and ports with colliding names and identifiers",
     "Tests perform a handful of fixed additions and removals on distinct names; consistency has to survive every interleaving of moves, "
     "same-named siblings, removals by different keys and re-additions.",
     [CI, BE], [("add_element / remove_element / name index", CI), ("edge and relation overrides", BE)], EXPL,
     "Every reachable state of four bounded worlds of real objects up to the stated depth; states are identified by a deep snapshot of all "
     "attributes. Nothing is assumed about elements beyond the bound or about user code that writes private attributes.")
prop("C02", "Qualified names and depths of whole subtrees are always current",
     "After any sequence of structural operations the qualified name of every element, at any distance below the moved, added or removed "
     "element, is the slash-joined list of names on its path from its root, and its depth is the number of its containers. A removed or "
     "deregistered element becomes the root of its own subtree with depth 0, and elements outside the affected subtree keep their name.",
     ["histories"], "all operation sequences up to a depth over worlds that contain deep chains, all element kinds and repeated names",
     "Tests look at the direct child only, right after one operation; staleness appears in grandchildren and after moves of prepared subtrees.",
     [CI, BE], [("recursive update after add/remove", CI)], EXPL,
     "Names and depths of every element are recomputed from the observed containment after every transition of the exhaustive search.")
prop("C03", "Refused operations change nothing",
     "Adding an element to itself, beneath one of its own descendants, or next to a sibling with the same identifier raises the documented "
     "error, as do removal without a key, connecting an edge twice to an endpoint and building an edge with a wrong number of values; removing "
     "something that is not there yields nothing. None of these changes anything: containers, children, counts, names, depths, indices, "
     "relations and ports are exactly as before, and later operations behave as if it had not been tried.",
     ["histories"], "every refusable operation attempted in every state reachable by operation sequences up to a depth",
     "Tests check that one error is raised from a fresh state; they do not compare the state before and after, nor try in other states.",
     [CI, BE, FF], [("checks before mutation", CI), ("rollback of unary_connect", BE), ("length check before creation", FF)], EXPL,
     "Full observable state compared before/after each refused operation in every reachable state of the bounded worlds.")
prop("C04", "Path lookup returns exactly the elements at the path",
     "Looking up a name or a slash-separated path below an element returns exactly the descendants reached by following those names step by "
     "step through same-named siblings of any element kind, each once and in order; a path with a missing step returns nothing and raises nothing. "
     "This holds in every state, including after moves and removals.",
     ["histories", "inputs"], "all paths of up to three steps over the name alphabet (plus absent names), from every element, in every state "
     "reachable by operation sequences up to a depth",
     "Tests look up a few existing names in static trees; missing steps, repeated names and stale indices after mutations are never tried.",
     [CI], [("get_element_by_id_name", CI)], EXPL,
     "All paths up to 3 steps from every element in every reachable state, against the tree read through the children lists.")
prop("C05", "Bulk operations equal the single operations",
     "Awaiting the addition or removal of several elements has the same effect as adding or removing them one after the other in the "
     "given order: same children, order, counts, names, depths and removed elements. One refused element does not prevent the others, is "
     "reported to the caller, and nothing happens only partially.",
     ["histories", "inputs", "schedules"], "all ordered argument lists up to a length (including repetitions and refused elements) in every state reachable up to a depth",
     "Tests add one list of distinct fresh nodes; order, failures in the middle, moves and removals by each kind of key are not explored.",
     [CI], [("add_elements / remove_elements", CI)], EXPL + " (differential against the sequence of single operations)",
     "Bulk and single execution compared on twin worlds, all argument lists up to the bound.")
prop("C06", "Timestamps record the last structural change",
     "An element's timestamp is a reading its own clock gave during the most recent addition, move or removal of the element or of "
     "a container of it, or during its creation, and is never older than that operation. Operations elsewhere, refused operations, queries and traversals leave it unchanged, so with a monotonic clock timestamps never decrease.",
     ["histories"], "all operation sequences up to a depth with an environment clock that advances at every reading and with one that jumps between operations",
     "Tests use a clock that always answers 0, so a missing, stale or spurious stamp is invisible.",
     [CI, F + "foundations/clock.py"], [("_update_timestamp through update", CI)], EXPL + ", with a controlled clock",
     "Clock is owned by the checker; each transition is compared against the readings handed out during it.")
prop("C07", "An edge's relations, endpoints and ports agree",
     "After any sequence of connections, removals and disconnections, an edge lists exactly one relation per connected endpoint, in order, "
     "with the given direction, weight and semantic value; its endpoint set, incoming and outgoing relations follow from these "
     "(a bidirectional relation is both). Every connection gives the endpoint exactly one port that leads to that relation, disconnecting an endpoint "
     "from a relation removes exactly that port, and different endpoints are never confused even if they have the same name.",
     ["histories"], "all sequences of connect (three directions, with and without weight / semantic value), reconnect, removal of relations, "
     "disconnect and moves up to a depth, on edges and endpoints with colliding names, including edges as endpoints",
     "Tests build one edge with distinct nodes and look at its size; disconnection, reconnection, same-named endpoints and mixtures of directions are not covered.",
     [BE], [("unary_connect", BE), ("connect / disconnect ports", BE)], EXPL + " against an incidence model",
     "Reference incidence model stepped alongside the real objects over every bounded history.")
prop("C08", "Edge builders create exactly the requested edge",
     "Each builder adds one new edge, named as requested, to the given container, whose relations are exactly the requested endpoints in the given order, each with the "
     "requested direction, the weight that belongs to that position and its semantic value: the first group of a two-sided builder gets the first direction "
     "and the first values, the second group the second. Nodes and values created with a parent are children of that parent and carry the given values; without a parent they are roots.",
     ["inputs"], "all calls of every builder with up to 4 endpoints over all splits, orders, directions, value lists (right and wrong length) and clocks",
     "Tests use one or two fixed calls per builder, mostly with equal directions and no values; swapped groups, misaligned values and orders go unnoticed.",
     [FF, AF], [("connect_nodes / connect_2factor_edges / connect_dir_edges / connect_tuple_nodes", FF)], ENUM,
     "All builder calls in the bounded argument space executed and compared with the requested edge.")
prop("C09", "Identifiers are unique and reproducible",
     "Elements of one kind that a factory creates in containers of different qualified names or under different names never share an identifier, even with a clock that does not advance, nor do "
     "those of factories of different names; the relations and ports of one edge or endpoint are distinct as well. With the same factory name, clock readings and calls the same identifiers are "
     "produced, identifiers do not depend on unrelated elements, and progenitor names are strings made of the names involved and the clock reading.",
     ["inputs", "histories"], "all creation sequences up to a length over nested containers, repeated names, element kinds and frozen or advancing clocks",
     "Tests assert distinctness for one list of distinct sibling names; collisions need equal names in different containers, kinds that alias, or a frozen clock.",
     [AF, FF, F + "foundations/identification/identity_generator.py", BE], [("generate_uid", F + "foundations/identification/identity_generator.py"), ("uid name composition", FF)], ENUM,
     "All bounded creation sequences executed twice; identifiers compared pairwise.")
prop("C10", "Hierarchical traversals visit exactly what they promise, in order",
     "A breadth-first traversal visits the start element and all descendants reachable through elements accepted by the filter exactly once, level by level "
     "in child order; a depth-first one visits the same set, finishing a branch before the next. With a depth limit d exactly the accepted elements at most d levels below the start are visited, whatever "
     "their absolute depth; ignoring the root leaves out just the start element, and results come back in visit order.",
     ["inputs", "configurations"], "all ordered trees up to a size, all filters over their elements, all start elements, all strategies, depth limits and root options, plus deep chains",
     "Tests traverse two fixed trees with trivial filters; limits, filters and starts below the root combine in ways they never reach.",
     [HT], [("fringe discipline and depth bookkeeping", HT)], ENUM,
     "Every tree up to the bound x filter x start x strategy x limit, against a recursive reference.")
prop("C11", "Searching by qualified name is exact and always up to date",
     "A search from an element returns the element with the asked qualified name if one is in its reach - the containment below the start for "
     "the sub-element search, the whole containing tree for the element search - and nothing otherwise; of several it returns exactly one. A repeated or later search with "
     "the same query object reflects the graph as it is now, after any moves, removals or additions, and never changes the graph.",
     ["histories", "inputs"], "all names and starts in all small trees, and all histories of mutations and searches with one query object up to a depth",
     "Tests run each search once on a static graph; staleness of cached answers needs a search, a mutation and another search.",
     [SE], [("_traverse, visited set, element cache", SE)], EXPL,
     "Search results compared with a reference walk in every state of bounded mutation/search histories; the shared module-level queue (known finding under C12) is drained before each search.")
prop("C12", "Traversals, queries and transformers are isolated from each other",
     "Running any traversal, search, query, index mapping, tensor or coordinate transformer, or factorization gives the same result whatever other ones ran "
     "before, run nested inside its callbacks, were aborted by an exception, or are interleaved with it as asynchronous tasks or threads on the "
     "same or other graphs. Objects of these classes do not share mutable state with each other, and one object used twice gives what two objects would give.",
     ["schedules", "histories", "fault_sequences"], "all pairs of operations in sequence, nested and aborted at every callback; all task schedules of two asynchronous operations; all thread schedules up to a preemption bound",
     "Tests run operations one after the other in fresh processes and never interleave, nest or abort them.",
     [HT, HG, SE, HF, TR, FO], [("per-visit fringe and task lists", HT), ("per-execution state", HG)],
     "stateless model checking of the real code: controlled event loop and preemption-bounded thread scheduler",
     "All schedules within the preemption bound at source-line granularity, all event-loop orders, all abort points. Searches share a queue through a mutable default argument "
     "(known finding); they are explored sequentially only.")
prop("C13", "Preposition queries return exactly the matching elements",
     "A preposition query returns exactly the nodes, edges, relations and semantic values among its context and the elements below it that satisfy the preposition and are accepted by the traversal "
     "statement together with all their containers up to the context, each once and in breadth-first order. An engine returns the results of its queries one after "
     "the other in order of registration, a query registered under an existing name replaces the old one, a cleared engine returns nothing, and every execution - "
     "also a repeated one, by either way of executing - answers for the graph as it is at that moment.",
     ["inputs", "histories"], "all prepositions and statements over all small graphs of all element kinds, and all histories of register / clear / execute / mutate up to a depth",
     "Tests execute a query once on a fixed robot graph; repeated execution, queries without matches and several queries interact.",
     [QE], [("prefilter / get_list_results", QE)], EXPL,
     "Reference evaluation in every state of bounded histories of engine operations and graph mutations.")
prop("C14", "The index mapping is a bijection onto consecutive indices",
     "The index mapping of a container assigns to its nodes, edges and value nodes (those in it down to the configured depth, reached through containers of the same kind) consecutive indices 0..n-1 in visit order, separately per kind, "
     "forward and backward lookup are inverse to each other, and the counts equal the number of elements. Recomputing the mapping, on the same or another or a changed "
     "container, leaves no trace of the previous one, and a mapping restored from lists equals the original.",
     ["inputs", "histories"], "all small containers (all kinds, nested), depths and root options, and all histories of recomputation and restoration",
     "Tests index one fixed graph once.",
     [HF], [("add_*_homology, reset_homology, reset_from_bijection", HF)], ENUM,
     "All bounded containers; the mapping is compared with the enumeration of the container.")
prop("C15", "Weight tensor and incidence matrices describe exactly the graph",
     "For a container with edges linking its nodes, W[e, i, j] is nonzero exactly if edge e has an incoming relation from node i and an outgoing relation to another node j, and then holds the "
     "weight of the edge; a bidirectional edge is symmetric. Io[e, i] and Ii[e, j] are nonzero exactly for the incoming endpoints and the outgoing endpoints that take "
     "part in such a pair. Shapes are (edges, nodes, nodes) and (edges, nodes), indices are those of the index mapping, and a new execution starts from the current graph only.",
     ["inputs", "histories"], "all containers with up to 4 nodes and 3 edges over all direction assignments and uniform weights per edge, including isolated nodes and one-sided edges; re-execution after mutation",
     "Tests compare a handful of fixed matrices on bidirectional and simple directed graphs.",
     [TR, HG], [("fill_tensors", TR), ("pairing of relations", HG)], ENUM,
     "Exhaustive over the bounded graph space against a tensor computed directly from the relations. Weights are uniform per edge (differing weights have no defined entry).")
prop("C16", "Degrees, Laplacians and entropies follow from the tensors",
     "The degree of a node is the sum of its incoming and outgoing incidences (their weights), halved if every incidence of the node is two-way; the degree matrix is its diagonal and the total degree its "
     "sum. The projected Laplacian is D minus the sum of the edge slices, the tensor Laplacian is the degree tensor minus W slice by slice, and the normalized Laplacian (two or more edges) and the entropies are the "
     "documented functions of them. They depend on the graph only, up to the numbering of nodes and edges, and reading them repeatedly in any order changes nothing.",
     ["inputs"], "the graphs of C15, and all permutations of node and edge creation order",
     "Tests compare the degree vector and a few entropies of named small graphs.",
     [TR], [("degree_matrix, calc_*", TR)], ENUM,
     "Values recomputed in exact arithmetic from the graph; relabelling checked over all permutations of the bounded graphs.")
prop("C17", "Factorization pairs exactly incoming with outgoing relations",
     "The graph factorization lists every incoming relation of every reachable edge exactly once together with all outgoing relations of that edge; the subset "
     "factorizations list exactly the pairs of an incoming and an outgoing relation of the same selected edge (or of the selected relations) whose endpoints are both selected (for edges), and whose "
     "endpoints differ unless self loops are requested. Order follows the selection, repeated execution gives the same result, and mapping them to a factor graph applies the mapping to each pair once.",
     ["inputs", "histories"], "all edges over up to 4 nodes with all direction assignments, all node / edge / relation selections in all orders, self-loop option, repeated execution",
     "Tests check the number of pairs on a few graphs.",
     [FO], [("Factorization2Operation, *SubsetOperation", FO)], ENUM,
     "Exhaustive over the bounded space of graphs and selections against a set-theoretic reference.")
prop("C18", "Encoded graphs decode to the same graph",
     "Decoding a full message gives a graph with the same context, nodes, edges, relations (endpoint, direction, edge, identifier, name) and value nodes with their values, contained in the same places, each kind in the same order, and an "
     "index mapping that assigns every identifier the same index. The coordinate lists in the message are exactly the entries of the weights and incidences of the graph, and encoding again after "
     "changes, or another context with the same encoder, describes exactly the state at that moment.",
     ["inputs", "histories"], "all flat contexts with up to 4 nodes, 3 edges and 3 values over all directions, endpoints and value types, root or contained contexts; all histories of mutate / encode / switch context up to a depth",
     "Tests encode one fixed graph once and compare names and counts.",
     [CB, CO], [("full_msg / create_graph", CB), ("node/edge/relation/value lists", CO)], ENUM + "; messages round-tripped through the real decoder",
     "Round trip over the bounded space. Messages carry flat contexts only (nodes, edges, values directly in the context), the format's own limit.")
prop("C19", "Value nodes hold exactly the last written values",
     "A value node returns exactly the values last written at each position by any of its write operations; its dimension, iteration, list of values and element access agree, values handed in or "
     "out are copies where a list is given at once, and relations see the values of their weight node as they are now. A value-update message brings every value node of the decoded graph to the values of the sender at the time of encoding, for any number and change of values, and touches nothing else.",
     ["histories"], "all sequences of element / whole writes, appends of dimension and update messages up to a depth, and all value vectors over a small domain",
     "Tests write one value and read it back; changes of length and messages sent after several changes are not covered.",
     [VN, CB, CO], [("update_values", VN), ("msg_value_update / from_msg_update_values", CB)], EXPL,
     "Reference list stepped alongside the real value nodes over all bounded histories.")
prop("C20", "Semantic elements carry exactly their attributes",
     "The semantic factory creates for every documented type name, in any spelling of case, underscores and surrounding blanks, an element of the matching kind, contained in the given parent, with exactly the given attributes "
     "(and the values if given), and refuses unknown types and empty attributes without changing the parent. Attributes added, replaced or removed later are visible at once, an absent attribute reads as None, and the attributes of different elements are independent even if they were created from the same dictionary.",
     ["inputs", "histories"], "all type names in all spellings, attribute dictionaries and parents of each kind; all sequences of attribute operations up to a depth on several elements",
     "Tests create a few semantic elements as part of a robot and never alter them.",
     [SF, CE, VN], [("generate_semantic_element", SF), ("attribute dictionary", VN)], EXPL,
     "Reference dictionary stepped alongside the real elements; all spellings enumerated.")
prop("C21", "The exported model has exactly the links and joints of the robot",
     "The exported description contains one model named after the entity and in it exactly one link per kinematic link and one joint per pair of parent and child connected by a joint edge, none for edges that are no joints; each joint has its name, type, axis and pose and the right parent and child link. "
     "A nested kinematic graph is exported once per joint that refers to it, its links and joints prefixed with the names of the joint edges on the way and its root link attached by the joint named `connect.`. Link poses are relative to the joint that attaches the link (none if only the world does), "
     "joint poses to the parent link, and exporting twice or after other exports gives the same document.",
     ["inputs"], "all kinematic trees and loops with up to 4 links and all joint types, axes, parent/child directions, orders of elements and a world anchor; links and joints in a referenced sub-robot",
     "Tests export nothing; the example conversion needs a parser that is not part of the repository.",
     [SD, KS], [("encode", SD), ("joint_base_element", KS)], ENUM,
     "All bounded kinematic graphs exported by the real code and the XML compared with the description computed from the graph.")
prop("C22", "Exported geometry, material, inertia and pose match the elements",
     "Every geometry of a visual or collision node of a link is exported once, as visual exactly if the node has a material, with the shape, dimensions and material of its own or with the shape it refers to. "
     "The mass is that of the link, the inertia that of the link's first geometry of its own (cylinder, sphere, ellipsoid by their standard formulas, unit otherwise), and poses of links and joints give translation and rotation in radians whatever unit they were given in.",
     ["inputs"], "all combinations of geometry kind, number of dimensions, material, reference, mass, rotation unit and several visuals/collisions per link over a small value domain",
     "Tests do not cover the physical formats at all.",
     [SG, IN, KS], [("encode_geometry_element", SG), ("calc_*_inertia", IN), ("extract_rigid_transformation_element", KS)], ENUM,
     "All combinations over the bounded value domain, numbers compared to the closed formulas.")
prop("C23", "Graph traversal emits exactly the connected pairs",
     "Starting at a container, the graph traversal reports for every relation of every reachable edge exactly the pairs with the opposite endpoints of the same edge - a tail (incoming side) first and a head (outgoing side) second - with the identification "
     "of the edge and the norm of the relation's weight (1 without a weight, nothing if the norm is 0); one-sided relations report only their side. Elements are expanded once, cycles included, through endpoints to the edges they contain, as long as the number of relations on the way stays below the depth limit.",
     ["inputs"], "all graphs with up to 4 nodes and 3 edges with nested containers, links to containers, all directions, weights and depth limits",
     "Tests count visited pairs on two graphs.",
     [HG, F + "hypergraph/norm/norm_functions.py"], [("_traverse / __fill_relations", HG)], ENUM,
     "All bounded graphs, emitted multiset compared with the reference pairs.")
prop("C24", "Analyses never alter the graph and repeat with the same result",
     "Traversals, searches, queries, index mappings, tensors, factorizations, encodings and exports leave every element of the graph exactly as it was - containment, order, names, identifiers, relations, "
     "ports, values, attributes and timestamps - and leave the lists handed to them as they were. Executing any of them again on an unchanged graph, in any order with the others, gives the same result.",
     ["inputs", "histories"], "all sequences up to length 3 of all analyses over a family of small graphs of all shapes",
     "Tests do not compare the graph before and after an analysis nor repeat one.",
     [HT, HG, SE, QE, HF, TR, FO, CO, CB, SD], [("analyses read through generators only", HT)], EXPL,
     "Deep snapshot of the complete object graph before and after each step of all bounded sequences of analyses.")
prop("C25", "Importing a CogniLang description gives exactly the described robot",
     "Importing a description written in the CogniLang grammar, in whatever layout (separators, white space, comments), creates for the entity and every kinematic graph, link, visual, collision, ambience, sensor and actuator exactly one node in the described "
     "container, under its name where it has one, and nothing else. Semantic elements carry what the text gives: masses, geometry kind and values, translations and rotations with their unit, joint types and axes; parameters are replaced by their values; "
     "a visual without a material is white, a pose without rotation has none. Each joint is one edge with exactly the described relations, directions and endpoints (world included). Every visual or collision that refers to another one is connected with exactly "
     "that one, however many refer to it. Importing again gives an equal robot and leaves the earlier ones as they are.",
     ["inputs", "histories"], "all descriptions over bounded menus of links, poses, parts, references, joints, nesting, ambiences, parameters, coinciding names and layouts; sequences of imports; the shipped descriptions",
     "The generated parser is not part of the repository and no test imports a description.",
     [CF, F + "format/mapping/cognilang_map_utility.py", "framework/cognitive/speclanguage/src/main/antlr4"], [("visitor overrides", CF), ("grammar", "framework/cognitive/speclanguage/src/main/antlr4")], ENUM,
     "Real importer over an interpreter of the repository's grammar files standing in for the generated parser; every description of the bounded menus is rendered, imported and compared with the plain data it was rendered from. One known finding (joint pose as weight).")
prop("C26", "The conversion tool writes the SDF of the described robot",
     "Running the conversion tool on a CogniLang file writes, into the output directory and under the entity's name, a well-formed SDF document with one model whose links, poses, inertias, visuals, collisions, materials and joints are those of the text, "
     "including referenced geometry and referenced kinematic graphs, and the load script; nothing else is written, converting again gives the same document, and earlier results of other robots stay.",
     ["inputs", "histories"], "the robots of C21 and C22 that can be written in the language, menus of parts with and without names, materials and references, and sequences of runs of the tool",
     "No test runs the tool: the generated parser is missing. The way from text to document crosses importer, queries and exporter, each of which is right only with the others.",
     [CF, SD, "framework_python/apps/simulation/convert_cognilang_sdf.py", QE], [("main", "framework_python/apps/simulation/convert_cognilang_sdf.py"), ("visitor overrides", CF), ("exporter", SD)], ENUM,
     "The tool's own main() in a scratch directory, over an interpreter of the grammar; written files are parsed and compared with the document computed from the plain description.")

prop("C27", "The printed hierarchy shows exactly the graph",
     "Printing the hierarchy of an element writes one line for each node, edge and relation at or below it, level by level in child order, and nothing for other elements: kind, qualified name and name, for an edge the number of its children, "
     "and the container it lies in if there is one; for a relation its direction (`->` outwards, `<-` inwards, `--` both ways), its endpoint and its weight. It works from any element and in every state, and changes nothing.",
     ["inputs", "histories"], "all trees of up to 4 (5) elements of every kind from every start, all edges of up to 3 relations, and all states after bounded histories",
     "The tests only call it; what it prints is compared with nothing.",
     [HT], [("print_graph_hierarchy, print_element", HT)], ENUM,
     "The real function with its output captured, on every tree, edge and history of the bounds; lines computed from the containment.")


def build():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"] or ["public API of the classes in the anchored files"], "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for p in P:
        have = os.path.exists(os.path.join(V, "mc", p["pid"].lower() + ".py"))
        if p["na"] or not have:
            na.append({"property": p["pid"], "reason": p["na"] or "no check built yet"})
            continue
        checks.append({"property": p["pid"], "quick_cmd": f"bash check.sh {p['pid']} quick",
                       "thorough_cmd": f"bash check.sh {p['pid']} thorough",
                       "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks: the checks drive the unmodified code in /repo/framework_python through its public API. Commits in /repo are repairs only (fix:)."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    build()
