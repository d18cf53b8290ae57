#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the properties are worded)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

ACC, POL, RAM, BP, ST, SHA = ("src/accumulator.cpp", "src/pollard.cpp", "src/ram_forest.cpp", "src/batchproof.cpp", "src/state.cpp", "src/crypto/sha512.cpp")

p("C01", "A forest's roots, leaves and order are the function of its history of blocks",
  "After any sequence of blocks (each deletes a set of leaves and then appends new ones) a full forest holds exactly the appended and not deleted leaves, in the order the utreexo swap rule prescribes (deleted leaves move to the end of their tree row by row, then are cut off), and its roots and leaf count are those of the perfect binary trees over that leaf sequence (tallest first, SHA-512/256 of left||right). "
  "The result depends on nothing else: neither on which Modify overload is used nor on whether a block's additions and deletions are applied in one call or in several consecutive ones that describe the same steps.",
  ["histories", "inputs"], "All histories of blocks over any number of leaves, any sorted distinct set of leaf positions deleted per block, any number of additions including none.",
  "The tests delete a handful of fixed position sets from forests of at most 32 leaves and mostly compare the library with itself (forest against pollard); which leaves have to move depends on the whole combination of deletion set and tree shapes.",
  [ACC, RAM, ST],
  [("Accumulator::Add / Remove", ACC), ("RamForest::SwapSubTrees, MergeRoot, FinalizeRemove", RAM), ("ForestState::Transform", ST)],
  [("m_data", "hashes of every row", "include/ram_forest.h"), ("m_roots", "root nodes", "include/accumulator.h")], ["RamForest::Roots", "RamForest::NumLeaves", "RamForest::GetLeaf"])

p("C02", "A pruned accumulator follows the full forest through every block",
  "A pollard that verifies the proof of the leaves a block deletes and then applies the block has, after every block of every history, exactly the roots and leaf count of the full forest, whatever leaves it remembers, verified before, pruned, or was started from (a list of roots). "
  "Applying a block never fails or crashes for a client that follows this protocol.",
  ["histories", "configurations"], "All histories, all choices of leaves to remember, extra verifications, prunings and restarts from roots.",
  "The tests run a few fixed scenarios and one loop that remembers every leaf or none; what a pollard holds, and therefore which code path a deletion takes, depends on everything it has cached and pruned before.",
  [POL, ACC, ST],
  [("Pollard::SwapSubTrees / MergeRoot / FinalizeRemove", POL), ("Pollard::ReadSiblings", POL), ("Accumulator::Remove", ACC)],
  [("m_roots, m_nieces", "pruned trees in niece layout", POL)], ["Pollard::Roots", "Pollard::NumLeaves"])

p("C03", "Every honest proof is accepted, in any target order and without known hashes",
  "For any set of leaves present in the accumulator, a proof with their positions and the hashes of the minimal set of siblings is accepted by every pollard at the same state, whatever it has cached, whether the prover's targets are sorted or not, and as often as it is presented. "
  "The proof is also accepted when it leaves out hashes of nodes the pollard already holds as part of the proof of a leaf it remembers (unless two hashes of the full proof are equal, when the encoding cannot tell which one is missing), and a rejected or accepted proof never makes a later honest one fail.",
  ["histories", "inputs", "configurations"], "All leaf sets, all cache contents, all target orders, all omissions of hashes the pollard holds.",
  "The tests verify a few proofs of fixed leaves against pollards that are empty or full; partial proofs are tried with one fixed omission.",
  [POL, BP, ST, ACC],
  [("Pollard::CreateProofTree (recovery of omitted hashes)", POL), ("Pollard::VerifyProofTree", POL), ("BatchProof::CheckSanity", BP), ("ForestState::ProofPositions", ST)],
  [], ["Pollard::Verify"])

p("C04", "No false claim is ever accepted",
  "If a pollard accepts a proof for a list of target hashes, then each of those hashes really is the leaf at the claimed position in the accumulator's current state, with as many hashes claimed as positions, all positions distinct leaf positions, and every proof hash the true one for its place. "
  "This holds for every byte-wise possible proof - altered, reordered, truncated, padded, stale, or naming inner nodes as leaves - and whatever the pollard has cached before; verification never changes the roots.",
  ["inputs", "histories", "configurations"], "All claims (positions, claimed hashes, proof hashes), all pollard states reachable by honest histories and by earlier rejected claims. Collisions of SHA-512/256 aside.",
  "The tests try two or three wrong hashes on fixed trees; soundness quantifies over all wrong proofs combined with all caches, and the cached branches are what a proof is matched against.",
  [POL, BP, ST],
  [("Pollard::VerifyProofTree (recompute and compare with cached hashes)", POL), ("Pollard::Node::ReHashAndVerify", POL), ("BatchProof::CheckSanity", BP), ("ForestState::CheckTargetsSanity", ST)],
  [], ["Pollard::Verify"])

p("C05", "A rejected proof leaves no trace",
  "When verification rejects a proof, the pollard is in every observable respect as before: roots, leaf count, number of remembered leaves, nodes held, which leaves it can prove and with what proofs. "
  "All later verifications, blocks and proofs then go exactly as for a pollard that never saw the rejected proof.",
  ["inputs", "histories", "fault_sequences"], "All rejected claims at all points of all histories.",
  "The tests check only that a bad proof is refused, never what it left behind; the effects show up in later blocks.",
  [POL], [("Pollard::CreateProofTree recovery list, undone on failure", POL), ("Pollard::Verify", POL)],
  [("m_nieces", "cached hashes, populated while a proof is checked", POL), ("m_posmap, m_remember", "leaves marked as remembered", POL)],
  ["Pollard::Roots", "Pollard::NumCachedLeaves", "Pollard::CountNodes", "Pollard::Prove"])

p("C06", "Remembered leaves stay provable at the right positions until they are deleted",
  "Every leaf a pollard was told to remember (added with the remember flag, or verified successfully) and which is neither deleted nor pruned since can be proved by the pollard after any number of further blocks, alone and in any set and order with others, with exactly the targets and hashes a full forest would give. "
  "For any other leaf no proof is offered, and the number of remembered leaves it reports is their number.",
  ["histories", "configurations"], "All histories with moving, merging and disappearing trees, all sets of remembered leaves, all requests.",
  "The tests look at one or two remembered leaves after one fixed modification; each deletion moves subtrees around the remembered branches, and what is kept or dropped depends on the neighbouring leaves.",
  [POL, ACC, ST],
  [("Pollard::SwapSubTrees + UpdatePositionMapForSubtreeSwap", POL), ("Pollard::Node::ReHash (prune what no remembered leaf needs)", POL), ("Accumulator::Prove", ACC), ("Pollard::FinalizeRemove", POL)],
  [("m_posmap", "positions of remembered leaves", "include/accumulator.h"), ("m_remember", "shared marker counting remembered leaves", "include/pollard.h")],
  ["Pollard::Prove", "Pollard::NumCachedLeaves", "Accumulator::ComparePositionMap"])

p("C07", "A pollard holds only the branches of remembered leaves; pruning leaves the roots",
  "At every point of every history the nodes a pollard holds are at most its roots and the paths and siblings of the leaves it remembers, so its memory is bounded by roots plus proofs and not by history, verified-and-rejected proofs or forest size. "
  "After Prune it holds exactly its roots: no leaf is remembered or provable, while roots and leaf count are unchanged and it goes on following blocks.",
  ["histories", "configurations"], "All histories with remembering, verifying, rejecting, deleting and pruning.",
  "No test counts nodes after deletions; a leftover branch is invisible to root comparison.",
  [POL], [("Pollard::Node::ReHash / InternalNode::Prune, DeadEnd", POL), ("Pollard::Prune", POL), ("Pollard::FinalizeRemove", POL)],
  [("m_nieces", "branches held", POL)], ["Pollard::CountNodes", "Pollard::NumCachedLeaves", "Pollard::Prove"])

p("C08", "A forest proves exactly its leaves, in request order, with minimal hashes",
  "Asked to prove a list of hashes, a forest succeeds if and only if they are distinct leaves it currently contains; the proof then lists their positions in the order of the request, and exactly the sibling hashes that cannot be computed from the targets, in ascending position order. "
  "It refuses unknown, deleted and repeated hashes, does not confirm (Verify) a list with a hash it does not contain, and proving changes nothing.",
  ["inputs", "histories"], "All states of a forest, all lists of hashes.",
  "The tests prove a few fixed sets without deletions in between and never compare the hashes with an independent computation.",
  [ACC, RAM, ST],
  [("Accumulator::Prove", ACC), ("ForestState::ProofPositions", ST), ("UpdatePositionMapForSubtreeSwap / ForRange", ACC), ("RamForest::Read", RAM)],
  [("m_posmap", "leaf hash to position", "include/accumulator.h")], ["RamForest::Prove", "BatchProof accessors"])

p("C09", "Undo reverses a block exactly, at any depth",
  "Applying the undo record of the latest block returns the forest to the state before that block: the same leaves at the same positions, the same roots and count, the same proofs, equal to a forest that never saw the block. "
  "This holds for any number of blocks undone in reverse order, for undo records that went through serialization, for forests saved and reopened in between, and the forest continues normally on any new block afterwards.",
  ["histories", "inputs"], "All histories, all depths of undoing, all alternations of blocks and undos.",
  "The tests undo one or two fixed blocks and compare roots; a wrong swap order shows only for particular combinations of deletions, additions and tree shapes.",
  [RAM, ST, BP],
  [("RamForest::Undo / BuildUndoBatch", RAM), ("ForestState::UndoTransform", ST), ("UndoBatch::Serialize / Unserialize", BP)],
  [("UndoBatch", "number of additions, deleted positions and hashes", "include/batchproof.h")], ["RamForest::Undo", "RamForest::operator==", "RamForest::GetLeaf", "RamForest::Prove"])

p("C10", "A saved forest is restored exactly, and survives any crash after a commit",
  "A forest written by Commit (or by its destructor) and opened again from its file has the same leaves, positions, roots, count and proofs and goes on with blocks and undos as if it had never been closed; this also holds after the forest shrank, and for files with left-over bytes behind the forest. "
  "When Commit has returned success, the file already holds the complete forest - a process that dies at any later point before the next commit loses nothing of it, and a forest made on a new file is there as an empty one - in the documented layout (big-endian leaf count, then each row's hashes from the leaves up).",
  ["histories", "crash_points"], "All histories with commits, reopenings and abrupt ends at any point after a commit.",
  "One test writes one forest and reads it back after a clean close; shrunk forests, repeated cycles and the state of the file before the close are never looked at.",
  [RAM], [("RamForest::Commit / Restore / RestoreRoots", RAM), ("RamForest::~RamForest", RAM)],
  [("m_file", "the forest's file", "include/ram_forest.h")], ["RamForest(file)", "RamForest::Commit", "the file's bytes"])

p("C11", "Batch proofs survive the wire: exact round trip, malformed bytes refused",
  "Encoding any batch proof (positions below 2^32) gives the documented layout - two big-endian 32-bit counts, 32-bit positions, 32-byte hashes - and decoding it gives an equal proof with the same target order and the correct sorted targets, also into an object that was used before. "
  "A byte string is accepted exactly when its length is what its counts say, whatever the counts, and a refused one leaves the proof it was to be read into unchanged; equal proofs compare equal and different ones do not.",
  ["inputs", "histories"], "All proofs in the 32-bit wire range, all byte strings, all reuse of objects.",
  "One test round-trips a single proof from an empty object; counts at the limits of the arithmetic and reused objects are not tried.",
  [BP], [("BatchProof::Serialize / Unserialize", BP), ("BatchProof::operator==", BP)], [], ["BatchProof::Serialize", "BatchProof::Unserialize", "BatchProof accessors"])

p("C12", "Undo records survive the wire: exact round trip, malformed bytes refused",
  "Encoding any undo record (number of additions and positions below 2^32) gives the documented layout and decoding it gives an equal record, also into an object that was used before. "
  "A byte string is accepted exactly when its length is what its counts say, whatever the counts, and a refused one leaves the record it was to be read into unchanged; a default-constructed record is the empty one. Equal records compare equal and different ones do not.",
  ["inputs", "histories"], "All records in the 32-bit wire range, all byte strings, all reuse of objects.",
  "One test round-trips a single record; sizes that overflow 32-bit arithmetic and reused objects are not tried.",
  [BP], [("UndoBatch::Serialize / Unserialize", BP), ("UndoBatch::operator==", BP)], [], ["UndoBatch::Serialize", "UndoBatch::Unserialize", "UndoBatch accessors"])

p("C13", "An invalid block is refused as a whole",
  "A block whose deletions are not strictly ascending positions of existing leaves (unsorted, repeated, beyond the last leaf, more than there are leaves, inner nodes, deletions from an empty accumulator) makes Modify return false for a forest and for a pollard, and nothing of it takes effect: not its additions, not its valid deletions, and no undo record is written for it. "
  "Later valid blocks work as if it had never been tried.",
  ["inputs", "histories", "fault_sequences"], "All invalid deletion lists including 64-bit values, at all points of all histories.",
  "The tests try two invalid lists on one tree and look only at the return value.",
  [ACC, ST, RAM], [("Accumulator::Remove / Modify", ACC), ("ForestState::CheckTargetsSanity", ST), ("RamForest::Modify", RAM)], [], ["Modify", "Roots", "NumLeaves", "Prove"])

p("C14", "Position arithmetic is right for forests of every size",
  "For every number of leaves up to 2^62, the position functions (rows, roots, row of a position, parent, ancestor, children, descendants, siblings, cousins, path to a root, positions needed to prove a set of leaves, validity of a deletion list) agree with the definition: row r of a forest with R rows starts at 2^(R+1) - 2^(R+1-r), and a node's children are nodes 2i and 2i+1 of the row below.",
  ["inputs"], "All leaf counts up to 2^62, all positions, rows and leaf sets in the forest.",
  "The tests use a few forests of 6 to 32 leaves; shifts that are too narrow or off by one show only at other sizes.",
  [ST], [("ForestState", ST), ("helpers _parent, _child, _rowOffset, _maxNodes", ST)], [], ["ForestState's public functions (used by every accumulator)"])

p("C15", "Light clients of huge forests verify, prove and update correctly",
  "A pollard started from the roots of a forest of any size up to 2^60 leaves accepts honest proofs of any of its leaves and rejects altered ones, proves the leaves it remembers with the right positions and hashes, and computes the right roots for blocks that delete verified leaves and add new ones.",
  ["inputs", "configurations"], "All leaf counts up to 2^60, all small sets of leaves anywhere in the forest. Deletions that move subtrees of more than 2^18 leaves are left out: their cost, not their result, is proportional to the subtree.",
  "Forests of this size cannot be built, so tests stay below 2^16 leaves; 32-bit truncations or wrong row arithmetic are invisible there.",
  [POL, ACC, ST], [("Pollard::Pollard(roots, num_leaves)", POL), ("Pollard::Verify / ReadSiblings", POL), ("ForestState", ST)], [], ["Pollard::Verify", "Pollard::Prove", "Pollard::Modify", "Pollard::Roots"])

p("C16", "Hashing is SHA-512/256 (and SHA-512) for every message and chunking",
  "The hash object gives the FIPS 180-4 SHA-512 and SHA-512/256 digest of every message, however the message is cut into writes and however long it is, also after a reset and in copies of an object; parents in the accumulator are SHA-512/256 of the left hash followed by the right hash.",
  ["inputs"], "All messages, all ways to cut them, all node pairs. Resetting an object makes it a SHA-512 object.",
  "No test compares with a published digest beyond one or two, and none cuts messages around block boundaries; a wrong but consistent hash passes every self-comparison.",
  [SHA, ACC], [("CSHA512::Write / Finalize / Finalize256 / Reset", SHA), ("Accumulator::ParentHash", ACC)], [], ["CSHA512", "Roots of two-leaf accumulators"])

p("C17", "Bytes from a peer never crash, hang or corrupt a client",
  "Whatever byte string or proof a peer sends - any counts, any 64-bit positions, any order or repetition, too few or too many hashes - decoding, sanity checking and verifying it end without crash, undefined behaviour, runaway memory or endless loop, and anything malformed is rejected. "
  "Afterwards the client still follows honest blocks.",
  ["inputs", "fault_sequences"], "All byte strings and all proofs, in all states of a pollard.",
  "Inputs of the tests are all well-formed except a few; crashes need particular malformed positions on particular tree shapes.",
  [BP, POL, ST], [("BatchProof::Unserialize / CheckSanity", BP), ("Pollard::CreateProofTree", POL), ("ForestState::CheckTargetsSanity", ST)], [], ["BatchProof::Unserialize", "BatchProof::CheckSanity", "Pollard::Verify"])

p("C18", "Comparisons tell equal from different contents",
  "Two forests compare equal exactly when they hold the same leaves at the same positions, however they got there; comparing position maps succeeds exactly when every leaf the first accumulator keeps track of is known to the second at the same position. "
  "Comparing never changes or crashes anything.",
  ["inputs", "histories"], "All pairs of reachable forests and pollards.",
  "The tests use the comparisons as oracles on equal pairs and hardly ever on nearly equal ones.",
  [RAM, ACC, BP], [("RamForest::operator==", RAM), ("Accumulator::ComparePositionMap", ACC), ("BatchProof / UndoBatch operator==", BP)], [], ["RamForest::operator==", "Accumulator::ComparePositionMap"])

p("C19", "A bridge and its clients agree over any chain with reorganisations",
  "A bridge node (forest) that serves serialized proofs for every block, and clients (pollards) that know only those bytes, agree on roots and leaf counts after every block of every chain, including reorganisations in which the bridge undoes blocks from serialized undo records and clients restart from the roots at the fork; every proof served is accepted. "
  "Proofs a client makes for the leaves it remembers are accepted by other clients.",
  ["histories", "schedules"], "All chains, all fork points and depths, all client caches, bridge in memory or in a file that is reopened.",
  "No test combines forest, wire, undo and pollards; errors that need a block after a reorganisation are out of reach.",
  [RAM, POL, BP, ACC], [("RamForest::Prove / Modify / Undo", RAM), ("BatchProof::Serialize / Unserialize", BP), ("Pollard::Verify / Modify", POL)], [], ["roots and counts of all parties after every block"])

p("C20", "Failed saves are reported and incomplete files are refused",
  "If Commit cannot write the whole forest (the file cannot grow), it reports failure, the forest in memory is unharmed and a later commit succeeds once the file can grow again, also for a forest made when not even an empty one could be written. "
  "Opening a file that holds fewer bytes than its leaf count requires - cut off at any byte, or with a raised count - is refused with an exception instead of yielding a forest with missing or invented leaves; so is a file that can be neither opened nor made, which stays as it was. A complete file always opens.",
  ["crash_points", "fault_sequences", "inputs"], "All sizes at which writing stops, all truncation points and forests.",
  "No test makes a write or an open fail or shortens a file.",
  [RAM], [("RamForest::Commit", RAM), ("RamForest::Restore", RAM)], [], ["RamForest::Commit", "RamForest(file)"])

p("C21", "Deletion moves and their undoing are right for forests of every size",
  "For a forest of any size up to 2^62 leaves and any set of leaves to delete, the plan of subtree moves brings every surviving leaf to exactly the position the swap rule gives it in the smaller forest and every deleted leaf behind the last survivor; the plan for undoing the deletion brings every leaf back to where it was.",
  ["inputs"], "All leaf counts up to 2^62, all sets of leaves to delete (large forests: sparse or clustered sets).",
  "The tests compare plans for forests of at most 15 leaves with written-down lists; how moves of different rows, collapsing pairs and roots combine depends on the whole set and on the size.",
  [ST], [("ForestState::Transform", ST), ("ForestState::UndoTransform / UndoSwap", ST), ("ForestState::SwapRange", ST)], [], ["ForestState::Transform", "ForestState::UndoTransform", "leaf order after Modify and Undo"])

p("C22", "Memory is given back: no history makes an accumulator grow without bound",
  "What a forest or pollard keeps allocated is bounded by what it holds. A whole life of an accumulator (any history from construction to destruction) leaves nothing allocated behind; steps that end where they began (a block and its undo, a rejected claim, a proof request, verifying the same proof again, verify and prune) can be repeated forever without holding more and more memory; "
  "and through any number of verifications, deletions and additions a pollard holds memory in proportion to its roots, the leaves it remembers and their branches (and an index as large as the most leaves it knew at once).",
  ["histories"], "All histories, all steps that return to the same state, any number of repetitions.",
  "Tests end after a few steps and look at no memory; a cycle of shared pointers or an index entry never erased costs nothing visible until a node has run for weeks.",
  [POL, ACC, RAM], [("Pollard::InternalNode (shared pointers to nieces and sibling), FinalizeRemove, Prune", POL), ("Accumulator::m_posmap, UpdatePositionMapFor*", ACC), ("RamForest::FinalizeRemove / Undo", RAM)],
  [("m_posmap", "positions of known leaves", "include/accumulator.h"), ("m_nieces", "shared pointers between nodes", POL)], ["allocated bytes before and after calls"])

p("C23", "Objects share no hidden state, in one thread or in several",
  "Every accumulator, proof and hash object depends only on the calls made on it. Several of them used in any interleaving in one thread, or at the same time in different threads (each object by one thread at a time), behave exactly as each would alone, also when they are given the same inputs. "
  "Const queries (Prove, Roots, NumLeaves, GetLeaf, counts, serializing and sanity-checking a proof) to an object that nobody modifies can be put by several threads at once, give the answers they give alone, and involve no data race.",
  ["schedules", "histories", "configurations"], "All interleavings and schedules of any number of accumulators, proofs and hash objects.",
  "The tests are single-threaded and use accumulators one after the other or in lock step; a static buffer or a cache filled by a const query is right until two users meet.",
  [ACC, POL, RAM, SHA, ST], [("Accumulator::ParentHash", ACC), ("CSHA512", SHA), ("Accumulator::Prove, Roots (const)", ACC), ("ForestState (built per call)", ST)], [], ["return values and states of all objects", "data races"])

p("C24", "Every build of the library gives the same answers, and none aborts",
  "The same sequence of calls (blocks, also invalid ones, on forests and pollards; verification of honest, partial, stale and forged proofs; proving, undoing, saving and reopening, pruning, starting from roots, decoding any bytes, comparing, digests) gets byte for byte the same answers from every build of the library: "
  "the release build and the one with the library's own consistency checks (-DUTREEXO_VERIFY, the one the tests use), any optimisation level, with and without assertions (NDEBUG), gcc and clang, signed and unsigned char. "
  "The consistency checks and assertions only observe: they hold in every state that use of the library within its documented preconditions can reach, so no build aborts where another one answers.",
  ["configurations", "histories", "inputs"], "All call sequences within the preconditions, in every supported build configuration.",
  "The test binary is linked with the -DUTREEXO_VERIFY build only and the library that users install is compiled without it; a statement needed for its effect inside a check, a check that is too strict for rare states, or an order of evaluation that compilers choose differently shows only in the other build.",
  [ACC, POL, RAM, ST, BP, SHA], [("CHECK_SAFE", "src/check.h"), ("libutreexo_la, libutreexo_verify_la", "Makefile.am"), ("assert()", RAM), ("ReadBE/WriteBE", "src/crypto/common.h")], [], ["return values and states, per build", "termination of the process"])

p("C25", "What the library prints is what its objects hold, and printing changes nothing",
  "PrintRoots writes the current roots, tallest first, each with its hash (all 64 hex digits) and the position it has in the forest's current numbering; PrintPositionMap writes every leaf the accumulator knows exactly once with its hash and current position, and nothing else; "
  "BatchProof::Print writes the targets in request order and then the proof hashes, UndoBatch::Print the number of additions, the deleted positions and their hashes. This holds after every history of blocks, undone blocks, restarts, verifications and prunings, for forests of every size, and for any contents of proofs and records. "
  "Printing leaves the objects and the settings of std::cout as they were.",
  ["histories", "inputs"], "All histories of forests and pollards up to 2^62 leaves; all proofs and undo records, 64-bit positions included.",
  "No test looks at the output; positions of roots are kept beside the tree and have to be renumbered whenever a block changes the number of rows, which depends on the history.",
  [ACC, BP, POL, RAM, ST], [("Accumulator::PrintRoots, PrintPositionMap", ACC), ("BatchProof::Print, UndoBatch::Print, HexStr", BP), ("FinalizeRemove (new roots)", POL), ("print_vector", ST)],
  [("m_roots", "root nodes with their positions", "include/accumulator.h"), ("m_posmap", "positions of known leaves", "include/accumulator.h")], ["std::cout"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
