T_SIM = "runtime monitoring: seeded multi-replica executions of the real code with adversarial delivery, judged by an independent trace oracle"
N_SIM = "Exploration: holds on every execution generated; no claim beyond them. Trusts the harness model of causal history and the cryptographic primitives."

prop("C01", "Replicas with the same operations agree on members and group key",
     "Any replicas of a document's key-agreement group that have received the same operations, each in some order that respects causality, have the same members, and after any member rotates its key exactly the current members derive the same new group key. Concurrent adds, removes, re-adds and rotations, restarts and fork-and-merge never make a replica refuse an operation whose predecessors it has. The operations a replica exports are complete, in causal order, the same on every such replica, and rebuild the same state.",
     ["schedules", "histories"],
     "Every causal history of adds, removes, re-adds and key rotations by any number of members, and every causal delivery order, duplication, restart point and fork/merge point at every replica.",
     "Unit tests merge a few fixed histories of two or three replicas in one order; the conflicts that matter arise from combinations of concurrent adds, removes and rotations on shared tree paths and from the order of their delivery.",
     ["beekem/src/cgka.rs", "beekem/src/tree.rs", "beekem/src/operation.rs", "beekem/src/treemath.rs", "beekem/src/secret_store.rs", "beekem/src/keys.rs"],
     [("deterministic replay of concurrent operations by epoch", "beekem/src/cgka.rs: apply_epochs, replay_ops_graph"),
      ("leaf sorting and path blanking for concurrent membership changes", "beekem/src/tree.rs: sort_leaves_and_blank_paths_for_concurrent_membership_changes"),
      ("causal topological order of operations", "beekem/src/operation.rs: topsort_for_heads")],
     [("tree", "leaves and encrypted path secrets", "beekem/src/tree.rs: BeeKem"), ("ops graph", "all operations with their predecessors and heads", "beekem/src/operation.rs: CgkaOperationGraph")],
     ["group size", "derived group key", "exported operations"],
     technique=T_SIM, note=N_SIM)

prop("C02", "Removed members cannot compute later group keys",
     "Once a member's removal is in the history a key rotation builds on, no key made by that rotation can be computed from everything the removed member holds (all secrets it ever had) together with all public operations. The same holds for a key made by an update in whose history the reader had not yet been added. This holds for concurrent removals, adds and rotations in any delivery order.",
     ["schedules", "histories"],
     "Every causal history and delivery order, every removed or not-yet-added member, every later key; the adversary holds all its own secrets and every published operation.",
     "Tests at most assert that the removed member's own replica returns an error; whether its secrets decrypt a later path depends on which tree nodes were blanked and re-encrypted after concurrent changes.",
     ["beekem/src/tree.rs", "beekem/src/cgka.rs", "beekem/src/secret_store.rs"],
     [("blanking the removed leaf's path", "beekem/src/tree.rs: remove_id, blank_leaf_and_path"),
      ("blanking after concurrent membership changes", "beekem/src/tree.rs: sort_leaves_and_blank_paths_for_concurrent_membership_changes"),
      ("fresh path secrets encrypted to the sibling resolution", "beekem/src/tree.rs: encrypt_path")],
     observe=["every published path secret", "owner secrets of each replica"],
     technique="runtime monitoring: seeded multi-replica executions; an attacker monitor decrypts the transitive closure of all published path secrets with the removed member's keys",
     note=N_SIM + " The attacker is symbolic only in that it tries every recorded key on every published ciphertext; it does no cryptanalysis.")

prop("C03", "Members can always read what was encrypted while they were members",
     "Content encrypted under a group key can be decrypted, to exactly the original bytes, by every replica whose owner was a member in the causal history of that key, however many adds, removes, re-adds and rotations have been merged since, after restarts and merges, and even if it has itself been removed since. Replicas whose owner was not a member in that history cannot decrypt it.",
     ["schedules", "histories"],
     "Every causal history, every epoch in it, every later state of every replica.",
     "Tests decrypt in the epoch of encryption or one later; recovering an old key rebuilds the tree for an arbitrary earlier causal cut.",
     ["beekem/src/cgka.rs", "beekem/src/operation.rs", "beekem/src/pcs_key.rs", "beekem/src/encrypted.rs"],
     [("key recovery by rebuilding the tree at an update's history", "beekem/src/cgka.rs: pcs_key_from_hashes, derive_pcs_key_for_op, rebuild_pcs_key"),
      ("application secret derivation", "beekem/src/pcs_key.rs: derive_application_secret")],
     [("pcs_keys", "cache of keys by hash", "beekem/src/cgka.rs")],
     ["decryption results at every replica"],
     technique=T_SIM, note=N_SIM)

prop("C04", "Membership does not depend on the order in which operations arrive",
     "Replicas that have received the same delegations, revocations, prekeys and key-agreement operations, in any order, batching and duplication, hold the same direct members with the same delegations, the same transitive members and access levels, the same revoked members and the same key-agreement group for every group and document. Once a replica has all of them it holds none back. This covers groups and documents nested in each other and operations issued concurrently by any members.",
     ["schedules", "histories"],
     "Every set of operations produced by any interleaving of member actions on any number of replicas, and every order, batching and duplication of its delivery at each.",
     "Unit tests deliver a handful of operations in one order; disagreement comes from conflicting concurrent revocations, delegations that depend on revoked ones, and operations that arrive before what they depend on.",
     ["keyhive_core/src/principal/group.rs", "keyhive_core/src/principal/group/state.rs", "keyhive_core/src/principal/group/membership_operation.rs", "keyhive_core/src/principal/document.rs", "keyhive_core/src/principal/membered.rs", "keyhive_core/src/keyhive.rs"],
     [("rebuild of membership from all operations", "keyhive_core/src/principal/group.rs: rebuild"),
      ("order of operations", "keyhive_core/src/principal/group/membership_operation.rs: reverse_topsort"),
      ("ingestion with unmet dependencies held back", "keyhive_core/src/keyhive.rs: ingest_unsorted_static_events")],
     [("members", "delegations in force per member", "keyhive_core/src/principal/group.rs: Group.members"), ("pending events", "events waiting for dependencies", "keyhive_core/src/keyhive.rs: pending_events")],
     ["members", "transitive members", "revoked members", "key-agreement group", "pending events"],
     technique=T_SIM,
     note=N_SIM + " Histories in which somebody acts through a group that loses members are generated but not judged here (recorded finding).")

prop("C05", "Nobody gains access beyond what was delegated to them",
     "A delegation or revocation takes effect only if it is correctly signed and its issuer held, by an unbroken chain of delegations from the group or document itself, at least the access it grants or takes away. An operation that lacks such authority changes nothing a replica reports, on any replica that receives it, in any order, and neither do the operations that build on it. Operations by honest members keep their effect when such operations are around.",
     ["inputs", "histories"],
     "Every honest history, every operation an attacker with any set of signing keys, delegations and knowledge of all public operations can sign or tamper with, and every arrival order.",
     "Tests reject one or two malformed operations; escalation needs particular combinations of proof, delegate, access level, target and signer.",
     ["keyhive_core/src/principal/group.rs", "keyhive_core/src/principal/group/delegation.rs", "keyhive_core/src/principal/group/revocation.rs", "keyhive_core/src/keyhive.rs", "keyhive_crypto/src/signed.rs"],
     [("delegation check", "keyhive_core/src/principal/group.rs: receive_delegation, add_delegation"),
      ("revocation check", "keyhive_core/src/principal/group.rs: receive_revocation, add_revocation"),
      ("signature check", "keyhive_crypto/src/signed.rs: try_verify")],
     [("members", "delegations in force per member", "keyhive_core/src/principal/group.rs: Group.members")],
     ["members, transitive members and revoked members on every replica after forged operations"],
     technique="runtime monitoring: forged operations injected into seeded multi-replica executions, judged by an independent model of which operations their issuers had the authority to make",
     note=N_SIM)

prop("C06", "A revocation ends what it revokes, and what was delegated from it",
     "After a member is revoked, every replica that has the revocation reports as members exactly those whose delegations still trace back to the group or document through delegations in force: the revoked one is gone, and so is everything only it had delegated, unless it was re-issued. Re-adding a revoked member restores exactly the new delegation, revoking an older delegation does not touch it, and concurrent delegations and revocations take effect accordingly. Revoking a member and asking to retain all others leaves each other member the access it had.",
     ["histories"],
     "Every history of delegations, revocations, re-delegations and re-additions by several members of one group or document, concurrent or not.",
     "Tests revoke one member in short fixed chains; cascades, re-additions and mutual revocations interact.",
     ["keyhive_core/src/principal/group.rs", "keyhive_core/src/principal/document.rs", "keyhive_core/src/principal/group/state.rs"],
     [("cascade", "keyhive_core/src/principal/group.rs: rebuild, revoke_member"),
      ("re-adding after revocation", "keyhive_core/src/principal/group.rs: add_member_with_manual_content")],
     [("active revocations", "revocations in force", "keyhive_core/src/principal/group.rs: Group.active_revocations")],
     ["members", "capabilities", "revoked members"],
     technique=T_SIM.replace("an independent trace oracle", "an independent least-fixpoint model of the operations"), note=N_SIM)

prop("C07", "Transitive access is the widest chain, and every query agrees on it",
     "An agent's access to a group or document is the greatest, over all chains of memberships that lead to it, of the least access along the chain, whatever the shape of the membership graph, cycles included. Asking by group, by document, by agent or for oneself gives the same answer, and every query ends.",
     ["histories", "inputs"],
     "Every graph of groups, documents and individuals as members of each other with any access levels and revocations, and every query.",
     "Tests use small acyclic graphs with one path per member; wrong answers need several paths, cycles or mixed levels.",
     ["keyhive_core/src/principal/group.rs", "keyhive_core/src/principal/membered.rs", "keyhive_core/src/principal/document.rs", "keyhive_core/src/keyhive.rs"],
     [("walk over member groups", "keyhive_core/src/principal/group.rs: transitive_members"),
      ("what an agent can reach", "keyhive_core/src/keyhive.rs: membered_reachable_by_agent, docs_reachable_by_agent, reachable_docs, reachable_members")],
     [],
     ["transitive_members", "reachable_members", "membered_reachable_by_agent", "docs_reachable_by_agent", "reachable_docs"],
     technique=T_SIM.replace("an independent trace oracle", "an independent widest-path model of the membership graph"), note=N_SIM)

prop("C10", "What a replica offers an agent is complete, closed and scoped",
     "A new device that has only its owner's keys and ingests what another replica offers that owner can process every event and then agrees with that replica on every group and document the owner has access to, nested ones included. The offer holds everything its events depend on, everything about what the owner has access to, the revocations that ended its own access, and nothing about groups and documents it never had access to. Replicas that only exchange such offers come to rest and then agree wherever they have access in each other's opinion.",
     ["histories", "schedules"],
     "Every history, every pair of offering replica and agent, every exchange order.",
     "Tests sync one or two simple documents; gaps show only with nested groups, former members, cascaded revocations, rotated keys or partial knowledge.",
     ["keyhive_core/src/keyhive.rs", "keyhive_core/src/principal/document.rs", "keyhive_core/src/principal/group.rs", "keyhive_core/src/principal/individual/state.rs"],
     [("events for an agent", "keyhive_core/src/keyhive.rs: static_events_for_agent, events_for_agent, membership_ops_for_agent, reachable_prekey_ops_for_agent"),
      ("ingestion", "keyhive_core/src/keyhive.rs: ingest_unsorted_static_events")],
     [],
     ["offered events", "state of a new device after ingesting them"],
     technique=T_SIM, note=N_SIM)

prop("C11", "Bulk sync queries give each agent what its own query gives",
     "The membership, prekey and key-agreement operations listed for an agent by the queries for all agents are exactly those the query for that single agent returns, for every agent a replica knows.",
     ["histories"],
     "Every history and every agent known to any replica.",
     "Tests compare them on one small graph; the two implementations walk the graph in different directions.",
     ["keyhive_core/src/keyhive.rs"],
     [("bulk queries", "keyhive_core/src/keyhive.rs: membership_ops_for_all_agents, reachable_prekey_ops_for_all_agents, cgka_ops_for_all_agents")],
     [],
     ["operations per agent from either query"],
     technique="runtime monitoring: both implementations queried on every replica of seeded executions, differences are violations", note=N_SIM)

prop("C21", "A listener is told of every accepted operation, once and in order",
     "The events a replica reports to its listener are exactly the operations it has accepted beyond its initial state, each reported once and none before those it depends on; operations that were refused or are still held back are not reported. Replaying the reports on top of the initial state reproduces the replica's state. The listeners that come with it, the list and the queue, hold exactly what was reported and hand it back in order.",
     ["histories", "schedules"],
     "Every history of local actions and received operations, in any arrival order.",
     "Tests count events in one or two flows; missing, repeated or early reports depend on the path an operation took in.",
     ["keyhive_core/src/listener.rs", "keyhive_core/src/listener/log.rs", "keyhive_core/src/listener/deque.rs", "keyhive_core/src/keyhive.rs", "keyhive_core/src/principal/group.rs", "keyhive_core/src/principal/active.rs"],
     [("listener callbacks", "keyhive_core/src/listener/membership.rs, prekey.rs, cgka.rs"),
      ("callers", "keyhive_core/src/principal/group.rs: receive_delegation, receive_revocation; keyhive_core/src/keyhive.rs: receive_cgka_op, receive_prekey_op")],
     [],
     ["listener callbacks", "state of a replica rebuilt from them"],
     technique="runtime monitoring: recorded listener log checked offline against the operations held, and replayed into a second replica", note=N_SIM)

prop("C22", "Outsiders cannot join or disturb a document's key agreement",
     "Nobody without access to a document adds or removes participants of its key agreement or is added to it, nobody but a participant replaces that participant's key in it, and nobody but its creator (or another initial member) starts it: operations that others make up, alter, sign again or carry over from another document are refused by every replica in whatever order they arrive. Honest operations are still accepted next to them, replicas still agree, and content still reads for exactly those with access.",
     ["inputs", "histories", "schedules"],
     "Every history of members, encryptions and forged key-agreement operations, including those that arrive before the document's own.",
     "Tests only exchange operations that honest replicas make; a forgery matters only for the state it is aimed at and the order it arrives in.",
     ["keyhive_core/src/keyhive.rs", "keyhive_core/src/principal/document.rs", "keyhive_core/src/cgka.rs", "beekem/src/cgka.rs"],
     [("receiving key-agreement operations", "keyhive_core/src/keyhive.rs: receive_cgka_op"),
      ("who may make which", "keyhive_core/src/principal/document.rs: check_cgka_op_issuer, merge_cgka_op"),
      ("signatures", "keyhive_crypto/src/signed.rs: try_verify")],
     [], ["a document's key-agreement operations and members", "decryption by every replica"],
     technique="runtime monitoring: forged operations injected into simulated replicas; an online monitor looks for them in every replica's key agreement, and readers are checked after", note=N_SIM)

prop("C24", "Secrets leave a replica in no operation, text or trace",
     "No signing key, secret of a prekey or of key agreement, key of a content or plaintext appears in any operation, contact card or ciphertext that a replica hands out, in what it, its parts or its errors print, or in any trace it emits. An archive holds no signing key, content key or plaintext, those of groups and documents made on the way included.",
     ["inputs", "histories"],
     "Every history of membership changes, key rotations, encryptions, transactions, restarts and failed calls; every secret drawn or derived in it.",
     "Tests never look for secrets in what is printed, traced or stored; a leak breaks no function.",
     ["keyhive_crypto/src/symmetric_key.rs", "keyhive_crypto/src/share_key.rs", "keyhive_crypto/src/signer", "beekem/src/encrypted.rs", "beekem/src/pcs_key.rs", "beekem/src/cgka.rs", "keyhive_core/src/archive.rs", "keyhive_core/src/principal/active.rs", "keyhive_core/src/principal/document.rs", "keyhive_core/src/keyhive.rs"],
     [("what secrets print", "keyhive_crypto/src/share_key.rs, symmetric_key.rs: Debug"), ("what calls trace", "keyhive_crypto/src/symmetric_key.rs: try_encrypt, try_seal"),
      ("sealing of key-agreement secrets", "beekem/src/encrypted.rs: encrypt_secret"), ("what is archived", "keyhive_core/src/archive.rs: Archive")],
     [], ["every 32 bytes drawn from the random source", "every trace span and event at every level", "debug output of replicas and their parts", "bytes of operations, cards, ciphertexts and archives"],
     technique="runtime monitoring: the random source, the tracing subscriber and all output are recorded while simulated replicas run; a taint monitor searches the output, in binary, decimal and hexadecimal, for every secret drawn or derived", note=N_SIM)

prop("C25", "Keys are fresh and no key and nonce serve two texts",
     "Contents of different documents, or written under different keys of a document, references or predecessors, are encrypted with different keys, under different keys of a document with different nonces too, no two different texts are ever encrypted with the same key and nonce, and a content's key opens nothing else. Every prekey and every key of a key update is new when published, secrets sealed for several readers are sealed differently, and groups, documents and individuals have identities of their own, across restarts and transactions too. None of these keys, identities or ciphertexts can be computed from all that their maker knew before it made them.",
     ["inputs", "histories"],
     "Every history of encryptions, with references, predecessors and texts used again, key rotations, new prekeys, transactions and restarts by several replicas.",
     "Tests check that what was encrypted decrypts, which it also does with a key or nonce that was used before.",
     ["beekem/src/pcs_key.rs", "beekem/src/cgka.rs", "beekem/src/tree.rs", "beekem/src/encrypted.rs", "keyhive_crypto/src/siv.rs", "keyhive_crypto/src/share_key.rs", "keyhive_core/src/principal/active.rs", "keyhive_core/src/principal/individual/state.rs"],
     [("keys of contents", "beekem/src/pcs_key.rs: derive_application_secret; beekem/src/cgka.rs: new_app_secret_for"), ("nonces", "keyhive_crypto/src/siv.rs: Siv::new"),
      ("keys of an update", "beekem/src/tree.rs: encrypt_path; beekem/src/cgka.rs: update"), ("prekeys", "keyhive_core/src/principal/active.rs: rotate_prekey, expand_prekeys, generate_private_prekey")],
     [], ["key, nonce, references and bytes of every ciphertext", "every prekey and key-agreement operation published"],
     technique="runtime monitoring: all ciphertexts, reported keys and published operations of simulated replicas are recorded, and judged offline for reuse; pairs of replicas with one past and different randomness are compared", note=N_SIM)

prop("C26", "Membership changes carry the content they were made after",
     "The founding delegations of a document carry the content it starts from, a delegation the content of every document it is made to depend on, and a revocation that of every document its maker can reach; none carries content of another document. Every replica that learns of a document, in any order of delivery and across restarts, knows it as a document with that content, whatever becomes of its members.",
     ["histories", "schedules"],
     "Every history of documents, groups, additions that depend on any set of documents, revocations and restarts by several replicas, and every order of delivery.",
     "Tests never look at the content that a delegation or revocation carries, and learn of documents in one order.",
     ["keyhive_core/src/principal/document.rs", "keyhive_core/src/principal/group.rs", "keyhive_core/src/principal/membered.rs", "keyhive_core/src/keyhive.rs", "keyhive_core/src/archive.rs"],
     [("founding delegations", "keyhive_core/src/principal/document.rs: generate; keyhive_core/src/principal/group.rs: generate_after_content"), ("additions", "keyhive_core/src/principal/document.rs: add_member; keyhive_core/src/principal/group.rs: add_member"),
      ("revocations", "keyhive_core/src/keyhive.rs: revoke_member"), ("learning of a document", "keyhive_core/src/keyhive.rs: receive_delegation, try_from_archive")],
     [], ["the content carried by every delegation and revocation", "which documents and groups each replica knows"],
     technique="runtime monitoring: the delegations and revocations that simulated replicas publish are compared, as they are made, with a model of the content of every document", note=N_SIM)

prop("C08", "A document's key agreement has exactly those who can read it",
     "Once every replica has every operation, the individuals in a document's key agreement are exactly those with read access or more, directly, through groups or through other documents, after any sequence of additions, re-additions, narrowings and revocations made anywhere in the membership graph. A call that reports an addition or revocation has carried it out in both, and one that is refused leaves the two in step.",
     ["histories"],
     "Every sequence of membership changes by any member on any graph of groups, documents and individuals, Public and relays included.",
     "Tests count key-agreement members after one addition or revocation; drift needs several paths to a reader, cascades, re-additions or changed access.",
     ["keyhive_core/src/keyhive.rs", "keyhive_core/src/principal/document.rs", "keyhive_core/src/principal/group.rs"],
     [("adding to and removing from key agreement", "keyhive_core/src/keyhive.rs: add_member, revoke_member; keyhive_core/src/principal/document.rs: add_member, revoke_member, remove_cgka_member")],
     [("key agreement members", "leaves of the document's tree", "keyhive_core/src/principal/document.rs: Document.cgka")],
     ["key agreement size and members", "transitive_members"],
     technique=T_SIM.replace("an independent trace oracle", "a monitor comparing key agreement with access after every action"), note=N_SIM)

prop("C09", "Who could read when content was written can read it, nobody else",
     "Content encrypted for a document can be decrypted, to exactly what was encrypted and with the key its writer reports, by every replica whose user the writer counted as a reader, in whatever order operations and ciphertexts arrive, and however membership and keys change afterwards. A replica whose user was not counted, because it was never added or had been removed, the document's creator included, cannot decrypt it and cannot encrypt for the document.",
     ["histories", "schedules"],
     "Every history of membership changes, key rotations, encryptions and decryptions by several replicas, concurrent or not.",
     "Tests encrypt and decrypt in short two-party flows; who holds which key after concurrent changes, removals and re-additions is a matter of history.",
     ["keyhive_core/src/keyhive.rs", "keyhive_core/src/principal/document.rs", "beekem/src/cgka.rs"],
     [("encryption and decryption", "keyhive_core/src/keyhive.rs: try_encrypt_content_keyed, try_decrypt_content_keyed"),
      ("which leaf a replica acts as", "keyhive_core/src/keyhive.rs: receive_cgka_op; keyhive_core/src/principal/document.rs: merge_cgka_invite_op")],
     [],
     ["result of every decryption attempt by every replica", "result of encryption attempts by outsiders"],
     technique=T_SIM.replace("an independent trace oracle", "a reader-set oracle taken when content is written"), note=N_SIM)

prop("C16", "A forged or altered ciphertext is refused and does no lasting harm",
     "A ciphertext whose bytes, nonce, content reference, predecessors or key was changed or exchanged with another's is refused, and one that names another key update than it was made with yields what was encrypted or nothing; nothing panics. Having tried to decrypt it, a replica goes on to read and write as if it had not.",
     ["inputs", "histories"],
     "Every alteration of the parts of a ciphertext, offered to any replica at any point of any history.",
     "Tests flip no bits; what a reader remembers from a bad ciphertext shows only in what it writes later, to readers that must derive the key afresh.",
     ["beekem/src/cgka.rs", "beekem/src/encrypted.rs", "keyhive_core/src/principal/document.rs"],
     [("deriving keys from a ciphertext's claims", "beekem/src/cgka.rs: decryption_key_for, pcs_key_from_hashes")],
     [("remembered keys", "which operation produced which key", "beekem/src/cgka.rs: Cgka.pcs_key_ops")],
     ["result of decrypting altered ciphertexts", "later reads and writes"],
     technique=T_SIM.replace("an independent trace oracle", "altered ciphertexts judged at once and by the reads and writes that follow"), note=N_SIM)

prop("C17", "Causal decryption recovers all stored history and loses nothing else",
     "Starting from content a replica can read, causal decryption yields the right plaintext and key of every stored content that readable content leads to, each once, and nothing else, whatever is missing, unfetchable, undecryptable or malformed on the way. It names every content that it was led to and could not decrypt, keeps the key of every content it could not fetch so that the rest can be recovered when it arrives, and marks exactly what it recovered as decrypted.",
     ["inputs", "histories", "faults"],
     "Every graph of linked contents, with any of them missing, failing to be fetched or to be marked, corrupt, or linked with a wrong key; every order of arrival.",
     "The tests walk two small chains in which everything is stored and every key is right.",
     ["keyhive_core/src/store/ciphertext.rs", "keyhive_core/src/store/ciphertext/memory.rs", "keyhive_core/src/principal/document.rs", "keyhive_core/src/crypto/envelope.rs"],
     [("causal decryption", "keyhive_core/src/store/ciphertext.rs: try_causal_decrypt"), ("from a document", "keyhive_core/src/principal/document.rs: try_causal_decrypt_content")],
     state=[("ciphertext store", "what is stored and not yet decrypted", "keyhive_core/src/store/ciphertext/memory.rs: MemoryCiphertextStore")],
     observe=["recovered contents, keys, leftover keys and errors of a causal decryption", "contents of the store after it"],
     technique="runtime monitoring: random graphs of linked ciphertexts behind a fault-injecting store, and whole replicas; every result is judged online against reachability in the generated graph", note="Runs the store's and the document's own causal decryption; the store wrapper fails chosen fetches and records what is marked as decrypted.")

prop("C23", "The ciphertext store returns exactly what was put in",
     "After any sequence of insertions and removals, looking up an update yields exactly the ciphertexts stored under it, and looking up a content reference yields the largest stored under it, or nothing if there is none. Removing something tells whether it was there and leaves everything else.",
     ["inputs", "histories"],
     "Every sequence of insertions, repeated insertions, removals and lookups.",
     "The tests insert once and look up once; entries left behind by a removal show only in later lookups.",
     ["keyhive_core/src/store/ciphertext/memory.rs"],
     [("in-memory store", "keyhive_core/src/store/ciphertext/memory.rs: MemoryCiphertextStore")],
     state=[("indices", "ciphertexts by reference and by update", "keyhive_core/src/store/ciphertext/memory.rs: MemoryCiphertextStoreInner")],
     observe=["result of every lookup and removal"],
     technique="runtime monitoring: random call sequences with a list as reference model, every lookup compared online", note="Runs the real store.")

prop("C13", "Archiving and restoring lose nothing, whenever it happens",
     "A replica rebuilt from its archive answers every query as before: groups, documents, members, access, revoked members, key agreement, prekeys, pending events, operations to offer. It goes on as if nothing had happened: it receives what was in flight, reads what it could read, and can be read. Loading an archive into a replica, fresh, older or the same, leaves it knowing everything both knew, losing no operation, event or secret, and reports exactly what was new.",
     ["histories", "crash_points"],
     "Every history and every point in it at which a replica is archived, restored, or loads an older or newer archive of itself; events pending or not.",
     "Tests archive a settled replica once and compare a few fields; what an archive leaves out shows in what the restored replica later refuses, cannot read or does not offer.",
     ["keyhive_core/src/archive.rs", "keyhive_core/src/keyhive.rs", "keyhive_core/src/principal/document.rs", "keyhive_core/src/principal/group.rs", "keyhive_core/src/principal/active.rs"],
     [("archive and restore", "keyhive_core/src/keyhive.rs: into_archive, try_from_archive"), ("loading an archive into a running replica", "keyhive_core/src/keyhive.rs: ingest_archive"),
      ("key agreement and its secrets", "keyhive_core/src/principal/document/archive.rs: DocumentArchive; keyhive_core/src/principal/document.rs: merge_cgka")],
     state=[("archive", "everything a replica stores", "keyhive_core/src/archive.rs: Archive")],
     observe=["all queries before and after", "later deliveries, reads and writes", "listener callbacks while loading"],
     technique=T_SIM.replace("an independent trace oracle", "snapshots of all queries before and after each restart, and by an uninterrupted run's oracles afterwards"), note=N_SIM)

prop("C14", "A transaction is isolated until merged, and merging loses nothing",
     "While a fork of a replica is worked on, by any operations, the replica answers every query as before and reports nothing. Merging the fork, even if the replica has gone on meanwhile, leaves it with every operation, pending event and secret of both, reports each new operation once, and, if it had not gone on, makes it answer as the fork did and lets those read what was written in the fork for whom it was. Dropping a fork or failing in a transaction changes nothing, and transactions on plain collections, several at a time too, keep to the same.",
     ["histories", "schedules"],
     "Every sequence of actions and deliveries in a fork, beside it and after it.",
     "Tests fork, add something and merge; losses show in what was concurrent, what was pending, and in secrets only needed later.",
     ["keyhive_core/src/keyhive.rs", "keyhive_core/src/transact.rs", "keyhive_core/src/transact/fork.rs", "keyhive_core/src/transact/merge.rs", "keyhive_core/src/util/content_addressed_map.rs", "beekem/src/transact.rs"],
     [("fork and merge of a replica", "keyhive_core/src/keyhive.rs: fork_async, merge_async")],
     observe=["all queries on the replica and its fork", "listener callbacks", "later reads and writes"],
     technique=T_SIM.replace("an independent trace oracle", "snapshots of trunk and fork around every step, and conservation of operations, events and secrets across each merge"), note=N_SIM)

prop("C19", "Malformed or malicious input neither crashes a replica nor disturbs others",
     "Whatever a replica receives, in whatever order and between whatever calls of its user, it neither crashes nor hangs, and every later call answers. Input from somebody who was never given access to a group or document leaves it to the others as if it had not come: they agree on it, accept each other's operations, and read what is written for them.",
     ["inputs", "histories"],
     "Every operation that can be made and signed by somebody with keys of their own, in every order among the operations of others.",
     "The tests feed a replica well-formed operations of cooperating peers; a crash needs one odd field in one odd state.",
     ["keyhive_core/src/keyhive.rs", "keyhive_core/src/principal/group.rs", "keyhive_core/src/principal/document.rs", "beekem/src/tree.rs", "beekem/src/cgka.rs", "beekem/src/operation.rs"],
     [("reception of operations", "keyhive_core/src/keyhive.rs: receive_static_event, ingest_unsorted_static_events"), ("application of key-agreement operations", "beekem/src/tree.rs: BeeKem.apply_path")],
     observe=["panics, overflows and deadlocks of every call", "views of every group and document at every replica", "operations held back", "result of every decryption"],
     technique=T_SIM.replace("an independent trace oracle", "a panic and deadlock monitor over all calls, and by convergence and readability among the others"), note=N_SIM)

prop("C12", "A replica takes in all that it can of what it is given, and nothing else",
     "However the operations given to a replica are ordered, batched, repeated and mixed with junk, it has accepted exactly those that are genuine and whose dependencies it has accepted, and holds back exactly the others that may still become acceptable, which is also what ingestion returns. Once everything has arrived nothing honest is held back, and giving it something again changes and reports nothing. Its counts and lookups say exactly what it has accepted and what it holds back.",
     ["inputs", "schedules"],
     "Every history, every subset of it that may have arrived, every order, batching, repetition and entry point, and every dangling or falsified operation in between.",
     "The tests ingest complete histories; operations lost, stuck or taken in too early show only for particular gaps and orders.",
     ["keyhive_core/src/keyhive.rs", "keyhive_core/src/principal/group/state.rs", "keyhive_core/src/principal/document.rs", "beekem/src/cgka.rs"],
     [("ingestion with retries and held-back events", "keyhive_core/src/keyhive.rs: ingest_unsorted_static_events, inject_pending_events"), ("counts and lookups", "keyhive_core/src/keyhive.rs: stats, get_membership_operation, static_event_to_event; keyhive_core/src/stats.rs"), ("dependencies of operations", "keyhive_core/src/keyhive.rs: static_delegation_to_delegation, static_revocation_to_revocation, receive_cgka_op")],
     [("pending events", "events waiting for dependencies", "keyhive_core/src/keyhive.rs: Keyhive.pending_events")],
     ["listener callbacks", "pending events", "return values of ingestion", "views of every group and document"],
     technique=T_SIM.replace("an independent trace oracle", "a least-fixed-point model of what is acceptable of what each replica was given"), note=N_SIM)

prop("C15", "An individual is reached by exactly the prekeys it published and still uses",
     "Replicas that have received the same prekey operations of an individual, in whatever order and by whatever way, agree on its prekeys, exactly those it published and has not rotated away: invitations use one of these, the same one at every replica for the same document, and each of them for some documents. The individual holds the secret of every prekey it published, so that an invitation by any of them, current or rotated away, lets it read, at any of its replicas to which its secrets were carried over. Nobody else changes its prekeys, and nobody changes the public's.",
     ["inputs", "histories", "schedules"],
     "Every history of expansions, rotations and contact cards by any individuals, at one or two replicas of each, every order and way of delivery, restarts, and every prekey operation forged by somebody else.",
     "The tests rotate a key or two at one replica; differences come from operations in odd orders, from cards of old keys, and from invitations by keys that have been rotated since.",
     ["keyhive_core/src/principal/individual.rs", "keyhive_core/src/principal/individual/state.rs", "keyhive_core/src/principal/active.rs", "keyhive_core/src/contact_card.rs", "keyhive_core/src/keyhive.rs"],
     [("prekeys from their operations", "keyhive_core/src/principal/individual/state.rs: PrekeyState.build"), ("choice of a prekey", "keyhive_core/src/principal/individual.rs: pick_prekey"),
      ("secrets carried over to another replica", "keyhive_core/src/keyhive.rs: export_prekey_secrets, import_prekey_secrets")],
     [("prekey operations", "all expansions and rotations received", "keyhive_core/src/principal/individual/state.rs: PrekeyState")],
     ["prekey operations and picks at every replica", "secrets held", "listener callbacks", "result of every decryption"],
     technique=T_SIM.replace("an independent trace oracle", "a set model of each individual's prekeys at each replica, and by readability"), note=N_SIM)

prop("C18", "What is written out reads back the same, and altered input is refused",
     "Every operation, contact card, ciphertext, envelope, secret and archive reads back from its encoding as an equal value, with the same identity and a valid signature, and a replica that gets everything through encodings ends up as one that got it directly. An operation, card or ciphertext any byte of which was altered, or that is presented as one of another kind or another author's, is refused or is not decryptable; it is never taken for the original or for a genuine other. Reading arbitrary bytes fails without crashing.",
     ["inputs", "histories"],
     "Every operation, card, ciphertext and archive of every history, and every alteration, truncation and splicing of their encodings.",
     "Tests encode a few values; what breaks is a field left out of an encoding, a signature or an identity, which shows only for values that differ there.",
     ["keyhive_crypto/src/signed.rs", "keyhive_crypto/src/digest.rs", "keyhive_core/src/event/static_event.rs", "keyhive_core/src/contact_card.rs", "keyhive_core/src/archive.rs", "beekem/src/encrypted.rs", "beekem/src/operation.rs"],
     [("signing and verification", "keyhive_crypto/src/signed.rs: Signed.try_verify"), ("identity of operations", "keyhive_crypto/src/digest.rs: Digest.hash"), ("authenticated encryption", "keyhive_crypto/src/symmetric_key.rs: SymmetricKey")],
     observe=["values read back", "acceptance of altered input at every entry point", "views after delivery by encoding", "results of decryption"],
     technique=T_SIM.replace("an independent trace oracle", "equality after every round trip, and by refusal of every altered encoding"),
     note=N_SIM + " Archives and exported secrets are trusted once they can be read.")

prop("C20", "Calls made at the same time neither block each other nor lose anything",
     "However calls on one replica overlap, each of them returns. Afterwards the replica holds, or awaits the dependencies of, everything that any of them was given or made, has reported each operation exactly once, and agrees with replicas that did one thing at a time; what was written can be read by those it was for, and an archive made meanwhile is one of a state in between.",
     ["schedules", "histories"],
     "Every set of overlapping calls of any kind on a replica and its clones, and every interleaving of their steps at each point where a call may have to wait.",
     "The tests make one call at a time; what is lost, reported twice or blocked depends on where exactly another call is while one looks something up and acts on it.",
     ["keyhive_core/src/keyhive.rs", "keyhive_core/src/principal/group.rs", "keyhive_core/src/principal/membered.rs", "keyhive_core/src/principal/document.rs", "keyhive_core/src/principal/active.rs"],
     [("ingestion with held-back events", "keyhive_core/src/keyhive.rs: ingest_unsorted_static_events"), ("walks through groups that contain each other", "keyhive_core/src/principal/group.rs: reachable_agents"), ("creation under the shared random number generator", "keyhive_core/src/principal/document.rs: Document.generate")],
     [("shared state", "maps and stores behind asynchronous locks, shared by clones", "keyhive_core/src/keyhive.rs: Keyhive")],
     ["return of every call", "listener callbacks", "operations held and awaited", "archives", "views of every group and document", "result of every decryption"],
     technique="runtime monitoring: overlapping calls on the real code under a seeded scheduler that can switch before every acquisition of an asynchronous lock and in every callback, with exact deadlock detection, judged by conservation of operations, exactly-once reporting, convergence and readability",
     note=N_SIM + " Interleavings within one poll between two locks are not explored: the code has no unsafe and shares state only through these locks. The scheduler's switch points are added to a vendored copy of futures-util's lock in the harness.")
