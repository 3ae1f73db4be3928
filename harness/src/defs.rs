use crate::check::{CheckDef, Finding, Workload};
use crate::*;

macro_rules! wl {
    ($n:literal, $q:literal, $t:literal, $f:path) => {
        Workload { name: $n, quick: $q, thorough: $t, run: $f }
    };
}

const RULE_CGKA: &str = "an episode counts once per distinct sequence of member actions and deliveries, and only if it has concurrent operations and (for C02) removals or (for C03) several ciphertexts";
const AS_CGKA: &[&str] = &[
    "operations are delivered in causal order (the library's stated assumption for this layer)",
    "each member runs one replica at a time",
    "membership is judged only where the causal history decides it: an add concurrent with a remove of the same member, and removals that could empty the group, are left to the code",
];

const AS_KH: &[&str] = &[
    "each user runs one replica at a time, except where a workload says otherwise",
    "histories in which somebody acts with authority held through a group that loses members are generated but not judged where a recorded finding makes them depend on arrival order",
    "the cryptographic primitives do what they claim",
];

pub fn defs() -> Vec<CheckDef> {
    vec![
        CheckDef {
            id: "C01",
            rule: RULE_CGKA,
            assumptions: AS_CGKA,
            workloads: &[wl!("agree", 7500, 60000, cgka_sim::agreement), wl!("agree-big", 375, 6000, cgka_sim::agreement_big)],
            need: &["adds", "removes", "key comparisons", "restarts", "fork merges", "updates in or beside forks"],
            findings: &[],
        },
        CheckDef {
            id: "C02",
            rule: RULE_CGKA,
            assumptions: AS_CGKA,
            workloads: &[wl!("removed", 1350, 60000, cgka_sim::removed), wl!("removed-big", 60, 6000, cgka_sim::removed_big)],
            need: &["keys withheld from removed members", "keys withheld from later members", "keys the attacker computation finds for members"],
            findings: &[],
        },
        CheckDef {
            id: "C03",
            rule: RULE_CGKA,
            assumptions: AS_CGKA,
            workloads: &[wl!("history", 6250, 60000, cgka_sim::history), wl!("history-big", 375, 6000, cgka_sim::history_big)],
            need: &["reads", "reads denied to non-members", "removes", "restarts"],
            findings: &[],
        },
        CheckDef {
            id: "C04",
            rule: "an episode counts once per distinct sequence of actions and deliveries, and only if several delegations were made",
            assumptions: AS_KH,
            workloads: &[
                wl!("direct", 2250, 60000, mem::converge_direct),
                wl!("docs", 2250, 60000, mem::converge_docs),
                wl!("nested", 2250, 60000, mem::converge_nested),
                wl!("via", 2250, 60000, mem::converge_via), wl!("turned", 2250, 60000, mem::converge_turned),
            ],
            need: &["adds", "revocations", "views compared"],
            findings: &[Finding { id: "authority-through-a-left-group", run: findings::authority_through_a_left_group }, Finding { id: "individual-turns-out-to-be-a-group", run: findings::individual_turns_out_to_be_a_group }],
        },
        CheckDef {
            id: "C08",
            rule: "an episode counts once per distinct sequence of actions, and only if some document had several readers",
            assumptions: &["every replica has every operation before the next action (concurrent changes can leave key agreement and access apart until somebody repairs it)"],
            workloads: &[wl!("readers", 4500, 60000, mem::readers)],
            need: &["documents judged", "documents with relays judged", "documents with indirect members judged", "public documents judged", "revocations"],
            findings: &[],
        },
        CheckDef {
            id: "C09",
            rule: "an episode counts once per distinct sequence of actions and deliveries, and only if several contents were encrypted and some replica was denied one",
            assumptions: AS_KH,
            workloads: &[wl!("concurrent", 3600, 60000, content::concurrent), wl!("sequential", 2400, 40000, content::sequential)],
            need: &["encryptions", "reads", "reads denied", "revocations", "keys rotated by encrypting", "encryption attempts by outsiders"],
            findings: &[],
        },
        CheckDef {
            id: "C16",
            rule: "an episode counts once per distinct sequence of actions and deliveries, and only if several contents were encrypted and some replica was denied one",
            assumptions: AS_KH,
            workloads: &[wl!("tampered", 4800, 60000, content::tampered)],
            need: &["encryptions", "altered ciphertexts refused", "reads"],
            findings: &[],
        },
        CheckDef {
            id: "C10",
            rule: "an episode counts once per distinct sequence of actions and deliveries, and only if some group or document was compared",
            assumptions: AS_KH,
            workloads: &[wl!("fresh", 3000, 60000, sync::fresh), wl!("gossip", 1600, 40000, sync::gossip)],
            need: &["entities compared on a new device", "pairs with mutual access compared", "revocations"],
            findings: &[],
        },
        CheckDef {
            id: "C11",
            rule: "an episode counts once per distinct sequence of actions and deliveries, and only if some key-agreement operation was compared",
            assumptions: AS_KH,
            workloads: &[wl!("bulk", 6000, 60000, sync::bulk)],
            need: &["agents compared", "membership operations compared", "prekey operations compared", "key-agreement operations compared"],
            findings: &[],
        },
        CheckDef {
            id: "C17",
            rule: "an episode counts once per distinct graph or sequence of actions, and only if several contents were recovered",
            assumptions: &["a store answers for a reference with what was stored under it, with nothing, or with an error"],
            workloads: &[wl!("graph", 30000, 2000000, causal::graph), wl!("documents", 6000, 60000, causal::documents)],
            need: &["contents recovered", "keys of missing contents reported", "contents that could not be marked", "undecryptable contents named", "continuations from reported keys", "contents recovered from before the reader was added"],
            findings: &[],
        },
        CheckDef {
            id: "C13",
            rule: "an episode counts once per distinct sequence of actions, deliveries and restarts, and only if several delegations were made",
            assumptions: AS_KH,
            workloads: &[wl!("restarts", 1250, 30000, archive::restarts), wl!("content", 750, 20000, archive::content), wl!("ingested", 2000, 40000, archive::ingested), wl!("turned", 1000, 20000, archive::turned)],
            need: &["restarts", "restarts with events pending", "reads", "archives loaded into a fresh replica", "archives loaded into an older replica", "archives loaded into the same replica"],
            findings: &[],
        },
        CheckDef {
            id: "C14",
            rule: "an episode counts once per distinct sequence of actions in and beside transactions, and only if merging them added several operations (or, for collections, always)",
            assumptions: AS_KH,
            workloads: &[wl!("transactions", 2800, 40000, archive::transactions), wl!("collections", 4000, 200000, transact::collections)],
            need: &["fork actions", "transactions merged", "transactions abandoned", "trunk actions during a transaction", "operations merged", "contents of transactions read", "views compared", "transactions run", "transactions failed", "collections merged", "failed transactions on collections", "collections with transactions at the same time"],
            findings: &[],
        },
        CheckDef {
            id: "C23",
            rule: "an episode counts once per distinct sequence of calls, and only if it leaves several ciphertexts stored",
            assumptions: &[],
            workloads: &[wl!("model", 24000, 800000, causal::store_model)],
            need: &["lookups by reference", "lookups by update"],
            findings: &[],
        },
        CheckDef {
            id: "C21",
            rule: "an episode counts once per distinct sequence of actions and deliveries, and only if delegations were made",
            assumptions: AS_KH,
            workloads: &[wl!("log", 3000, 60000, listener::complete), wl!("turned", 2000, 40000, listener::turned), wl!("kept", 1600, 30000, listener::kept)],
            need: &["events reported", "dependencies in order", "replicas rebuilt from their log", "nonempty views compared", "events handed back by the list", "latest events handed back by the queue", "earliest events handed back by the queue"],
            findings: &[],
        },
        CheckDef {
            id: "C07",
            rule: "an episode counts once per distinct sequence of actions and deliveries, and only if several delegations were made",
            assumptions: AS_KH,
            workloads: &[wl!("nested", 5000, 80000, mem::meaning_nested), wl!("turned", 2500, 40000, mem::meaning_turned)],
            need: &["views judged", "views with indirect members", "agents' access judged"],
            findings: &[],
        },
        CheckDef {
            id: "C06",
            rule: "an episode counts once per distinct sequence of actions and deliveries, and only if several delegations were made",
            assumptions: AS_KH,
            workloads: &[wl!("flat", 5000, 80000, mem::meaning_flat)],
            need: &["views judged", "views with revoked members", "members retained by a new delegation"],
            findings: &[],
        },
        CheckDef {
            id: "C22",
            rule: "an episode counts once per distinct sequence of actions, forgeries and deliveries, and only if it has forgeries of two kinds and contents",
            assumptions: AS_KH,
            workloads: &[wl!("outsiders", 3000, 80000, keyforge::outsiders)],
            need: &["forged operations", "key agreements searched for forgeries", "rotation of another's key", "rotation in one's own name of another's leaf", "another's rotation, signed again", "addition by an outsider", "addition of somebody without access", "removal by an outsider", "first operation by somebody else", "altered operation", "operation with another's issuer", "reads", "reads denied"],
            findings: &[Finding { id: "former-reader-returns", run: findings::former_reader_returns }],
        },
        CheckDef {
            id: "C12",
            rule: "an episode counts once per distinct history, choice of what arrives when, and way of handing it over",
            assumptions: AS_KH,
            workloads: &[wl!("gaps", 1500, 80000, ingest::gaps), wl!("noise", 1500, 80000, ingest::noise)],
            need: &["counts compared", "operations looked up", "rounds", "acceptances judged", "events held back", "junk events", "repetitions", "views compared"],
            findings: &[],
        },
        CheckDef {
            id: "C15",
            rule: "an episode counts once per distinct sequence of actions and deliveries, and only if prekeys were rotated (converge, used) or secrets released events (devices)",
            assumptions: &["a second device of the same individual does not write in the documents it shares with the first"],
            workloads: &[wl!("converge", 3000, 80000, prekeys::converge), wl!("used", 1400, 40000, prekeys::used), wl!("devices", 1400, 40000, prekeys::devices)],
            need: &["expansions", "rotations", "contact cards", "existing contact cards", "forged prekey operations", "prekey sets compared in full", "public prekeys judged", "additions with a prekey since rotated", "invitations held back", "events released by secrets", "contents read by each device"],
            findings: &[],
        },
        CheckDef {
            id: "C18",
            rule: "an episode counts once per distinct sequence of actions, alterations and deliveries, and only if several operations were read back or refused",
            assumptions: &["an archive and exported secrets come from where their owner put them: their contents are trusted once they can be read"],
            workloads: &[wl!("roundtrip", 1000, 30000, wire::roundtrip), wl!("altered", 2000, 60000, wire::altered), wl!("garbage", 2500, 80000, wire::garbage)],
            need: &["delegations read back", "revocations read back", "contact cards read back", "ciphertexts read back", "archives read back", "envelopes read back", "altered operations refused", "altered contact cards", "altered ciphertexts", "altered secrets", "altered archives", "views compared"],
            findings: &[],
        },
        CheckDef {
            id: "C20",
            rule: "an episode counts once per distinct sequence of calls and schedule of their steps",
            assumptions: AS_KH,
            workloads: &[wl!("intake", 1600, 60000, conc::intake), wl!("adds", 800, 30000, conc::adds), wl!("actions", 1600, 60000, conc::actions)],
            need: &["schedules", "calls made at the same time", "times a call gave way before a lock", "archives made at the same time", "operations offered at the same time", "contents written at the same time read", "views compared", "reads"],
            findings: &[],
        },
        CheckDef {
            id: "C19",
            rule: "an episode counts once per distinct sequence of actions, hostile inputs and deliveries, and only if it has hostile inputs of two kinds",
            assumptions: AS_KH,
            workloads: &[wl!("inside", 1500, 80000, soup::inside), wl!("outside", 1200, 60000, soup::outside)],
            need: &["hostile inputs", "key-agreement operation", "prekey operation", "membership operation", "ladder", "altered encoding", "hostile inputs given directly", "uses between hostile inputs", "views compared", "reads", "reads denied"],
            findings: &[],
        },
        CheckDef {
            id: "C24",
            rule: "an episode counts once per distinct sequence of actions and deliveries, and only if several contents were encrypted",
            assumptions: AS_KH,
            workloads: &[wl!("kept", 1200, 20000, secrets::kept)],
            need: &["secrets watched", "key-agreement secrets watched", "operations searched", "contact cards searched", "ciphertexts searched", "archives searched", "printed texts searched", "trace texts searched", "spans traced", "reads"],
            findings: &[],
        },
        CheckDef {
            id: "C25",
            rule: "an episode counts once per distinct sequence of actions and deliveries, and only if several contents were encrypted",
            assumptions: AS_KH,
            workloads: &[wl!("fresh", 4800, 60000, secrets::fresh), wl!("twins", 3000, 60000, secrets::twins)],
            need: &["content keys judged", "contents with a key in common judged", "equal texts under equal keys judged", "keys tried on other contents", "prekeys judged", "tree keys judged", "sealed secrets judged", "new keys of twins", "identities of twins judged", "ciphertexts of twins judged"],
            findings: &[],
        },
        CheckDef {
            id: "C26",
            rule: "an episode counts once per distinct sequence of actions and deliveries, and only if it has several documents and a delegation that depends on one",
            assumptions: AS_KH,
            workloads: &[wl!("pins", 3000, 60000, pins::pins)],
            need: &["contents carried by delegations", "contents carried by revocations", "founding delegations judged", "kinds judged", "documents whose content replicas know", "restarts"],
            findings: &[],
        },
        CheckDef {
            id: "C05",
            rule: "an episode counts once per distinct sequence of actions, forgeries and deliveries, and only if some forgery claims more than its author's authority",
            assumptions: AS_KH,
            workloads: &[wl!("flat", 2040, 80000, hostile::forge_flat), wl!("nested", 2040, 60000, hostile::forge_nested)],
            need: &["views judged", "forgeries beyond the attacker's authority", "forgeries within the attacker's authority"],
            findings: &[],
        },
    ]
}
