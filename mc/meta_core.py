from .meta import EVT, STANDIN, prop

KTECH = ("exhaustive exploration of the real event processor against an independent reference judge: every "
         "candidate within a bounded number of deviations from a valid one, from every base log")
SHIM = [STANDIN, "cryptographic primitives (Ed25519, Blake3) are provided by stand-ins validated by the "
        "repository's own tests"]

prop("K01", "A key event is accepted exactly when it validly extends its log",
     "A validator accepts an event only when its number, prior digest, keys, pre-rotated next keys, thresholds, "
     "witness changes and signatures make it a valid next (or recovery) event of that log; otherwise it refuses, "
     "recognises a redelivery, or holds it for missing parts or as duplicitous, and key state and logs stay "
     "unchanged. Once accepted, the key state shown and stored is exactly the one the event prescribes.",
     ["inputs", "histories"],
     "every candidate with up to 2 (thorough: 3) deviations of number, prior, keys, thresholds, commitments, "
     "witnesses, signatures and receipts, from each of 21 base logs",
     "Tests walk a few valid logs and single faults; security needs refusal of every invalid combination and "
     "acceptance of every valid one.",
     [EVT], [("Kevery.processEvent", EVT), ("Kever.incept/update/rotate/valSigsWigsDel", EVT)], KTECH,
     "Every delivery is judged by both the code and the reference; comparison covers verdict, key state, logs, "
     "stored signatures and escrows. Bounded by the base logs and deviation count.",
     "states = distinct (base log, event message, attached signatures) delivered; a transition is one delivery "
     "compared with the reference judge", SHIM)

prop("K02", "Logs converge whatever the order of arrival",
     "Whatever order the events, partial signatures, receipts and approvals of some logs arrive in, and whenever "
     "escrows are processed in between, a validator ends with the same logs, key states, stored signatures and "
     "receipts as with delivery in order, and nothing stays in escrow.  With competing branches the recovery "
     "branch wins in every order.",
     ["schedules", "histories"],
     "every permutation of the messages of 13 (thorough: 15, up to 8 messages) scenarios, escrows processed after "
     "each message or only at the end",
     "Tests deliver in one or two orders; escrows exist for all the others.",
     [EVT, "src/keri/core/parsing.py"],
     [("Kevery.processEscrows", EVT), ("Kevery.escrow*Event", EVT), ("Kevery.processReceipt*", EVT)],
     "exhaustive enumeration of message orders on the real parser and event processor, final database compared "
     "with that of in-order delivery",
     "Every order of each scenario. Bounded by the scenarios.",
     "states = complete message orders compared; a transition is one message delivered", SHIM)

prop("K03", "The first seen event wins for good",
     "Once a validator accepts an event it keeps it: its first seen log only grows, each accepted event was a valid "
     "extension (or allowed recovery) of what had been accepted before, rivals are never swapped in, and the key "
     "state is always the one given by replaying the first seen log.",
     ["histories", "schedules"],
     "every history up to depth 5 (thorough: 7) over 5 pools of mutually conflicting events, partial signatures and "
     "receipts, with escrow processing at any moment",
     "Duplicity protection must hold against any history an attacker arranges; tests try a few.",
     [EVT], [("Kevery.processEvent", EVT), ("Kever.logEvent", EVT), ("Kever.rotate", EVT)],
     "breadth first exploration of all reachable databases of the real event processor with a reference judge on "
     "every transition",
     "Complete for the pools up to the depth.",
     "states = distinct database contents reached; a transition is one message or one escrow pass", SHIM)

prop("K04", "A validator that dies at any moment recovers",
     "If the process dies between any two durable writes while it processes a message or its escrows and then "
     "restarts, logs and key state agree, nothing it would not have accepted is in them, and redelivery leads to "
     "the same outcome as if it had not died.",
     ["crash_points", "histories"],
     "every commit of every run of the K02 scenarios and of all histories of 2 (thorough: 3) conflicting messages is "
     "a crash point, followed by each way of resuming or each next message",
     "Tests never kill the process between two writes of one acceptance.",
     [EVT, "src/keri/db/basing.py"], [("Kever.logEvent/unlogEvents", EVT), ("Baser.reload", "src/keri/db/basing.py")],
     "exhaustive crash point enumeration on the real code over a store that keeps exactly the committed writes",
     "Every commit point; a store transaction itself is atomic (assumed of LMDB).",
     "states = recoveries checked (crash point, way of resuming); a transition is one message delivered", SHIM)

prop("K06", "Delegated events need a standing approval by the delegator",
     "A validator accepts a delegated inception or rotation only if the delegator allows delegation and an event on "
     "the standing (not superseded) branch of its log seals exactly that event, and then does accept it, wherever the "
     "pointer to the approval points. A delegated rotation replaces another one only by the superseding rules "
     "(later, later in the same event, rotation over interaction, or recursively further up), judged by the "
     "commitments and witnesses both follow. No other log accepts delegated rotations.",
     ["histories", "schedules"],
     "every history up to depth 4 (thorough: 6) in 11 cases of two or three logs: approvals, non-approvals, rivals, "
     "recoveries of delegator and delegate, right/wrong/absent pointers, escrow processing at any moment",
     "The rules combine several logs, their recoveries and arrival orders; tests walk single paths.",
     [EVT, "src/keri/db/basing.py"],
     [("Kever.validateDelegation", EVT), ("Kever.fetchDelegatingEvent", EVT),
      ("Baser.fetch*SealingEvent*", "src/keri/db/basing.py")],
     "breadth first exploration of all reachable databases of the real event processor, each newly accepted event "
     "judged by an independent reference of the delegation and superseding rules",
     "Complete for the cases up to the depth; both directions (accepts only what may be, accepts what must be).",
     "states = distinct database contents reached; a transition is one message or escrow pass", SHIM)

prop("K07", "Signing thresholds mean what they say in every form",
     "A threshold (number, or weights in one or more clauses, possibly with weighted groups) is satisfied by a set of "
     "signers exactly when their number or every clause's weights say so; repeated or foreign positions add nothing. "
     "Its text, CESR, JSON and computed forms convert into each other without change, and malformed ones are refused.",
     ["inputs"],
     "all expressions over 9 elements up to 3 per clause (thorough: 4, and three clauses), pairs of clauses, numbers "
     "to 69 and at all size limits; every subset of signer positions",
     "Threshold arithmetic decides every acceptance; tests sample a few expressions.",
     ["src/keri/core/coring.py"], [("Tholder", "src/keri/core/coring.py")],
     "exhaustive enumeration of threshold expressions and signer sets against exact rational arithmetic",
     "Complete within the grammar bound.",
     "states = (expression, signer set) pairs; a transition is one evaluation in one form compared", SHIM)

prop("K05", "What is stored is enough: restart and export lose nothing",
     "In every reachable database, a process restarted from it shows the same key states and reacts to every next "
     "message and escrow pass with the same stored content as the process that kept running; and the log exported "
     "from it (per identifier, whole store, or with delegators; either framing; all at once, piecewise or twice) "
     "rebuilds the same logs, key states, signatures and receipts in another validator.",
     ["crash_points", "histories"],
     "every database reachable by the message pools and delegation cases of K03 and K06 up to depth 4 (thorough: 5) "
     "and the scenarios of K02; every next message after each; every export order and framing",
     "Restart and replay at one point of one log is what tests try; any history may precede it.",
     [EVT, "src/keri/db/basing.py"],
     [("Kever.reload/_stateFromKeyState", EVT), ("Baser.reload", "src/keri/db/basing.py"),
      ("Baser.clonePreIter/cloneAllPreIter/cloneDelegation", "src/keri/db/basing.py")],
     "breadth first exploration of all reachable databases of the real event processor; in each, lockstep "
     "comparison of restarted and running process over every next action, and export/import comparison",
     "Complete for the pools up to the depth. Exports whose approvals were superseded afterwards are excluded.",
     "states = distinct database contents; a transition is one action compared or one export rebuilt", SHIM)

prop("K08", "Cleaning a database keeps all that verifies and nothing else",
     "Baser.clean leaves the same logs, first seen order and times, key states, signatures, receipts, seals, own "
     "identifiers, end points and other kept tables; whatever in a log no longer verifies goes with all that follows "
     "or was approved by it, without touching other logs. Whenever it dies before replacing the database nothing of "
     "the database is lost, and cleaning again then gives the same result.",
     ["crash_points", "histories"],
     "every database reachable by the pools and cases of K03 and K06 up to depth 3 (thorough: 5); every event of every "
     "scenario corrupted in 4 ways; death before every third (thorough: every) commit and every file operation; every "
     "content of 2 keys and values of each other table",
     "It replaces the only copy of the logs; the tests clean one log of one identifier.",
     ["src/keri/db/basing.py", EVT], [("Baser.clean", "src/keri/db/basing.py")],
     "exhaustive fault injection and state enumeration: the real clean on every reachable and every singly corrupted "
     "database, dying at every commit and file operation",
     "Complete within the bounds. End points without a known place are dropped by design.",
     "states = distinct databases cleaned (or deaths); a transition is one comparison before/after", SHIM)

ROU = "src/keri/core/routing.py"
prop("K09", "Of all signed replies about a place the best available one is in force",
     "A reply (end point role, location, watched identifier) takes effect only when enough keys of the identifier it "
     "speaks for signed it; it replaces the one in force exactly when it is later (by the event of its keys, then by "
     "date), whatever the order, duplicates, partial, forged or foreign signatures and waiting. The reply in force "
     "stays stored with date and sufficient signatures; replies about other places are untouched.",
     ["schedules", "histories", "inputs"],
     "every history up to depth 4-5 (thorough: 6) over 4 mixes of replies x 3 kinds, log events, escrow passes and "
     "timeouts; every sequence of 2 (thorough: 3) of 29 replies about 11 places, good and bad, in 5 validator settings",
     "Replay and reordering of old authorizations is the attack this rule stops; tests deliver two replies in order.",
     [ROU, EVT], [("Revery.acceptReply/processEscrowReply", ROU), ("Kevery.processReply*", EVT)],
     "breadth first exploration of all reachable databases of the real parser, router and reply processing, in "
     "lockstep with a reference of the update rule",
     "Complete for the mixes up to the depth. Equal rank may go either way.",
     "states = distinct database contents reached; a transition is one message, escrow pass or timeout compared", SHIM)

prop("K10", "Every good receipt is recorded in its place, and nothing else is",
     "A receipt in any form (witness, watcher, other log's key, attached to a replay) that verifies against the event it "
     "names ends up recorded once under that event and receiptor - as witness signature at the right index exactly if the "
     "receiptor is a witness of that event - whatever arrives first, whatever bad parts share its message and wherever "
     "the process dies. Nothing else is recorded under an accepted event; own receipts from elsewhere are left out.",
     ["schedules", "crash_points", "histories", "inputs"],
     "every history up to depth 3 (thorough: 5) over 8 pools of 6-9 messages, with escrow passes and restarts, each completed in "
     "two orders; death at every commit of every message after prefixes of two orders; 40 settings of own receipts",
     "Acceptance and duplicity detection stand on receipts; which comes first, event or receipt, is up to the network.",
     [EVT], [("Kevery.processReceipt", EVT), ("Kevery.processEscrowUnver*", EVT)],
     "breadth first exploration of all reachable databases of the real parser and event processing, in lockstep with a reference "
     "that knows where each signature belongs",
     "Complete for the pools up to the depth. Receipts of replaced events and receipts attached to events not accepted on "
     "arrival are outside.",
     "states = distinct database contents reached or left by a death; a transition is one message delivered", SHIM)

prop("K11", "The parser hands on exactly the messages of a stream, however it arrives",
     "From any well formed stream (every kind of body and serialization, every attachment group, text or binary, every "
     "nesting of counted frames, both versions) the processors get each message once, in order, with exactly its "
     "attachments, whatever pieces it arrives in. A damaged byte yields no altered message, and inside a counted group "
     "costs no more than that group. The parser never hangs and works on afterwards.",
     ["inputs", "schedules"],
     "all attachment kinds x counts x frames x domains x versions x kinds alone and among others; all two-piece (quick: "
     "every 11th) and bytewise arrivals; every byte (quick: every 7th) damaged in 1-4 ways, alone in framed and "
     "bytewise streams",
     "All keri traffic goes through it; the tests parse a handful of whole streams and one damaged frame.",
     ["src/keri/core/parsing.py", "src/keri/core/coring.py", "src/keri/core/serdering.py"],
     [("Parser.parsator/groupParsator/msgParsator", "src/keri/core/parsing.py"),
      ("Matter._exfil", "src/keri/core/coring.py")],
     "exhaustive enumeration of streams, arrival schedules and single byte faults through the real parser with "
     "recording processors, against streams framed by an independent encoder",
     "Complete for the listed compositions and cuts. Damage to a top level counter may flush what has arrived.",
     "states = streams x arrivals x damages parsed; a transition is one piece delivered or message compared", SHIM)

COR = "src/keri/core/coring.py"
prop("K12", "Replay protection passes each good message on once, and no other",
     "With replay protection on, a request or exchange message is passed on only inside the time window of the most specific "
     "setting for its kind, and only with the authority of its sender's current keys (signatures to threshold, also "
     "collected over several deliveries) or a seal in its sender's log; never a second time, whatever is redelivered, pruned "
     "or restarted in between. A new message in time and so signed is passed on. Only verified sender signatures go along.",
     ["histories", "inputs", "schedules"],
     "every history up to depth 5 (thorough: 7) of 15 pools of 5-14 actions: deliveries in each form of authentication (and "
     "forged ones), passing time, pruning, restart, key change, interaction; all combinations of 8 kinds of settings",
     "A replay needs a particular order of time, pruning and redelivery; the tests follow single scripts.",
     ["src/keri/core/kraming.py", EVT], [("Kramer.kramit/intake/_prune*", "src/keri/core/kraming.py"), ("Kevery.processMsg", EVT)],
     "breadth first exploration of all reachable states of the real replay protection under a controlled clock, in lockstep "
     "with a reference that knows what must, may and must not be passed on",
     "Complete for the pools up to the depth. Change of settings at run time, a clock going back, and messages exactly on the "
     "edge of their window are outside.",
     "states = distinct contents of the caches with clock, key states and what was passed on; a transition is one action", SHIM)

EXC = "src/keri/peer/exchanging.py"
prop("X01", "Exchange messages count as their sender signed them, and once so stay so",
     "An exchange message is stored and handed to its handler exactly when one key state in its sender's log (for a sender "
     "without a log: its key) signed it to threshold, on one arrival or collected over several, also when the log comes later "
     "within the waiting time. Partial, forged, stripped or foreign copies neither hold this up nor alter what is stored: it "
     "can always be given to others, attachments and payload included, and convinces them.",
     ["histories", "crash_points", "inputs", "schedules"],
     "every history up to depth 5 (thorough: 7) of 6 pools of 8-14 actions (copies, log events, escrow passes, time, restart); "
     "death at every commit of every action after every first action",
     "Whether a copy does harm depends on what came before it; the tests send each message once.",
     [EXC], [("Exchanger.processEvent/processEscrow/logEvent", EXC), ("serializeMessage/verify", EXC)],
     "breadth first exploration of all reachable databases of the real parser and exchanger, in lockstep with a reference that "
     "knows who signed what; each stored message is exported and replayed to a fresh receiver",
     "Complete for the pools up to the depth. Repeated handling of a message that arrives again whole, nested (version 2) parts and "
     "group members' lead are outside.",
     "states = distinct database contents with clock and what was sent; a transition is one action", SHIM)

IPX = "src/keri/acdc/ipexing.py"
prop("X02", "An issuance or presentation message is accepted only where the exchange allows",
     "An IPEX message (apply, offer, agree, grant, admit, spurn) is accepted exactly when it opens an exchange, if its kind may, or "
     "answers an accepted message of a kind it may answer that nothing else of the protocol has answered. The first answer stays the "
     "answer, and is told as such; messages of other protocols neither are nor displace one. The user is told once of each message "
     "accepted, by its own text, and never of one that is not.",
     ["histories", "crash_points", "inputs", "schedules"],
     "every history up to depth 5 (thorough: 8) of 6 pools of 7-10 messages with escrow pass and restart; all pairs of verbs; death at "
     "every commit of every action after every first action and every conversation so far, then each other message first",
     "Which of two answers is the answer depends on order, waiting and death between two writes; the tests follow one conversation.",
     [EXC, "src/keri/vc/protocoling.py", IPX],
     [("IpexHandler.verify/handle/response", "src/keri/vc/protocoling.py"), ("Exchanger.processEvent/logEvent", EXC)],
     "breadth first exploration of all reachable databases of the real parser, exchanger and IPEX handlers, in lockstep with a reference "
     "of which message answers which; fault injection at every commit",
     "Complete for the pools up to the depth. Who answers is not bound to whom was asked (the protocol leaves it open); a message handled "
     "again when it arrives whole again may notify again.",
     "states = distinct database contents with what is accepted; a transition is one action", SHIM)

prop("K13", "What an agent itself controls or approves is never decided from afar",
     "An event of an identifier the agent itself controls, of one it is witness of, or one its own identifier delegates, is accepted "
     "only after it came from the agent itself (a delegated one only with its delegator's anchor); of a group, the signature of the "
     "agent's own member counts only if made here. Copies from afar, however signed, whole, partial or rival, before or after, on arrival "
     "or from escrow, neither decide anything nor keep the true events from being accepted when they come from here.",
     ["histories", "crash_points", "schedules"],
     "every history up to depth 4 (thorough: 6) of 12 cases of 5-12 actions (copies whole, partial, rival, from here and from afar, "
     "escrow passes, restart); after each, all comes from here; death at every commit of every action after every first action",
     "Protection of the agent's own keys against their thief depends on what waits in which escrow; tests use local events alone.",
     [EVT], [("Kever.valSigsWigsDel/locallyOwned/locallyWitnessed/locallyContributedIndices", EVT), ("Kevery.processEscrow*", EVT)],
     "breadth first exploration of all reachable databases of the real parser and escrows, in lockstep with a reference of who may "
     "decide what; each state is then finished with the true events from here; fault injection at every commit",
     "Complete for the cases up to the depth. One identifier of each kind.",
     "states = distinct database contents with what was heard from where; a transition is one action", SHIM)

ORG = "src/keri/app/organizing.py"
prop("N01", "What an agent keeps for its controller is what it was told, whole or not at all",
     "Notes and pictures of contacts and of own identifiers, notices and mailbox messages read back, list, count and search exactly as "
     "what was last entered, whatever names and sequence; a message stays at its number of its topic. An entry that is refused, or "
     "interrupted by the end of the process, is there entirely or not at all, and keeps nothing else from being read or changed. "
     "Notes and notices altered behind the agent's back are never told.",
     ["histories", "crash_points", "inputs"],
     "every history up to depth 3 (contacts: 26 actions; mailbox: 13) and 5 (notices: 11) (thorough: one or two deeper); death at every "
     "commit of every action after every first action, then every action again; every byte of every signed entry changed",
     "Where the process ends between two writes decides what remains; the tests write and read.",
     [ORG, "src/keri/app/notifying.py", "src/keri/app/storing.py"],
     [("BaseOrganizer", ORG), ("Noter, Notifier", "src/keri/app/notifying.py"), ("Mailboxer", "src/keri/app/storing.py")],
     "breadth first exploration of all sequences on the real classes with a real controller, in lockstep with a reference; fault "
     "injection at every commit; exhaustive byte faults",
     "Complete for the actions up to the depth. Search patterns are plain text. Removing the last message of a topic frees its number.",
     "states = distinct contents; a transition is one action (or one damaged byte read)", SHIM)

prop("C01", "CESR primitives read and write exactly one value, whole or not at all",
     "Every primitive (Matter, Indexer, Counter, every code, soft part, index and size) is written as the text and "
     "binary the code tables prescribe, and read back from either, alone or in front of anything else, as exactly the "
     "same value, consuming exactly itself. Cut short anywhere it is reported as short, never as a value; with any "
     "character replaced it is refused or is precisely the other value the tables define: no two texts for one value.",
     ["inputs"],
     "every code of every table x representative raws, soft values, indices and counts x both domains x 4 following "
     "texts; every proper prefix; every single character (thorough: all 256 byte values) replaced at every position",
     "Signatures, digests and identifiers are compared and hashed as text; a second text of one value or a misread "
     "length is an attack. Tests check chosen examples of each code.",
     [COR, "src/keri/core/indexing.py", "src/keri/core/counting.py", "src/keri/help/helping.py"],
     [("Matter._infil/_exfil/_binfil/_bexfil", COR), ("Indexer._exfil", "src/keri/core/indexing.py"),
      ("Counter._exfil", "src/keri/core/counting.py")],
     "exhaustive enumeration of codes x values x cuts x single character faults through the real classes, each "
     "compared with an independent bit level encoder and decoder of the specified tables",
     "Complete over the codes and positions; raws and softs are representatives. Test-only codes with lead bytes of "
     "Indexer are excluded.",
     "states = (code, value, domain) read; a transition is one cut or replaced character read and compared", SHIM)

prop("C03", "Typed primitives carry exactly the value they were made from",
     "Number, Dater, Decimer, Labeler, Tagger, Verser, Bexter, Pather, Texter, Traitor and the like: what a value is made into reads "
     "back, from text and binary, as exactly that value; different values give different primitives; what cannot be "
     "carried exactly is refused, not altered; order of fixed width numbers and dates in text is the order of values; "
     "paths join, split and resolve as written.",
     ["inputs"],
     "numbers around every power of 2 up to 2^136 x all codes x all ways of giving them; all short texts over an "
     "alphabet of boundary characters; dates over all field boundaries and zones; decimals over all exponents and forms",
     "Sequence numbers, dates and labels decide validity; tests check a few of each, and the failures sit at "
     "boundaries (leading zeros, escapes, signs, exponents).",
     [COR], [("Number/Dater/Decimer/Labeler/Tagger/Bexter/Pather", COR)],
     "exhaustive enumeration of boundary value spaces through the real classes in every form they travel in, against "
     "exact arithmetic and an independent encoder",
     "Complete within the listed alphabets and lengths.",
     "states = values made; a transition is one form read back and compared", SHIM)

SER = "src/keri/core/serdering.py"
prop("C02", "A message reads as what was written; what does not commit to itself is refused",
     "Every message type of both versions, in JSON, CBOR, MGPK and native binary, made from its fields has the prescribed "
     "bytes, version, size and said, and reads back, alone or in front of anything, as exactly its fields. A message whose "
     "said (or inception prefix) is not the digest of its content, whose fields are missing, surplus, out of order or of "
     "another type, or with any byte changed or missing, does not verify, whichever way it is given.",
     ["inputs"],
     "all message types x versions x serializations x digest codes x representative fields; every field removed, "
     "swapped, added, replaced; every byte (quick: a stride) changed and every cut; all forms it can be given in",
     "The said is the identity that signatures, seals and logs rely on. Tests check chosen messages of each type.",
     [SER, COR], [("Serder.__init__/_verify/makify/_dumps/_loads", SER), ("SerderKERI._verify", SER),
                  ("SerderACDC._verify", SER)],
     "exhaustive enumeration of messages and their single field and byte changes through the real classes, against an "
     "independent encoder, digest computation and field tables",
     "Complete over types, serializations and positions; field values are representatives.",
     "states = messages made; a transition is one changed or cut message given and its refusal compared", SHIM)

MAP = "src/keri/core/mapping.py"
prop("C04", "A credential has one said whatever is disclosed; no disclosure can lie",
     "All disclosures of a version 2 credential, each section and each nested block full or as its said, at every depth, "
     "and aggregates with any elements shown, have the same said as its most compact form, verify, and compact to it. "
     "No disclosure with any value, block, label or embedded said altered, added, removed or moved verifies (an embedded "
     "said may be empty, not yet filled in).",
     ["inputs"],
     "section shapes to three levels with and without saids between (some to five), x all disclosures x 4 serializations "
     "x 4 credential types x digest codes; every leaf and said replaced, removed, added; aggregates of up to 1 (3) elements x all subsets shown",
     "Selective disclosure rests on the said being the same for all forms and on nothing else fitting it.",
     [MAP, SER], [("Compactor.trace/compact/expand", MAP), ("Aggor.disclose/verifyDisclosure", MAP),
                  ("SerderACDC._verify/makify", SER)],
     "exhaustive enumeration of block shapes, disclosures and single changes through the real classes, against saids "
     "computed from the inside out by an independent encoder",
     "Complete over the shapes. Sections without a said of their own are not compacted and only verify as they are.",
     "states = disclosures made; a transition is one changed disclosure given and its refusal compared", SHIM)

HAB = "src/keri/app/habbing.py"
KEE = "src/keri/app/keeping.py"
prop("M01", "The keystore keeps every promised key, in order, secret and through crashes",
     "Rotation always moves to exactly the keys committed to before; current and next keys sign, at the asked indices, until "
     "erased, and erased ones never again; keys are never shared between identifiers. With a seed set nothing secret is stored in "
     "plain text, no other seed opens the keystore, changing or removing the seed loses nothing. A process that dies "
     "at any moment of any operation, and starts again, has all keys promised before and can go on.",
     ["histories", "crash points", "inputs"],
     "all sequences of 3 (thorough: 4) of ~20 operations (incept, rotate, replay, move, ingest, change seed, restart, mistakes) on "
     "salty and random keys, dying at every commit; all index choices for signing; 300 identifiers x 20 rotations",
     "A lost or shared key loses the identifier for good; tests run one history and never die.",
     [KEE, "src/keri/db/subing.py", "src/keri/core/signing.py"],
     [("Manager.incept/rotate/replay/move/ingest/sign/updateAeid/setup", KEE),
      ("CryptSignerSuber", "src/keri/db/subing.py"), ("Encrypter/Decrypter", "src/keri/core/signing.py")],
     "exhaustive enumeration of operation sequences and crash points on the real manager and store, in lockstep with a "
     "reference of what its callers were told",
     "Complete to the depth. One key path collision is a known finding.",
     "states = keystores audited (every key of every set signs or not, secrets scanned); a transition is one operation or death", SHIM)

prop("M02", "A controller that dies at any moment goes on, and never contradicts itself",
     "After any operations on its identifiers, with the process dying at any moment and starting again, every event the "
     "controller was told of is in its log, at most the interrupted one more; nothing replayed can later be contradicted. Its keys "
     "sign, a validator that sees the replay reaches the same state, the interrupted operation can be repeated, and rotations and "
     "interactions go on. A refused rotation changes nothing. Names never block.",
     ["histories", "crash points", "inputs"],
     "9 kinds of identifier x all sequences of 3 (thorough: 4) of ~15 operations (make, rotate, interact, wrong rotations, restart, "
     "delete) of up to two identifiers, with and without encrypted keystore, dying at every commit of keystore or database; two deaths in a row for rotations",
     "Keys, log and names live in two databases; tests never end a process between them.",
     [HAB, KEE, "src/keri/db/basing.py", "src/keri/core/eventing.py"],
     [("Habery/Hab.incept/rotate/interact", HAB), ("Manager", KEE), ("Baser.reload/clonePreIter", "src/keri/db/basing.py")],
     "exhaustive enumeration of operation sequences and crash points on the real controller, in lockstep with what it was told "
     "and with a remote validator",
     "Complete to the depth.",
     "states = controllers audited after an operation or a death and restart; a transition is one sequence", SHIM)


VDR = "src/keri/vdr/eventing.py"
prop("R01", "Only the issuer acts on its registry, and everyone sees the same",
     "A registry log a validator accepts is anchored event by event in the log of the registry's issuer, follows its own chain, has "
     "its backers' signatures to the threshold, and issues or revokes only credentials of that registry, each issued once, then "
     "revoked at most once. The state reported is that of the log, also after a restart. Whatever order genuine events arrive in, among "
     "forgeries, and wherever the validator dies, the genuine logs complete and can be passed on.",
     ["histories", "crash points", "adversaries", "inputs"],
     "8 pools of 7-9 messages (backerless and backed registries, rotations, strangers with own registries, rivals, wrong places, "
     "missing backers, key event logs that arrive late): all histories of 4 (thorough: 6) deliveries, escrow passes and restarts, "
     "from each of which the genuine rest arrives in order and in reverse; death at every commit of every message along each pool",
     "Tests deliver a handful of registry events in order, by one issuer.",
     [VDR],
     [("Tevery.processEvent/processEscrows", VDR), ("Tever.update/issue/revoke/vcState", VDR), ("Reger.clonePreIter", VDR)],
     "explicit-state search of the real Tevery over delivered messages, escrow passes, restarts and deaths, judged by an independent "
     "statement of the rules",
     "Issuers do not fork their own logs or recover over an anchor; an anchoring event carries one seal.",
     "states = distinct contents of the validator's databases and registry states with what was delivered; a transition is one "
     "delivery, escrow pass or restart", SHIM)

VER = "src/keri/vdr/verifying.py"
prop("V01", "A credential is valid exactly when issuer, registry, schema and chain say so",
     "A credential a validator takes as valid was issued in a registry of its issuer, satisfies its schema, and each of its edges "
     "leads to a valid credential that is not revoked, has the schema asked for and may be pointed at by this issuer and issuee under "
     "the edge's operator. It is kept as it came and can be looked up. Whatever order credentials, registry events and schemas arrive in, "
     "and wherever the validator dies, all that are valid are taken in the end and none is forgotten.",
     ["histories", "crash points", "adversaries", "inputs"],
     "4 pools of 6-8 messages (chain over three issuers with intruders; everything late; revocation in between; several edges): all "
     "histories of 3 (thorough: 5) deliveries, escrow passes and restarts, each completed in order and in reverse; death at every "
     "commit along each pool forwards and backwards; 17 edge operators x issuees x issuers x edge schema x revocation = 1632 edges; "
     "10 waiting times x 5 things waited for x passes on the way; 9 x 9 x 3 ages of registry states against the age allowed",
     "Tests verify a few credentials delivered in order.",
     [VER, VDR],
     [("Verifier.processCredential/verifyChain/processEscrows/saveCredential", VER), ("Tever.vcState", VDR)],
     "explicit-state search of the real Verifier over delivered messages, escrow passes, restarts and deaths plus complete "
     "enumeration of edges, judged by an independent statement of the rules",
     "A credential whose taking in was interrupted and which is no longer valid when it arrives again stays out of the indices; "
     "revoked credentials are taken (their state tells); schemas use required fields only.",
     "states = distinct contents of the validator's databases with what was delivered, or edges judged; a transition is one delivery, "
     "escrow pass or restart", SHIM)

prop("K14", "What waits in escrow waits its time, no shorter and no longer",
     "A message that arrives before what it needs is used as if it came in order when what it needs comes within the time its "
     "escrow allows, counted from its own arrival (for an event its first), and is dropped, never to be used, by the first escrow "
     "pass after that time: whatever else arrived before, between or since, and however long ago other messages about the same "
     "event came. Nothing else is dropped or kept for it.",
     ["histories", "schedules"],
     "all scenarios of K02 cut into two batches in every way (long ones: up to 2 held back or sent ahead; thorough: all), either order, "
     "and into three; waits just within, just over each time, a day and more, with passes before and after each batch",
     "The tests either never let time pass or let a single message expire; the times interact through shared dates.",
     [EVT], [("Kevery.escrow*/processEscrow*", EVT)],
     "exhaustive enumeration of arrival schedules on the real processor under a controlled clock, against the same history without "
     "clock from which what waited too long is taken by hand",
     "Complete for the scenarios and times. What comes again after it was dropped may, but need not, wait again. Escrows of replies, "
     "credentials, exchange messages and queries are in K09, V01, X01 and Q01.",
     "states = histories carried out and compared; a transition is one delivered message", SHIM)

prop("Q01", "Every question about a log is answered once, right, when the answer is there",
     "A query for a log (whole, from an entry on, up to a number, or with an anchor), a key state or a mailbox, by an asker with or "
     "without a log of its own, is answered to that asker exactly once: at once if what it asks for is there and fully witnessed, "
     "else at the first escrow pass after it is, within the query's time; the answer holds exactly the events asked for, or the "
     "present state; restarts change nothing; what outlived its time is dropped.",
     ["histories", "schedules", "inputs"],
     "every sequence up to depth 6 (thorough: 8) of three questions, the events of the log, late receipts, passes, waits and restarts, "
     "for 12 cases (numbers, anchors, states; from afar or as witness; asker with or without log)",
     "An answer depends on what arrived in which order around it; tests ask one question once.",
     [EVT], [("Kevery.processQuery/processQueryNotFound/escrowQueryNotFoundEvent", EVT), ("Parser.msgParsator", "src/keri/core/parsing.py")],
     "breadth first exploration of all reachable states of the real query processing in lockstep with a reference of what is due",
     "Complete for the cases up to the depth. Queries about registries, and signatures on queries, which nothing verifies, are outside.",
     "states = distinct database contents with waiting questions and ages; a transition is one action whose answers are compared", SHIM)

prop("Q02", "Who asks knows afterwards what the one asked knows",
     "A question about a log, a key state, a registry or a credential's state that is answered by an agent — with its answer signed "
     "by an identifier with or without a log, sent at once or by its post office — leaves the asker, whatever it had before, with the "
     "answerer's log and registry events if those go further than its own (for a registry once it also has the issuer's log), in the "
     "answerer's order and nothing else; a state notice is kept if it agrees with the asker's own copy, waits for what is behind it, "
     "and is never kept if it is older than that copy or comes from a source the asker does not know, unless it takes any; what the "
     "answerer does not have is not answered; answers go to the asker only.",
     ["histories", "inputs"],
     "pools of up to 13 messages (registry without backers, two issuers, backers; thorough: backers rotated): every beginning the answerer "
     "may have x every beginning the asker may have x every question (logs in 3 forms and key state of each issuer, registry events and "
     "states with no, empty, own, foreign and unissued credential) x ways of answering",
     "Tests take replies apart by hand; nothing in them carries an answer from the queried to the one who asked.",
     [EVT, VDR, "src/keri/app/habbing.py", "src/keri/app/storing.py"],
     [("Tevery.processQuery/processReplyRegistryTxnState/processReplyCredentialTxnState", VDR), ("Kevery.processQuery/processReplyKeyStateNotice", EVT),
      ("BaseHab.processCuesIter", "src/keri/app/habbing.py"), ("Respondant.cueDo", "src/keri/app/storing.py"), ("Broker", "src/keri/db/escrowing.py")],
     "complete enumeration of pairs of reachable states of answerer and asker, with the real question, answer and its delivery between "
     "them, against what the two knew",
     "Answers arrive whole and in order and in KERI version 1; losses and reordering of what is delivered are in K02 and R01.",
     "states = pairs of what answerer and asker have; a transition is one question, answered and delivered", SHIM)

prop("G01", "A group acts only when enough of its members agree on the very same event",
     "For a group identifier run by several members, each with its own keystore and database: an event of the group enters a member's "
     "log exactly when that member approved it and the signatures of members who approved the same event, its own and those in their "
     "messages, meet the group's current threshold and for a rotation the one set before; the order in which messages, approvals and "
     "restarts come does not matter; what each records are exactly those signatures; the group process counts as complete exactly "
     "then; members who join later, turn their keys, change places or leave count as the rotation says; another event in its place, "
     "even fully signed by the others or in an envelope that claims to be about the approved one, is noted for the controller at most; "
     "every member's log is valid to others.",
     ["histories", "schedules", "inputs"],
     "11 groups of 2 to 4 members (numeric and weighted thresholds, separate rotation members, joining, leaving, changed order, witnesses) x every "
     "member x every event: every order of approval, the others' messages, rivals, false envelopes, repeats and restarts; envelopes of "
     "version 1 and 2 with events of version 1 and 2; thorough: all combinations, and two events at a time",
     "Tests play one order for one group; a member's log depends on what came when and on who signed what.",
     ["src/keri/app/grouping.py", "src/keri/app/habbing.py"],
     [("Multiplexor.add/validate/_replayApproved", "src/keri/app/grouping.py"), ("Counselor.processEscrows", "src/keri/app/grouping.py"),
      ("GroupHab.incept/rotate/interact/sign", "src/keri/app/habbing.py"), ("Habery.makeGroupHab/joinGroupHab", "src/keri/app/habbing.py")],
     "complete enumeration of the local histories of each member running the real code, all others' messages being what the real "
     "members send, against a reference that counts who approved what",
     "What a member sends depends on its own approvals only, so the histories of one member at a time cover all schedules of the whole. "
     "With witnesses the process counts as complete when all receipts are there (and, for the member who asks the witnesses, it has its "
     "answer: that request is kept in memory only, so restarts while it is open are outside). No delegator of the group (see K06); what "
     "travels between members is not lost for good.",
     "states = histories of one member; a transition is one approval, message or repeat, after which log, signatures, notices and completion are compared", SHIM)

prop("O01", "A link counts as last answered, and an answer brings only what proves itself",
     "An introduction by link (OOBI) that an agent is told — by its user, in a list that answers another link, or in an introduction "
     "signed by the very identifier it names — is asked for until it is answered, over restarts and deaths at any moment; not found, it "
     "is asked for again after the delay and not before; and it counts as its last answer makes it: resolved by a stream of events, by "
     "the schema whose said the link names, or by a list about the identifier the link names all of whose links resolve; failed by "
     "anything else, however malformed, none of which stops the agent. Only events that verify change what is known, only a schema "
     "asked for by its said is kept, a name is given only to the identifier the link itself names (one that names none: the one the "
     "answer names); a well-known link vouches for a known identifier exactly when it is answered with a status of 200 to 399.",
     ["histories", "crash points", "inputs"],
     "8 links of every form told with and without name x 34 kinds of answer x waits x restarts: all histories of up to 5 to 7 steps with the "
     "common answers and 2 with all (thorough: 7 to 10, and 3); death before every commit of 1 to 4 steps; signed introductions: known or "
     "not x signer x named identifier x 8 urls x route; well-known links x 8 statuses x restarts",
     "Tests resolve one link over a live server, once, with a good answer.",
     ["src/keri/app/oobiing.py"],
     [("Oobiery.processFlows/processOobis/processClients/processMOOBIs/processRetries/processReply", "src/keri/app/oobiing.py"),
      ("Authenticator.processFlows", "src/keri/app/oobiing.py")],
     "breadth-first exploration of all histories of the real resolver over a stand-in for the network that gives the answer the history "
     "says, in lockstep with a reference of links and outcomes; a death at every commit",
     "The connection itself is not part of it (an answer comes whole or not at all). Each told link is looked at after the resolver has "
     "come to rest.",
     "states = distinct states of links, outcomes, logs, schemas and names; a transition is one telling, answer, wait, restart or death", SHIM)

prop("O02", "What an agent answers at its OOBI is what it holds, and the asker knows it then",
     "Asked by OOBI, an agent answers about an identifier of its own, one it is a witness of, or, unnamed, the default one, when its latest event "
     "is fully witnessed, and about no other. A controller that knew nothing then knows the identifier's whole log, the endpoints "
     "authorized in the role and by the endpoint asked for (all, if none is), none that was cut, and the latest location in each scheme of those "
     "endpoints and, in the role of witness, of its witnesses as of its log; and nothing else. Being asked changes nothing.",
     ["inputs"],
     "9 facts, each absent, there, or changed since (locations set, moved and withdrawn, endpoints in two roles authorized and cut, a witnessed "
     "identifier's event with and without enough receipts) in 348 (thorough: all 2592) combinations x 110 requests over 6 identifiers, 5 roles and 5 endpoints",
     "Tests ask for one endpoint of one state.",
     ["src/keri/end/ending.py", "src/keri/app/habbing.py"],
     [("OOBIEnd.on_get", "src/keri/end/ending.py"), ("BaseHab.replyEndRole/replyToOobi/replyLocScheme/loadLocScheme/loadEndRole", "src/keri/app/habbing.py")],
     "complete enumeration of what is held and asked on the real endpoint, each answer handed to a real controller that knows nothing",
     "How the asker takes answers in general is O01, which reply is in force is K09. Habitats whose keys are remote (SignifyHab) are not covered.",
     "states = combinations of facts held; a transition is one request answered", SHIM)

prop("X03", "A web request carries its message whole; signed is what every key signed",
     "A stream of messages sent as web requests makes one request of each message, with its attachments and no others, and arrives at the other "
     "end byte for byte as it was. A signed request is let through exactly when each current key of the controller "
     "signed the very body, in its own place, in whatever order and beside whatever other signatures; a missing, foreign, earlier or "
     "misplaced key's signature, a changed body, an unknown controller or an unusable header never is. A signature header that is written reads as it "
     "was written: signers in their order, each with its signatures by their labels and whether they are indexed.",
     ["inputs"],
     "every stream of up to 3 (thorough: 4) of 8 messages; 1 to 3 (thorough: 4) keys, turned or not, x 6 ways to sign per key x 5 forms of header x "
     "same and changed body x own and unknown controller; 240 signers alone and in pairs",
     "Tests sign one request with one key.",
     ["src/keri/app/httping.py", "src/keri/end/ending.py", "src/keri/app/indirecting.py"],
     [("streamCESRRequests/createCESRRequest/parseCesrHttpRequest", "src/keri/app/httping.py"), ("SignatureValidationComponent", "src/keri/app/httping.py"),
      ("signature/designature", "src/keri/end/ending.py"), ("HttpEnd.on_post", "src/keri/app/indirecting.py")],
     "complete enumeration on the real functions, with a recording web client",
     "Bodies in JSON; Signature-Input headers (RFC 8941 library not installed) are not covered.",
     "states = combinations of how the keys signed, header contents and streams; a transition is one request or header", SHIM)

prop("D01", "A delegated event is taken as done only once its delegator has approved it",
     "When a delegate asks for approval of its inception or a later rotation, the event and the request go to the delegator once, as soon as "
     "all its witnesses have receipted it and been told of one another's receipts, and not before. It counts as approved exactly when the "
     "delegator's log as it then stands holds a seal of that very event: a seal of another number or digest, or one superseded by a "
     "recovery, does not count. The approval is recorded for that event and no other, with the place that approves it, also when the delegate "
     "has gone on since. It is then published to the delegate's witnesses, and only when that is sent is the delegation done. Delegates do not hold one "
     "another up; every delegation whose steps are all taken, in any order, gets done, and a validator then accepts the delegate.",
     ["schedules", "history"],
     "every order, up to depth 6 (thorough: 10), of 16 actions of two delegates (with and without witness) and their delegator: requests, receipts, "
     "approvals, look-alikes, recovery of the delegator, rotation of the delegate, publication, escrow passes; from every state at depth 4 "
     "(thorough: 6) the rest is done and must finish",
     "Tests follow one approval in one order.",
     ["src/keri/app/delegating.py"],
     [("Anchorer.delegation/processEscrows/complete", "src/keri/app/delegating.py"), ("fetchLastSealingEventByEventSeal", "src/keri/db/basing.py")],
     "explicit-state search over the orders of actions on the real anchorer, habitats and databases, in lockstep with a reference protocol",
     "One process: what the anchorer keeps in memory (publishers, cues of the receiptor) does not survive its end, so a delegation under "
     "way then needs to be asked for again. Delegations of one delegate are asked for one after another.",
     "states = distinct protocol states per first action; a transition is one action", SHIM)

prop("E01", "A witness's web endpoints receipt what it accepted and tell its log as it is",
     "A witness that is posted an event answers with its receipt exactly when the event is then in its log and it is a witness of it: one "
     "posted forged, with the wrong keys, unsigned, at odds with the log, ahead of it, or of an identifier that is not its own to witness "
     "is never signed, whatever was posted before and whatever waits in escrow. Asked for the receipt of an event in its log, by number "
     "or by digest, it gives its own receipt of that very event (the last at that number, if superseded), which a validator takes as "
     "one, as long as it is that event's witness; asked for what is not in its log, it gives no signature. Asked for a log, from a number or whole, it "
     "gives all of the log from there, in order, and nothing else. What is asked changes nothing in the log.",
     ["inputs", "history"],
     "every sequence of up to 4 (thorough: 6) posted events out of 15 of 3 identifiers (good, forged, wrong keys, unsigned, another's "
     "signature, recovery, witness cut, witness added) and passes over the escrows; after each new state every receipt and every log query",
     "Tests post one good event.",
     ["src/keri/app/indirecting.py"],
     [("ReceiptEnd.on_post/on_get", "src/keri/app/indirecting.py"), ("QueryEnd.on_get", "src/keri/app/indirecting.py"),
      ("BaseHab.witness/processCuesIter", "src/keri/app/habbing.py")],
     "explicit-state search over the sequences of requests on the real endpoints of a real witness, with a recording stand-in for the web "
     "framework; each receipt given is handed to a real validator",
     "The queries for credentials' logs (tel) need a registry and are V01's and T01's matter; cues of kind query are not worked off.",
     "states = distinct contents of log and escrows; a transition is one request", SHIM)

prop("W01", "Reports of watchers are judged as what they are: even, ahead, behind or at odds",
     "When a controller has the reports of its watchers about a log judged, those it has asked to watch that log and not put off count, "
     "and no others: duplicity is told exactly when a report is at odds with the own log at its last event or reports that are ahead "
     "are at odds with one another about the same place; otherwise a new state exactly when at least the threshold of them (all, if none "
     "is given) report the very same event ahead, and then the latest such event; otherwise, with none ahead, lagging exactly when some "
     "are behind, and consistency when none is; a threshold above their number is refused; the watchers concerned are named; the order "
     "in which they reported does not matter; the own log never changes.",
     ["inputs"],
     "own log of 1 to 3 events x up to 3 (thorough: 4) watchers, each silent, put off, never asked, asked about another log, or reporting any "
     "place of either of two logs that part after the first event, up to 2 events past the own x every threshold",
     "Tests judge one watcher's report.",
     ["src/keri/app/watching.py"],
     [("Adjudicator.adjudicate/performAdjudications", "src/keri/app/watching.py"), ("diffState", "src/keri/app/watching.py")],
     "complete enumeration of own logs, reports and thresholds on the real adjudicator, with key states of real logs, against a "
     "reference judgement",
     "How the reports get there is Q02 and K09.",
     "states = combinations of own log and reports; a transition is one judgement", SHIM)
