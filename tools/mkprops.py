#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the entries stay consistent).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

DIR="protocol/directory/directory.go"; PAD="merkletree/pad.go"; MT="merkletree/merkletree.go"; SB="application/serverbase.go"; SRV="application/server/server.go"; CC="protocol/client/consistencychecks.go"; AUD="protocol/auditor/auditor.go"; AL="protocol/auditlog/auditlog.go"; BOT="application/bots/twitterbot.go"; KV="storage/kv/leveldbkv/leveldbkv.go"

p("C01","Concurrent service behaves like one atomic directory",
 "Whatever the interleaving of concurrent client connections, epoch changes and policy reloads, the answers of a running key server are those of some sequential order of the requests and epoch changes that respects real time: a completed registration or epoch change is visible to every request sent afterwards. All parts of one answer (result code, proofs, signed tree roots, promise) describe the same instant of the directory, and no request, epoch change or reload makes the server stop answering.",
 ["schedules","histories"],"all interleavings of handler threads, epoch timer, reloads; all request histories",
 "The tests send one request at a time and never overlap a request with another request, an epoch change or a reload.",
 [SB,SRV,DIR,PAD],[("read/write lock around request handling, epoch update and reload",SB),("pending tree + temporary bindings",DIR)],
 [("directory","pending tree, snapshots, outstanding promises",DIR)],["bytes returned on each client connection"])
p("C02","A name is bound once and every promise is kept",
 "In the life of a directory a name is registered successfully at most once, and the key of that registration is what every later lookup returns: as a signed promise until the next snapshot, then as a proof of inclusion in the next snapshot and in every later one. Repeated or conflicting registrations never change the key and are answered as 'already registered' with the bound key (the proof of inclusion or the outstanding promise). A name never registered successfully is never reported as bound.",
 ["histories","inputs"],"all sequences of registrations, lookups, monitoring requests, epoch changes and policy changes, any names and keys",
 "Tests check one or two fixed names over one epoch change.",
 [DIR,PAD,MT],[("duplicate check in proof + promise table before insertion",DIR),("promises cleared when the snapshot containing them is taken",DIR)],
 [("promises","outstanding temporary bindings of the current epoch",DIR)],["directory answers"])
p("C03","Past snapshots never change",
 "The answer about a name in a past epoch that the server still retains is the same whenever it is asked, whatever registrations, epoch changes and policy changes happened since, and its proof verifies against the tree root published for that epoch. A name is shown absent in every snapshot taken before its registration was acknowledged and present, with its key, in every snapshot taken after.",
 ["histories","schedules"],"all interleavings of historical queries with registrations, epoch and policy changes",
 "Tests look at historical epochs only immediately after building them, with few leaves and no later insertions that reshape the tree.",
 [PAD,MT,"merkletree/node.go",DIR],[("deep copy of the tree at every snapshot","merkletree/merkletree.go Clone"),("snapshot table",PAD)],
 [("snapshots","epoch to signed root and tree copy",PAD)],["lookups in epoch, monitoring answers"])
p("C04","One gap-free signed history per directory",
 "A directory's epochs are numbered 0, 1, 2, ... without gaps or repeats; every signed tree root carries a valid signature of the directory key over all its content including the announced policies, names its predecessor's epoch and the hash of its predecessor's signature. For one epoch the directory never shows two different signed tree roots, in whatever kind of answer and at whatever time it is asked, and range answers contain exactly the requested epochs in order, capped at the latest.",
 ["histories","inputs"],"all histories of operations and all epoch ranges requested",
 "Tests check a handful of fixed ranges; range edges, caps and agreement between different request kinds over a history are not covered.",
 [PAD,"merkletree/str.go",DIR,"protocol/str.go"],[("hash chain over signatures","merkletree/str.go"),("range loops",DIR)],None,["signed roots in all answers"])
p("C05","An honest server never makes an in-step client raise an alarm",
 "A client that starts from the server's key and initial signed root, talks to an honest server at least once per epoch and checks every answer, accepts every answer to its registrations and lookups and reports the registered key (an attempt to register a name that is already bound to another key is reported as that conflict), under any delay, connection loss, retry or duplicate request and any number of other users. Inclusion and absence proofs in historical and monitoring answers verify against the signed tree root of the same epoch.",
 ["histories","fault_sequences","schedules"],"all workloads with lost, delayed, retried and duplicated requests and concurrent epoch changes",
 "The client-side checks have no tests at all (the test files are empty).",
 [CC,AUD,DIR,"merkletree/proof.go"],[("client state update and checks",CC)],[("client state","verified root, pinned keys, held promises",CC)],["client verdicts and reported keys"])
p("C06","A client never accepts an answer the evidence does not prove",
 "Whatever a malicious or corrupted directory or network sends, a client accepts an answer to a registration or lookup only if the signed tree root is correctly signed by the pinned key and extends (or equals) the root the client verified last, the private index is proven to belong to the requested name, the proof authenticates exactly the claimed presence or absence against that root, any returned promise is signed for that root, index and key, and the key is the expected one when one is expected. In every other case it reports an error.",
 ["inputs","fault_sequences","histories"],"all tampered, replayed, substituted, re-signed or mixed answers at any point of a history",
 "No test feeds a tampered answer to the client checks; proof tests alter one or two fields.",
 [CC,AUD,"merkletree/proof.go","crypto/vrf/vrf.go","protocol/tb.go"],[("signature, hash chain, VRF, authentication path and promise checks",CC)],None,["client verdicts"])
p("C07","Key substitution, broken promises, rollback and forks are caught",
 "Once a client has accepted a key for a name from an inclusion proof or a promise, it never accepts for that name another key or the name's absence in that or a later snapshot, and when a promise it holds is not honoured by the next snapshot it is shown, it reports a broken promise. A client never moves from one history of signed roots to another: a rollback to an older root, a skipped root or a fork is reported and leaves its verified root unchanged.",
 ["histories","fault_sequences","inputs"],"all strategies of a directory that holds its own signing key and misbehaves at any point of the history",
 "There is no test of the client; the directory used in tests is always honest.",
 [CC,AUD],[("pinned bindings, held promises, verified root",CC)],[("Bindings/TBs","pinned keys and held promises",CC)],["client verdicts"])
p("C08","Malformed answers never crash a client or auditor",
 "Any byte string received as an answer by a client or an auditor, including truncated, type-confused or structurally incomplete ones, is handled without a crash, is reported as an error unless it is a valid answer, and leaves the pinned keys and the audit log unchanged when it is rejected; an unparsable or structurally incomplete answer also leaves the verified signed root unchanged.",
 ["inputs","fault_sequences"],"all truncations, corruptions and structural mutations of answers at any point of a session",
 "Tests decode only well-formed answers plus one wrong type.",
 ["application/encoding.go","protocol/message.go",CC,AUD,AL,"merkletree/proof.go"],[("message validation","protocol/message.go"),("decoding","application/encoding.go")],None,["client and auditor verdicts, panics"])
p("C09","Hostile peers cannot crash or wedge the server",
 "Every connection that delivers one complete well-formed request gets exactly one complete answer to that request; one that delivers a malformed, truncated, oversized or unsupported request gets an error answer or a closed connection. No sequence of malformed, aborted, stalled or concurrent connections crashes the server, changes the directory, or keeps it from answering other clients.",
 ["inputs","schedules","fault_sequences"],"all byte sequences and disconnect/stall points on any number of concurrent connections",
 "Tests send two malformed messages sequentially; no aborted, stalled or concurrent peers.",
 [SB,SRV,"application/encoding.go"],[("per-connection handling, error answers, deadline",SB)],None,["bytes on connections, server liveness"])
p("C10","Read-only addresses can never change the directory",
 "A registration is carried out only if it arrives on an address whose configuration allows registration; on any other address it is refused with an error answer and has no effect on any later answer on any address. Lookups, historical lookups and monitoring are served on every address, and other request kinds on none.",
 ["configurations","schedules","histories"],"all address/permission configurations, all request kinds, concurrent use of several addresses",
 "Tests cover one registration on one read-only address.",
 [SB,SRV],[("per-address table of acceptable request kinds",SB)],None,["answers on all addresses"])
p("C11","Connections are bounded and shutdown is graceful",
 "A peer that stalls at any point is disconnected within a bounded time, and stalled peers do not delay answers to others. A shutdown requested at any moment completes within a bounded time, stops accepting new connections, lets requests already being handled finish with a complete answer, stops epoch changes, and leaves no background activity running.",
 ["schedules","fault_sequences"],"all stall points and all shutdown moments relative to connections, epoch changes and reloads",
 "Tests only shut down an idle server; stalls are never exercised.",
 [SB,SRV],[("connection deadline",SB),("stop channel and wait groups",SB)],None,["connection close times, shutdown return, later activity"])
p("C12","Epochs last as long as the signed policies say",
 "While the server runs, the snapshot of each epoch is followed by the next one after the epoch deadline that the server's policies announce in the signed root of that epoch, neither skipped nor issued early, with slack only for requests in progress; this holds from the first epoch, for configurations created by the server's own init command, and across policy reloads.",
 ["schedules","configurations","histories"],"all deadlines, reload times and request loads",
 "Tests use wall-clock timers of one epoch with a hand-built configuration and never reload.",
 [SB,SRV,"application/server/config.go"],[("epoch timer and update loop",SB)],None,["times at which new signed roots appear"])
p("C13","Policy reload is atomic under disk and config faults",
 "A reload signal at any moment either installs the complete new policy, visible in the signed roots at the latest from the second epoch change after it on, or, if the configuration or key files are missing, torn, unreadable or invalid at that moment, changes nothing; the server keeps serving in both cases, does not change its keys or its directory, and a later correct reload succeeds.",
 ["fault_sequences","schedules","configurations"],"all torn or faulty states of configuration and key files, all reload moments",
 "Tests reload once from a correct file and check only one field.",
 [SB,SRV,"application/server/config.go","application/config.go"],[("load into a fresh configuration, then apply",SRV)],None,["signed policies, answers after reload, liveness"])
p("C14","An audit log is a verified linear copy of each directory",
 "An auditor's history of a directory only ever contains the directory's signed roots in an unbroken, verified chain from the pinned initial root; answers that are duplicated, reordered, stale, with gaps, forged, or forked are refused and leave the whole log unchanged. After lost or delayed messages, a restart from its saved history, or a partition, an auditor that keeps polling an honest directory catches up to its latest root.",
 ["fault_sequences","histories","crash_points"],"all delivery orders, losses, duplications, restarts and forgeries of range answers",
 "Tests audit a fixed handful of ranges, in order, with single-field corruption.",
 [AL,AUD],[("check against the verified root, then the range, then insert",AL)],[("snapshots","observed roots by epoch",AL)],["audit verdicts, stored ranges"])
p("C15","Audit answers are exact and kept apart per directory",
 "For every directory an auditor knows and every valid epoch range up to the latest observed epoch, the auditor answers with exactly the signed roots it verified for those epochs, complete and in order; invalid ranges get an error, and unknown directories the error that says so. Activity on one directory never changes what is answered for another, and registering a known directory again is refused without effect.",
 ["histories","inputs"],"all interleavings of audits and queries over several directories, all ranges",
 "Tests use one directory and a few ranges.",
 [AL],[("history table keyed by hash of the initial root",AL)],None,["auditor answers"])
p("C16","Equivocation is exposed, and never falsely reported",
 "If a directory has shown a client and an auditor different signed roots for an epoch, then a client that compares its latest verified root with the auditor's answer ending at that epoch reports an inconsistency. If both have been shown the same history, the comparison raises no alarm when the auditor's answer ends at the client's epoch or one later, however messages were delayed or repeated.",
 ["histories","fault_sequences","schedules"],"all fork points, partitions of views between parties, message delays, ranges compared",
 "There is no test of the client's equivocation check.",
 [CC,AUD,AL],[("comparison with the auditor's range",CC)],None,["client verdict on auditor answers"])
p("C17","The registration bot registers only the sender's own name",
 "A registration request reaches the key server through the bot only when it is a well-formed registration for the account that sent it (account names compare without regard to case), and then the server receives exactly the bytes of that request, once, and the sender the server's answer (up to the 8192 bytes a message may have). Anything else (other names, other request kinds, malformed or truncated messages, messages from the bot itself or without the marker) never reaches the key server and, when it carries the marker and is not the bot's own, is answered with a malformed-message error.",
 ["inputs","schedules","fault_sequences"],"all direct messages and senders, any interleaving of messages and server or network faults",
 "Tests cover three messages with the server absent.",
 [BOT,"application/bots/bot.go"],[("name and type check before forwarding",BOT)],None,["bytes received by the key server, direct messages sent"])
p("C18","The bot answers each request once and cleans up, whatever fails",
 "While it runs and its stream is up, the bot answers every marked direct message it receives with exactly one direct message to its sender, also when the key server is down, resets, closes without answering or hangs (then with a directory error), keeps processing later messages, and five minutes after the answer, not before, deletes the request and the answer; a Twitter call that fails is given up and affects nothing else. At its start it deletes what earlier runs left over, as far as it can, and then listens. No message, fault or stop at any moment crashes the running bot or keeps it from ending.",
 ["fault_sequences","schedules","histories"],"all sequences of messages and faults of the key server, stream and Twitter interface, stop at any time",
 "Tests never run the bot loop.",
 [BOT,"application/bots/bot.go"],[("direct message handler, delayed deletion",BOT)],None,["Twitter calls made over time"])
p("C19","Acknowledged writes survive crashes, batches are atomic",
 "When a put, delete or batch write on the key-value store has returned successfully, its effect survives a crash or power loss at any later moment; a write in progress at the crash is found entirely or not at all, batches included, and no value is ever found that was not written for its key. After disk errors the store reports the failure and never returns wrong data.",
 ["crash_points","fault_sequences","histories"],"all crash points between storage operations, torn and lost unsynced writes, disk errors",
 "The store has no tests.",
 [KV,"storage/kv/kv.go"],[("synchronous writes",KV)],None,["reads after recovery"])
p("C20","The key-value store is an ordered, linearizable map",
 "Concurrent gets, puts, deletes and batch writes on the store take effect atomically in an order consistent with real time, a missing key is reported as not found, and an iterator shows exactly the entries of one instant inside its range, start included and limit excluded, in key order, forwards from the first and at the last. Prefix ranges cover exactly the keys with that prefix.",
 ["schedules","histories","inputs"],"all interleavings of concurrent operations, keys, ranges and background compactions",
 "The store has no tests.",
 [KV,"storage/kv/range.go"],[("wrapper over the storage engine",KV)],None,["results of store operations"])
p("C21","Initialisation never destroys or tears key material",
 "Creating a server, client or bot configuration never overwrites an existing file. After an interruption, crash or disk error at any point of initialisation, and any number of re-runs, loading the resulting files either succeeds with complete keys or is refused with an error, never a crash: no truncated key or initial signed root is ever accepted, and no private key is left paired with a foreign public key.",
 ["crash_points","fault_sequences"],"all crash points and disk errors during init, and re-runs after them",
 "Tests write one file once.",
 ["cli/coniksserver/internal/cmd/init.go","utils/utils.go","application/config.go","application/server/config.go"],[("existence check before writing, length checks on load","utils/utils.go")],None,["file contents, load results"])
p("C22","Answers reveal nothing about other users",
 "No answer to a request about a name contains the name, key or commitment opening of any other user, and proofs of absence never contain an opening. Private indices of different names are unrelated values under the server's secret, and the random values that hide bindings are fresh for every registration and every directory.",
 ["histories","schedules"],"all populations and request sequences, including lookups that end at another user's leaf",
 "Tests check one proof of absence in a two-leaf tree.",
 [MT,PAD,DIR,"crypto/util.go"],[("value and salt removed from foreign leaves",MT),("salted commitments","crypto/util.go")],None,["all bytes of all answers"])
p("C23","A failed registration leaves no trace",
 "When a registration fails because randomness is unavailable, it is answered with an error and has no effect: no promise is outstanding, the name is not in any later snapshot and can be registered afterwards, and all other names are unaffected. The server never falls back to predictable randomness.",
 ["fault_sequences","histories"],"all placements of randomness failures in a history",
 "Tests never make the randomness source fail in the directory.",
 [DIR,MT,"crypto/util.go"],[("error propagated from the commitment before insertion",MT)],None,["answers after a failure"])
p("C24","Evicted history is refused, recent history is kept",
 "With a bounded number of retained snapshots, a request that needs a snapshot no longer retained gets an explicit error, never a crash, a wrong or a partial answer, for every request kind. The latest snapshot and at least the most recent half of the configured number remain fully answerable, and the chain of signed roots continues unaffected by eviction.",
 ["histories","configurations"],"all capacities, epoch counts and requested ranges",
 "Tests evict once with one capacity and look at one structure.",
 [PAD,DIR],[("eviction of the oldest snapshots",PAD)],None,["answers for old epochs"])
p("C25","Each snapshot commits to exactly the registered bindings",
 "The tree root signed for an epoch is the root of a tree holding exactly the bindings successfully registered before that epoch began: each at its own private index with a commitment to its name and key, and nothing else. A binding's leaf is the same in every later snapshot.",
 ["histories","inputs"],"all populations, including names whose private indices share long prefixes",
 "Tests rebuild roots for fixed trees of up to three leaves.",
 [MT,PAD,"merkletree/node.go"],[("insertion with leaf push-down, hash recomputation",MT)],None,["signed roots and proofs of all names"])
p("C26","The command-line client tells the user the truth",
 "The interactive client prints 'registered' or 'found' with a key only if that key is what the directory proved for that name, prints 'not registered' only after a verified proof of absence, and prints an error otherwise. It keeps running after any server failure, malformed answer or network fault that ends (the client itself sets no deadline), and answers each register and lookup command exactly once, with exactly one request to the server, sent to the address configured for its kind.",
 ["histories","fault_sequences","inputs"],"all command sequences against honest, faulty and malicious servers",
 "The command-line client has no tests.",
 ["cli/coniksclient/internal/cmd/run.go","application/testutil/testutil.go",CC],[("result mapping of checks to messages","cli/coniksclient/internal/cmd/run.go")],None,["text printed per command"])
p("C27","A restarted server cannot pass for the one that lost its state",
 "The initial signed root saved at first start is never replaced by a later start, and the one saved can be loaded by clients and auditors and equals the root the server serves for epoch 0. Clients and auditors that hold a root of the earlier run refuse every root of a run that lost the state.",
 ["crash_points","histories"],"all crash and restart points, any number of restarts",
 "Tests never restart a server.",
 [SRV,"application/config.go","utils/utils.go",AUD],[("initial root saved without overwriting",SRV),("fresh random predecessor hash of the initial root",PAD)],None,["saved file, verdicts after restart"])
p("C28","Private-index proofs are complete and unique",
 "For every key pair and name, the proof produced with the private key verifies for exactly one index under the public key, the same index every time, and never verifies under another key or for another name.",
 ["inputs"],"all keys, names and proofs",
 "Tests use random samples of keys and messages.",
 ["crypto/vrf/vrf.go"],[("elliptic-curve VRF","crypto/vrf/vrf.go")])
p("C29","Signatures and commitments bind their content",
 "A signature verifies only for the signed message and key, and a commitment opens only to the name and key it was made for.",
 ["inputs"],"all messages, keys, salts",
 "Tests use fixed examples.",
 ["crypto/sign/sign.go","crypto/util.go"],[("Ed25519, SHAKE-128","crypto")])
p("C30","Configurations and messages survive an encode-decode round trip",
 "Encoding and then decoding a configuration or a protocol message yields the same content.",
 ["inputs"],"all configurations and messages",
 "Tests use fixed examples.",
 ["application/config_encoding.go","application/encoding.go"],[("TOML and JSON codecs","application")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
