#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m} for n, m in (state or [])],
        "observe_at": observe, "hook_needed": ("storage seam in runtime/kv and runtime/builder.go so that every key-value operation is a scheduling and crash point" if hook else None)}})

p("P01", "Replicas that execute the same blocks agree exactly",
  "Any two nodes started from the same genesis that execute the same sequence of blocks return the same result for every transaction and the same validator changes for every block, and hold identical state after every block. "
  "This holds whatever else each node does locally in between: mempool checks, queries, HTTP reads, restarts, when it executes the block and what its wall clock says.",
  ["schedules", "histories", "fault_sequences"],
  "Over all block sequences (valid, malformed, adversarial transactions) and, per replica, all interleavings of local work, execution delays, clock offsets and restarts.",
  "Tests drive one application instance with one or two transactions; none compares two instances, so map-iteration order, wall-clock reads, or node-local caches that leak into execution cannot show.",
  ["runtime/abci.go", "runtime/runtime.go", "runtime/authentication/user/user.go", "core/rbac/rbac_applier.go", "runtime/orm/store.go"],
  [("ABCI execution path", "runtime/abci.go BeginBlock/DeliverTx/EndBlock"), ("deterministic marshalling of objects", "runtime/orm/objects/store.go marshal"), ("sets of users", "runtime/authentication/user/user.go List")],
  ["responses of BeginBlock, DeliverTx, EndBlock, Commit", "full dump of both key-value stores after every block"],
  [("objects", "all state objects by type and primary key"), ("indexes", "secondary index entries")], True)

p("P02", "A node killed at any instant recovers by replay to the same state",
  "If a node is killed at any point, including in the middle of a transaction or between any two storage operations, then after it restarts and replays the chain it holds exactly the state of a node that never stopped. "
  "The restart itself always succeeds and no transaction is lost or applied twice.",
  ["crash_points", "schedules", "histories", "fault_sequences"],
  "Over all crash points (every storage operation inside every application call), repeated crashes including during replay, and all chains.",
  "No test stops or restarts an application; the handshake and replay path is never executed.",
  ["runtime/abci.go", "runtime/runtime.go", "runtime/builder.go", "runtime/services.go", "core/abci/genesis.go"],
  [("handshake answer", "runtime/abci.go Info"), ("genesis", "runtime/runtime.go InitGenesis"), ("block execution", "runtime/abci.go")],
  ["success of the consensus engine's handshake/replay against a fresh instance", "state dump after replay versus an uncrashed replica"],
  [("consensus block store", "the only durable state; application stores are in memory")], True)

p("P03", "No external input can crash or wedge a node",
  "Whatever bytes or field values arrive in a transaction (offered to the mempool or placed in a block by a faulty proposer), in a query, in a snapshot request or in an HTTP request, the node answers and keeps running. "
  "Afterwards it still processes well-formed requests normally.",
  ["inputs", "histories", "fault_sequences"],
  "Over all byte strings, all well-signed transactions with arbitrary field contents, in any state reached by any history.",
  "Tests submit three hand-made transactions; the panicking branches are reached only by unusual but legal field values or by particular states.",
  ["runtime/abci.go", "runtime/runtime.go", "runtime/query.go", "x/authn/tx/decoder.go", "x/authn/crypto/secp256k1/secp256k1.go", "x/bank/handler.go", "x/authn/ctrl_state_transition.go", "core/apiserver/router/server.go", "runtime/kv/badger.go"],
  [("store error mapping", "runtime/runtime.go convertStoreError"), ("tx decoding", "x/authn/tx/decoder.go"), ("transition admission", "runtime/runtime.go runAdmissionChain"), ("query routing", "runtime/query.go Handle")],
  ["every ABCI call and HTTP handler returns instead of panicking", "liveness probe transaction after the input"], None, True)

p("P04", "A signed transaction takes effect at most once, in sequence order",
  "Executing an admitted transaction raises the sequence number of each distinct signer by exactly one and of nobody else, and a transaction whose sequence number for any signer is not that signer's current one is rejected without effect. "
  "Hence the same signed bytes never take effect twice on one chain, however often they are duplicated, reordered, re-proposed or replayed after restarts.",
  ["schedules", "histories", "fault_sequences"],
  "Over all duplications, reorderings, delays and omissions of transactions between clients, mempools and blocks, and over restarts.",
  "One test re-sends one transaction once; multi-signer transactions, interleaved senders, future sequences and repeats after failures or restarts are untested.",
  ["x/authn/extensions.go", "x/authn/v1alpha1/client.go", "runtime/abci.go"],
  [("sequence check", "x/authn/extensions.go sigVerifier"), ("sequence increment", "x/authn/extensions.go increaseSequence")],
  ["account sequence before/after every DeliverTx", "DeliverTx result code"], [("account sequence", "next expected sequence of the account")], True)

p("P05", "Only transactions signed by every listed signer have any effect",
  "A transaction has an effect only if each listed signer's key signed exactly these body and authorization bytes for this chain and for that signer's account number, and each listed signer has an account. "
  "Any transaction altered, reassembled, signed for another chain or account number, or signed with another key is rejected without effect, in the mempool check and in block execution alike.",
  ["inputs", "histories", "fault_sequences"],
  "Over all corruptions and recombinations of validly signed transactions on the wire, all signer counts and key/signature permutations, in any reachable state.",
  "One valid and one stale transaction are tested; no test flips a byte, swaps signatures among signers, or changes chain or account number.",
  ["x/authn/extensions.go", "x/authn/tx/decoder.go", "x/authn/tx/decode_unknowns.go", "x/authn/crypto/secp256k1/secp256k1.go"],
  [("signature verification", "x/authn/extensions.go sigVerifier"), ("sign bytes", "x/authn/extensions.go DirectSignBytes"), ("decoder strictness", "x/authn/tx/decoder.go")],
  ["CheckTx/DeliverTx result and full state comparison"], None, True)

p("P06", "Coins leave an account only with its owner's signature",
  "A transaction lowers an account's balance only if that account signed the transaction, and only by the amounts its transfers name that account as sender plus, if that account is the fee payer, the stated fee. "
  "The fee is taken from the named payer (by default the first signer), who must be a signer, and goes to the fee collector.",
  ["inputs", "histories"],
  "Over all transactions and signer/sender/payer combinations, in any reachable state.",
  "The only transfer tests move the signer's own coins; no test names somebody else as sender or fee payer.",
  ["x/bank/handler.go", "x/bank/module.go", "x/distribution/extensions.go", "x/authn/tx/decoder.go"],
  [("transfer handler", "x/bank/handler.go SendCoinsHandler"), ("fee deduction", "x/distribution FeeDeduction"), ("fee payer selection", "x/authn/tx/decoder.go authInfo")],
  ["balances of all accounts before/after every DeliverTx"], [("balance", "coins per account and denomination")], True)

p("P07", "Coins are conserved and balances stay valid",
  "After genesis the total amount of every denomination over all accounts never changes, and every stored balance stays readable and non-negative. "
  "A transfer that succeeds moves exactly the stated amounts from sender to receiver; one that fails moves nothing, and neither creates or destroys coins for any sender, receiver, amount or denomination.",
  ["inputs", "histories", "crash_points"],
  "Over all histories of transfers including self-transfers, first transfers to new, long, odd or reserved names, multiple denominations and extreme amounts.",
  "One test does one transfer in one denomination.",
  ["x/bank/handler.go", "core/coin/v1alpha1/coin.go", "x/distribution/extensions.go", "runtime/orm/objects/store.go", "pkg/protoutils/kindencoder/kindencoder.go"],
  [("coin arithmetic", "core/coin/v1alpha1/coin.go SafeAdd/SafeSub"), ("transfer handler", "x/bank/handler.go")],
  ["sum of balances per denomination after every transaction"], [("balance", "coins per account and denomination")], True)

p("P08", "Operations are allowed exactly when every acting user's role permits",
  "Once access control is on, delivering a transition or creating, updating or deleting an object succeeds only if every acting user is bound to a role and the union of those roles grants that verb on that resource; a refused operation changes nothing. "
  "External accounts can therefore deliver only transitions declared external, and each module only what it owns or declared it needs; roles and bindings created at run time take effect from then on, and one user is bound at most once.",
  ["histories", "inputs", "configurations"],
  "Over all histories of role creation, binding and operations by any sets of users, on any verb and resource.",
  "Tests check one denied and one allowed delivery by a single user.",
  ["core/rbac/authorizer.go", "core/rbac/rbac_applier.go", "core/rbac/ctrl_create_role.go", "core/rbac/ctrl_bind.go", "runtime/runtime.go", "runtime/client.go"],
  [("authorizer", "core/rbac/authorizer.go"), ("role creation at genesis", "core/rbac/rbac_applier.go"), ("authorization gate", "runtime/runtime.go authorized")],
  ["result and state effect of runtime operations under varying users"], [("role", "resources per verb"), ("role binding", "user to role")], True)

p("P09", "A transaction changes state only as its outcome says",
  "A transaction refused at admission leaves the state exactly as it was. A transaction that fails during execution leaves behind only the fee payment, the signers' sequence increments and their recorded public keys, and none of its messages' effects. "
  "A transaction reported successful has applied the effects of all its messages, in order, and nothing else.",
  ["inputs", "histories", "fault_sequences"],
  "Over all transactions with any number and mix of succeeding and failing messages, in any reachable state.",
  "Tests only look at result codes, never at the state left by a failing transaction, and no test sends more than one message.",
  ["runtime/abci.go", "runtime/runtime.go", "x/bank/handler.go", "x/authn/ctrl_state_transition.go", "runtime/orm/store.go"],
  [("DeliverTx", "runtime/abci.go DeliverTx"), ("transition delivery pipeline", "runtime/runtime.go deliver")],
  ["full state before/after every DeliverTx against a reference model"], None, True)

p("P10", "Checking and reading never change state, and checking predicts admission",
  "Mempool checks, rechecks, queries and HTTP reads never alter application state, however many are made and wherever they fall between or inside blocks. "
  "The mempool check accepts a transaction exactly when block execution in the same state would admit it.",
  ["schedules", "histories", "inputs"],
  "Over all interleavings of checks and reads with block execution, for all transactions.",
  "No test calls the mempool check at all, nor compares state around reads.",
  ["runtime/abci.go", "runtime/query.go", "x/authn/extensions.go", "x/distribution/extensions.go", "runtime/client/orm.go"],
  [("CheckTx", "runtime/abci.go CheckTx"), ("read-only client", "runtime/client/orm.go")],
  ["state dump around every CheckTx/Query/HTTP read", "CheckTx result versus DeliverTx admission from the same state"], None, True)

p("P11", "Stored objects behave as one map per type",
  "For every object type, creating, reading, updating and deleting behave like a map from primary key to object: create fails on an existing key, update and delete fail on a missing one, and a read returns exactly the value last written under that key. "
  "Objects of different types or keys never affect one another, for primary keys of any kind, content and length and values of any size the store accepts, and a failed operation changes nothing.",
  ["histories", "inputs", "schedules", "configurations"],
  "Over all histories of operations by several interleaved clients, over many types and key kinds, and over storage tuning (memory-table sizes that force flushes).",
  "One test performs six operations on a single key of one type.",
  ["runtime/orm/store.go", "runtime/orm/objects/store.go", "runtime/orm/schema/schema.go", "runtime/orm/schema/primary_key.go", "pkg/protoutils/kindencoder/kindencoder.go", "runtime/kv/badger.go"],
  [("object store", "runtime/orm/objects/store.go"), ("primary key encoding", "runtime/orm/schema, pkg/protoutils/kindencoder")],
  ["results of Create/Get/Update/Delete against a reference map"], [("objects", "all state objects by type and primary key")], True)

p("P12", "Listing by field returns exactly the matching objects",
  "Listing objects of a type by the values of one or more indexed fields returns each object whose current field values match all given selections exactly once, in ascending order of the encoded primary key, restricted to the requested positions (from start up to but excluding end, unbounded if end is zero), and nothing else; if none match it reports so. "
  "This holds after any history of creations, updates that change or keep indexed fields, deletions and re-creations.",
  ["histories", "inputs", "configurations"],
  "Over all histories of object operations and all selections, field kinds and values (including values that are prefixes of one another, empty or long).",
  "Tests index three objects once and list by one field; no test lists after an update or with two selections or a range.",
  ["runtime/orm/indexes/store.go", "runtime/orm/indexes/list.go", "runtime/orm/indexes/types.go", "runtime/orm/iterator.go", "runtime/orm/schema/indexer.go", "core/apiserver/router/server.go"],
  [("secondary indexes", "runtime/orm/indexes"), ("list iterator", "runtime/orm/iterator.go")],
  ["List results against the reference map after every operation"], [("indexes", "secondary index entries")], True)

p("P13", "Reads answer with what is stored, even while a block executes",
  "A query or HTTP read of an object returns a value the object actually held at some moment between request and response, or not found only if the object was absent at some such moment; with no concurrent write it returns exactly the current value. "
  "An HTTP listing made during block execution includes every object that exists and matches throughout the request, and nothing twice. "
  "The query for the available resources lists exactly the kinds of objects which are installed, once each.",
  ["schedules", "inputs", "histories"],
  "Over all interleavings, at the granularity of storage operations, of concurrent readers with block execution, and all object identifiers.",
  "Tests read through HTTP once on an idle in-memory store; no test reads concurrently with writes.",
  ["core/apiserver/module.go", "core/apiserver/router/server.go", "runtime/query.go", "runtime/client/orm.go", "runtime/orm/store.go", "runtime/orm/indexes/store.go"],
  [("HTTP handlers", "core/apiserver/router/server.go"), ("ABCI queries", "runtime/query.go"), ("index maintenance on update", "runtime/orm/store.go Update")],
  ["recorded history of reads with invocation/response points against the write history"], None, True)

p("P14", "Transactions see the block they are in, and expire on time",
  "While a block executes, modules and readers see the chain id given at genesis and the height, header, commit votes and evidence of exactly that block; between blocks they see the last executed one. "
  "A transaction with a non-zero timeout height is never admitted in a block above that height, and is not refused for its timeout at or below it.",
  ["histories", "inputs", "schedules"],
  "Over all block headers, heights, jumps of block time and timeouts, with delayed delivery of transactions.",
  "One test sets one timeout with an unusable signature and does not look at the result.",
  ["core/abci/handlers.go", "core/abci/genesis.go", "runtime/abci.go", "x/authn/extensions.go", "core/abci/tendermint/abci/types.go"],
  [("block state handlers", "core/abci/handlers.go"), ("timeout check", "x/authn/extensions.go timeoutBlockExtension")],
  ["block-state objects during and after each block; DeliverTx results for expiring transactions"], [("current block", "height being executed")], True)

p("P15", "Validator changes reach consensus exactly once and only when allowed",
  "A validator change submitted by a module is accepted only at genesis or at the end of a block, and is refused without effect at any other time. "
  "At the end of a block the node hands consensus exactly the last change set accepted since the previous hand-over, with the same keys and powers, once, and an empty set when there is none.",
  ["histories", "schedules"],
  "Over all histories of validator changes (additions, power changes, removals) requested at any stage of any block.",
  "No test submits a validator change.",
  ["core/abci/handlers.go", "runtime/abci.go", "core/abci/tendermint/abci/types.go"],
  [("stage check", "core/abci/handlers.go validatorUpdatesHandler"), ("hand-over", "runtime/abci.go EndBlock")],
  ["EndBlock responses", "the consensus engine's validator set after each block"], [("stage", "where in the block the application is")], True)

p("P16", "Valid transactions get through once faults stop",
  "Once message loss, partitions, crashes and faulty proposers stop, every node catches up, and every well-formed transaction properly signed by existing accounts with a payer who can afford it is accepted and executed within a bounded number of blocks. "
  "In particular, an account that came into existence by receiving coins or by explicit creation can spend those coins with its own key.",
  ["fault_sequences", "schedules", "histories"],
  "Over all fault histories followed by a quiet period.",
  "Tests cover a single send from one genesis account; none involves recovery, or spending by an account created after genesis.",
  ["x/authn/extensions.go", "x/bank/handler.go", "runtime/abci.go", "x/distribution/extensions.go"],
  [("admission handlers", "x/authn/extensions.go"), ("account creation on receipt", "x/bank/handler.go createAccountIfNotExist")],
  ["bounded-block progress probe at the end of each run"], None, True)

p("P17", "Account identity is unique and permanent",
  "Account numbers are handed out consecutively from zero in creation order, each to exactly one address, and the stored next number always equals the number of accounts created. "
  "An address is never created twice, its number and a once-recorded public key never change, its sequence starts at zero, and each new account is bound to the external-account role.",
  ["histories", "inputs"],
  "Over all histories of explicit and implicit account creation, including duplicates, reserved and odd names, several per transaction and failing ones.",
  "One test creates one account.",
  ["x/authn/ctrl_state_transition.go", "x/authn/ctrl_admission.go", "x/bank/handler.go", "x/authn/extensions.go", "x/authn/v1alpha1/client.go"],
  [("account creation", "x/authn/ctrl_state_transition.go"), ("public key recording", "x/authn/extensions.go setPubKeys")],
  ["all accounts after every transaction"], [("next account number", "counter of accounts created")], True)

p("P18", "Genesis installs exactly the declared modules, roles and services",
  "After genesis the module registry lists every installed module with exactly its declared objects and transitions, each module is bound to a role granting exactly what it owns or declared it needs, and one external-account role grants exactly the externally callable transitions. "
  "Every background service is started exactly once per node start after genesis state exists and gets a client that can read but never write; stopping attempts every service and reports every failure.",
  ["configurations", "fault_sequences", "histories"],
  "Over all selections and orders of modules, and services that fail to start or stop.",
  "Tests build one or two fixed module sets and check only that nothing fails.",
  ["runtime/builder.go", "runtime/runtime.go", "core/rbac/rbac_applier.go", "runtime/module/descriptor.go", "runtime/services.go", "runtime/client/orm.go", "core/runtime/module.go"],
  [("module installation", "runtime/builder.go"), ("role generation", "core/rbac/rbac_applier.go"), ("service group", "runtime/services.go")],
  ["registry, roles and bindings after genesis; service lifecycle events"], None, True)

p("P19", "The key-value store is an ordered map with stable iteration",
  "The key-value store behaves as one ordered map of byte strings: reads return the last write, deletion reports whether the key existed, and prefix and range iteration yield exactly the matching keys in byte order with their values. "
  "An iteration sees the store as of the moment it was opened, whatever is written while it is in progress.",
  ["histories", "schedules", "inputs", "configurations"],
  "Over all interleavings of writers, readers and open iterators, all keys and values, and storage tuning that forces internal flushes.",
  "One test writes one key and checks an iterator is valid.",
  ["runtime/kv/badger.go", "runtime/kv/kv.go"],
  [("store adapter", "runtime/kv/badger.go")],
  ["results of every operation against a reference ordered map"], [("key-value pairs", "current content of the store")], True)

p("P20", "Secp256k1 signatures verify exactly when genuine",
  "A signature verifies under a public key only for the message it was made for, in canonical low-S form, and every genuine signature verifies.",
  ["inputs"],
  "Over all keys, messages and signature strings.",
  "Tests sample fixed vectors.",
  ["x/authn/crypto/secp256k1/secp256k1.go", "x/authn/crypto/internal/ecdsa/pubkey.go"],
  [("verification", "x/authn/crypto/secp256k1")], ["VerifySignature"], None, False)

p("P21", "Code generation and API description follow the protobuf definitions",
  "The generated module code, list messages and OpenAPI description correspond one-to-one to the fields, keys and kinds declared in the protobuf definitions.",
  ["programs", "inputs"],
  "Over all protobuf definitions the generator accepts.",
  "Tests cover single fixed definitions.",
  ["pkg/modulecodegen/codegen.go", "pkg/protoutils/oas3schema/oas3schema.go", "pkg/protoutils/forge/list.go"],
  [("code generator", "pkg/modulecodegen"), ("OpenAPI schema", "pkg/protoutils/oas3schema")], ["generator output"], None, False)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
