SYM = "path-sensitive symbolic summaries over Go SSA (provenance terms, interprocedural inlining)"
TRUST = "Sound up to the SSA builder, the loop abstraction (first and one arbitrary later iteration) and the stated models of library calls. "

PROPS = [
dict(id="C01", title="No state write or handler runs without an allow decision for that request",
     statement="Once authorization is on, every create, update or delete of a stored object and every execution of a state transition's pre-execution, execution and post-execution handlers happens only after the configured authorizer has answered 'allow', without error, for exactly that verb, that resource and the identities issuing the request. A denial or an authorizer error is returned to the caller and nothing is written or executed. A module's client always presents that module's own identity and clients handed to untrusted callers cannot write at all.",
     over=["inputs", "histories", "programs"],
     q="every request to create, update, delete an object or deliver a state transition, from every module, transaction or client, in every state of the store",
     tests="The tests run with authorization switched off or grant one fixed user; they never enumerate the routes by which code reaches the store or a handler.",
     files=["runtime/runtime.go", "runtime/client.go", "runtime/client/client.go", "runtime/builder.go"],
     mech=[("runtime entry points consult the authorizer", "runtime/runtime.go:Create,Update,Delete,Deliver"), ("module clients carry the module's users", "runtime/builder.go, runtime/client.go")],
     technique=SYM + "; must-precede and who-may-reach rules", 
     note=TRUST + "Decides that every path and every reference to a write or handler is behind the decision; what the authorizer answers is C03."),
dict(id="C02", title="Authorization is on after genesis and nothing turns it off",
     statement="When the chain has been initialised successfully, authorization is enabled, and no code the system runs disables it again. The authorizer in force is the one declared by the module that declares one; a second authorizer is refused, and only when no module declares one is everything allowed.",
     over=["histories", "configurations"],
     q="every module configuration given to the builder and every way the chain can be initialised",
     tests="Tests exercise one application wiring and switch authorization by hand.",
     files=["runtime/abci.go", "runtime/runtime.go", "runtime/builder.go"],
     mech=[("authorization enabled at the end of chain initialisation", "runtime/abci.go:InitChain"), ("authorizer installed by the builder", "runtime/builder.go")],
     technique=SYM + "; store-effect analysis of the switch",
     note=TRUST + "Covers all stores to the switch and all paths of initialisation and of the builder."),
dict(id="C03", title="Access is allowed exactly when a bound role lists the resource for the verb",
     statement="The role based authorizer allows a request if and only if at least one of the requesting users is bound to a role whose list for the requested verb contains the requested resource; if a binding or role cannot be read the request is denied. Each verb has its own list: what is granted for one verb is what is consulted for that verb and for no other.",
     over=["inputs", "histories"],
     q="every verb, resource, set of users, and every content of the role and binding tables",
     tests="One unit test covers a handful of verb and resource combinations for a single user.",
     files=["core/rbac/authorizer.go", "core/rbac/v1alpha1/rbac.go"],
     mech=[("authorizer", "core/rbac/authorizer.go"), ("verb to list tables", "core/rbac/v1alpha1/rbac.go")],
     technique=SYM + "; membership-fact analysis and per-verb table extraction",
     note=TRUST + "Which resource names are equal is decided by string equality of the stored names."),
dict(id="C04", title="Initial roles and new accounts get exactly the privileges they declare",
     statement="When the chain is created every module gets one role, bound to the module's name, that lists deliver for its own state transitions and the ones it declares as dependencies, create, update, delete, get and list for its own objects, get and list for other modules' objects it depends on, and nothing else. Accounts get the external account role, which lists exactly the state transitions whose definition marks them as external, and a new account is always bound to that role. Roles and bindings with missing or unknown contents are refused.",
     over=["inputs", "configurations"],
     q="every set of modules with any transitions, objects and dependencies, and every account created",
     tests="The test applies one role by hand; it cannot enumerate what each module of every possible set would be granted.",
     files=["core/rbac/rbac_applier.go", "core/rbac/ctrl_create_role.go", "core/rbac/ctrl_bind.go", "core/rbac/v1alpha1/rbac.go", "x/authn/ctrl_state_transition.go"],
     mech=[("initial roles", "core/rbac/rbac_applier.go"), ("role checks", "core/rbac/ctrl_create_role.go"), ("account role binding", "core/rbac/ctrl_bind.go")],
     technique=SYM + "; grant-set extraction per module, transition, object and dependency",
     note=TRUST + "Decides which (verb, resource) pairs reach which role for an arbitrary element of each descriptor list."),
dict(id="C05", title="Transactions are admitted in full before any effect, and run in order",
     statement="Neither checking nor delivering a transaction has any effect or answers success unless the transaction was decoded and every transaction admission handler and every admission handler of every state transition it contains accepted it. Checking never has an effect. Delivering first runs every post-authentication step, then every state transition of the transaction, each once and in order, stops at the first failure and answers success only if all of them succeeded. Delivering a state transition runs its admission handlers first unless the transaction was already admitted.",
     over=["inputs", "configurations", "histories"],
     q="every transaction bytes, every set of registered handlers, and every outcome of each handler",
     tests="The tests deliver one well formed transaction; rejecting handlers, several transitions or failures in the middle are never combined.",
     files=["runtime/abci.go", "runtime/runtime.go", "runtime/router.go"],
     mech=[("CheckTx and DeliverTx", "runtime/abci.go"), ("admission chains", "runtime/runtime.go")],
     technique=SYM + "; must-precede, order and stop-at-first-failure rules over all paths of CheckTx and DeliverTx",
     note=TRUST + "Effects of a transition that fails midway are not rolled back by this code base; that is not part of the property."),
dict(id="C06", title="Admission handlers, authorization and queries never change the state",
     statement="Validating a transaction or a state transition, deciding an authorization, answering a query and reading an object or a list never create, update or delete an object or deliver a state transition, whatever the input. A read-only client refuses every write with an error.",
     over=["inputs", "programs"],
     q="every admission handler of every module, the authorizer, the query paths, and all inputs to them",
     tests="A test sees only the writes it looks for, on the inputs it samples.",
     files=["runtime/query.go", "runtime/client.go", "runtime/client/client.go", "core/rbac/authorizer.go", "x/authn/extensions.go", "x/authn/ctrl_admission.go"],
     mech=[("read only client", "runtime/client.go"), ("query path", "runtime/query.go")],
     technique=SYM + "; effect analysis (no write reachable)",
     note=TRUST + "Handlers registered by the modules of the repository are covered; modules written elsewhere are not."),
dict(id="C07", title="Every signer signed exactly this transaction for this chain and account",
     statement="A transaction passes admission only if, for every signer it declares, the signature supplied for that signer verifies under that signer's public key over the sign document made of exactly the received body bytes, the received auth info bytes, this chain's identifier and the account number stored for that signer's address. The users the transaction acts for are exactly the owners of those keys (the fee payer is one of them), and its state transitions are exactly the messages in the signed body. secp256k1 verification accepts only 64 byte, low-S signatures valid for the SHA-256 of the message under the given key, and never panics.",
     over=["inputs", "histories"],
     q="all transaction bytes, any number and order of signers, all stored accounts and chain identifiers",
     tests="Tests decode and check one correctly signed transaction; forgeries that mix bytes, keys, signers or accounts form an unbounded space.",
     files=["x/authn/extensions.go", "x/authn/tx/decoder.go", "x/authn/tx/tx.go", "x/authn/crypto/secp256k1/secp256k1_nocgo.go", "x/authn/crypto/secp256k1/secp256k1_cgo.go"],
     mech=[("signature admission", "x/authn/extensions.go:sigVerifier"), ("transaction decoder", "x/authn/tx/decoder.go"), ("curve verification", "x/authn/crypto/secp256k1")],
     technique=SYM + "; provenance of every component of the verified document, per signer",
     note=TRUST + "The curve library and protobuf unmarshalling are trusted."),
dict(id="C08", title="A signature is accepted at most once: sequences are checked and increased",
     statement="A transaction passes admission only if, for every signer, the signed sequence equals the sequence stored for that signer's account. Before any state transition of a delivered transaction runs, the sequence of the account of every user of the transaction is increased by exactly one and stored. Accounts start with sequence zero, and no other code changes a sequence or deletes an account.",
     over=["inputs", "histories"],
     q="all transactions, all numbers of signers, all histories of account writes by all modules",
     tests="Tests check one increment for one account; replay depends on every path of admission and on every other writer of accounts.",
     files=["x/authn/extensions.go", "x/authn/ctrl_state_transition.go"],
     mech=[("sequence comparison", "x/authn/extensions.go:sigVerifier"), ("sequence step", "x/authn/extensions.go:increaseSequence")],
     technique=SYM + "; universal loop facts and who-may-write-accounts analysis",
     note=TRUST + "That post authentication runs before every transition is C05."),
dict(id="C09", title="Only well formed transactions are decoded, others are refused with an error",
     statement="Decoding succeeds only for bytes that parse as a raw transaction, body and auth info without unknown fields at these three levels, with at least one state transition, at least one signer, as many signatures as signers, a fee, a present, supported and valid public key for each signer, the direct signing mode for each signer, and only state transitions the system knows. Everything else is refused with an error; decoding never panics.",
     over=["inputs"],
     q="all byte strings",
     tests="The tests decode a few well formed transactions.",
     files=["x/authn/tx/decoder.go", "x/authn/tx/tx.go", "x/authn/tx/decode_unknowns.go", "x/authn/crypto/crypto.go"],
     mech=[("decoder", "x/authn/tx/decoder.go"), ("unknown fields", "x/authn/tx/decode_unknowns.go"), ("keys", "x/authn/crypto/crypto.go")],
     technique=SYM + "; must-hold facts on every successful decoding path",
     note=TRUST + "Unknown fields nested inside messages are not rejected by the code base and not part of the property."),
dict(id="C11", title="Transfers move exactly the sent amount and never overdraw or create coins",
     statement="A successful coin transfer debits the sender's stored balance by exactly the sent amount and credits the recipient's stored balance (or nothing, when it had none) by the same amount, also when sender and recipient are the same, and writes no other balance. It fails, without panicking, when the amount is negative or the sender would be left with a negative balance. A recipient without a balance gets an account. No other state transition but setting a balance writes balances, and setting one writes exactly the requested amount to the requested address.",
     over=["inputs", "histories"],
     q="all senders, recipients (including the same), coin lists and stored balances",
     tests="Tests transfer one amount between two accounts; conservation is a statement about all amounts, denominations and aliasings.",
     files=["x/bank/handler.go", "core/coin/v1alpha1/coin.go"],
     mech=[("transfer", "x/bank/handler.go"), ("checked arithmetic", "core/coin/v1alpha1/coin.go")],
     technique=SYM + "; provenance of both new balances",
     note=TRUST + "The coin library's arithmetic is trusted. That the sender authorised the transfer is not enforced by this code base."),
dict(id="C12", title="Transactions over the limits or from unknown accounts are not admitted",
     statement="A transaction passes admission only if its memo is at most as long as the stored maximum, it carries no timeout height or one not below the current block's, it has at most the stored maximum number of signatures, and the account of each of its signers exists. If the limit or the block cannot be read the transaction is refused; a transaction within these limits is not refused for them.",
     over=["inputs", "histories"],
     q="all decoded transactions and all stored parameters, blocks and accounts",
     tests="Each limit is tested at best for one value on each side.",
     files=["x/authn/extensions.go"],
     mech=[("admission handlers", "x/authn/extensions.go")],
     technique=SYM + "; must-hold facts on every accepting path",
     note=TRUST + "Limits are those stored in authn's parameters."),
dict(id="C14", title="Every failure is answered with the code and reason of its class",
     statement="The outcome of a transaction is reported as a failure if and only if one happened: an error that is or wraps bad request, not found, already exists or condition not met is answered with code 400, 404, 409 or 412 respectively and any other error with code 1, never with the code of success; the log is the error's own text. A rejection by an admission handler or a post-authentication step is always a bad request carrying the handler's reason. The store's not-found and already-exists failures reach the callers of the runtime as the runtime's errors of the same class, and every other store failure is passed on.",
     over=["inputs", "faults"],
     q="every error value any handler, store or decoder can produce",
     tests="Tests provoke one or two errors; which class an arbitrary wrapped error belongs to is not sampled.",
     files=["runtime/errors/errors.go", "runtime/abci.go", "runtime/runtime.go"],
     mech=[("error to response", "runtime/errors/errors.go:ToABCIResponse"), ("admission chains", "runtime/runtime.go"), ("store errors", "runtime/runtime.go:convertStoreError")],
     technique=SYM + "; error-class facts on every path of the conversion and its callers",
     note=TRUST + "The order in which an error of two classes is classified is the documented one (bad request, not found, already exists, condition not met)."),
dict(id="C16", title="The object store reads back what was written, under one key per object",
     statement="Creating an object succeeds only when no object of its type with its primary key is stored, and then stores exactly its deterministic encoding; updating succeeds only when one is stored and replaces exactly that one; deleting succeeds only when one is stored and removes exactly that one; getting yields exactly the stored object of that type and ID or a not-found error. Objects of different types or different primary keys never share a key, an empty primary key is refused, a failed operation writes nothing, and absence or presence is reported with the distinguished errors all the way to the clients of the runtime.",
     over=["inputs", "histories"],
     q="all objects of all registered types, all primary keys and all sequences of operations",
     tests="The tests create, update and delete a few objects of one type; collisions and partial writes need particular names, keys and orders.",
     files=["runtime/orm/objects/store.go", "runtime/orm/store.go", "runtime/orm/schema/primary_key.go", "runtime/runtime.go"],
     mech=[("object store", "runtime/orm/objects/store.go"), ("primary keys", "runtime/orm/schema/primary_key.go"), ("error conversion", "runtime/runtime.go:convertStoreError")],
     technique=SYM + "; key-shape and must-precede analysis of all store operations",
     note=TRUST + "The key-value database is C27, the key encoders C18. The deterministic marshaller of protobuf is trusted."),
dict(id="C17", title="Secondary indexes always mirror the stored objects",
     statement="After every successful create, update and delete through the object relational store, the index contains for each stored object exactly one entry for each secondary key of its type, made of the object's current field value and its primary key, and no entry of deleted objects or of replaced values; errors of the object store or of the indexer are returned. Entries of different types, fields, values or objects never coincide, and the list of an object's entries is read back exactly as it was written or refused when it is damaged.",
     over=["inputs", "histories"],
     q="all objects, field values, primary keys and sequences of creates, updates and deletes",
     tests="The tests index one or two objects with simple values; mirroring must hold after every history and for all bytes in keys.",
     files=["runtime/orm/store.go", "runtime/orm/indexes/store.go", "runtime/orm/indexes/types.go"],
     mech=[("store operations", "runtime/orm/store.go:Create,Update,Delete"), ("indexer", "runtime/orm/indexes/store.go"), ("entry and list encodings", "runtime/orm/indexes/types.go")],
     technique=SYM + "; byte-shape inverse analysis of writers and readers, per-index loop facts",
     note=TRUST + "Assumes the operations of one store are not run concurrently."),
dict(id="C18", title="Key encoders are injective and accept exactly the values of their kind",
     statement="For every kind of field that can be a primary or secondary key, two different field values never have the same encoding and equal values always have the same one, whatever their size. Text is parsed as a value of exactly that kind (decimal, full width) or refused; a Go value is accepted only if it has exactly the kind's Go type, and becomes that same value. No encoder in use panics, and each encoder is registered for the kind it encodes.",
     over=["inputs"],
     q="all values of all kinds usable as keys, all texts and all Go values",
     tests="There are no tests of boundary values; injectivity quantifies over pairs of values.",
     files=["pkg/protoutils/kindencoder/kindencoder.go", "pkg/protoutils/kindencoder/xx_to_support.go"],
     mech=[("encoders", "pkg/protoutils/kindencoder/kindencoder.go")],
     technique=SYM + "; injectivity of the encoding term, table extraction from the initialiser",
     note=TRUST + "Trusts the injectivity of protowire varints and of strconv parsing on its domain."),
dict(id="C19", title="Only valid object definitions are registered, each exactly once",
     statement="Registering a state object succeeds only if the definition is either a singleton without keys or has a primary key, the primary key and all secondary keys name existing, non-repeated fields of supported kinds, no secondary key is listed twice, and the object has no map field at any depth and no field of a float, double, fixed, sfixed, sint or group kind. The schema then built encodes and looks up exactly the defined keys of exactly that object. A valid definition is accepted; an object is registered at most once, and is found under its own name and its own API group and kind, and not found otherwise.",
     over=["inputs", "configurations"],
     q="all message types and all definitions",
     tests="The tests register one or two definitions; combinations of invalid fields, nested types and several keys are not sampled.",
     files=["runtime/orm/schema/schema.go", "runtime/orm/schema/indexer.go", "runtime/orm/schema/registry.go", "pkg/protoutils/desc/desc.go", "core/schema/schema.go"],
     mech=[("schema construction", "runtime/orm/schema/schema.go"), ("registry", "runtime/orm/schema/registry.go"), ("map and kind inspection", "pkg/protoutils/desc/desc.go")],
     technique=SYM + "; must-hold facts on success, and symbolic exercise of the schema that was built",
     note=TRUST + "Kinds are inspected at the top level of the message, maps at every depth."),
dict(id="C20", title="Listing by a field yields exactly the objects with that value",
     statement="A listing that matches one field against a value scans exactly the index entries of that object type, that field and that value, and yields for each of them the object with the primary key of that entry; objects of other types, with other values, or whose value merely has the requested one as a prefix are never listed. A field that is not a secondary key, a value of the wrong type and an empty result are errors. The same schema, options and iterator are used from the store's caller down to the database.",
     over=["inputs", "histories"],
     q="all object types, fields, values and contents of the store",
     tests="The tests list one or two objects; confusion of prefixes needs particular values.",
     files=["runtime/orm/indexes/list.go", "runtime/orm/indexes/types.go", "runtime/orm/iterator.go", "runtime/orm/store.go"],
     mech=[("prefix to scan", "runtime/orm/indexes/list.go"), ("iterator", "runtime/orm/iterator.go")],
     technique=SYM + "; byte-for-byte comparison of the scanned prefix with the entries written",
     note=TRUST + "Listings with several conditions or a range are C21."),
dict(id="C21", title="Client options reach the read or delivery they are given to, and only that",
     statement="Each option of the runtime's clients sets exactly the setting it names to exactly its argument and leaves the others as they are; conditions of a listing accumulate in the order given. A client applies every option it is given, once each and in order, to a record that starts out empty, and nothing of one call remains for the next. A module's client refuses gets and lists at a height, and otherwise asks the runtime for exactly the id, object and list options given, and the runtime its store; delivering through it acts as the module's own users together with exactly those impersonated. The client of services and gateway reads and lists from the version asked for, the latest if none is, returns the failure to load it and otherwise exactly the store's answer, and refuses every creation, update, deletion and delivery without touching the store. Every setting that an option makes has an effect.",
     over=["inputs", "programs", "histories"],
     q="every number, combination and order of options, every id, object and height",
     tests="Tests pass at most one option, never a height or a range, and look at no second call of the same client.",
     files=["runtime/client/client.go", "runtime/client/orm.go", "runtime/client.go", "runtime/runtime.go"],
     mech=[("options", "runtime/client/client.go"), ("clients", "runtime/client.go:ModuleClient, runtime/client/orm.go:ORMClient")],
     technique=SYM + "; symbolic application of options to records and provenance of the options of every read",
     note=TRUST + "The store keeps only its current version, so that loading any version yields it. Four settings without effect are known findings."),
dict(id="C22", title="Objects, transitions and their clients are what protobuf declares",
     statement="A message is an object or a transition of the state in Go if and only if its protobuf annotation says so, never both. Its API definition has its protobuf package as group, its message name as kind and the API type of its annotation; no two definitions share group and kind; and its constructor returns a new, empty message of its type. An object's schema variable, and the schema its module registers it with, have exactly the single instance flag, primary key and secondary keys of its annotation, which name fields of the message; every object of a package that some module uses is registered exactly once, and no transition has two execution handlers. The client set of a package has exactly one client for each annotated object and one Exec method for each annotated transition, named after them. A typed client's Get asks its client exactly once for the object whose id has exactly the bytes of the key given, or the single instance id, with the options given, and returns the object filled in, or the failure; Create, Update and Delete pass on exactly the object and options given, and Exec delivers exactly the message given, once, and return the failure; List passes on a new object and the options and returns an iterator over exactly the objects listed, whose Get, Valid and Next each do that once on the iterator underneath and report its failure.",
     over=["inputs", "programs"],
     q="every message declared by the repository outside the test data, and every call of their typed clients",
     tests="The typed clients are generated code without tests; the tests of the store use test messages of their own, and nothing compares a schema with its annotation.",
     files=["x/authn/v1alpha1/authn.starport.go", "x/bank/v1alpha1/bank.starport.go", "x/crisis/v1alpha1/crisis.starport.go", "core/rbac/v1alpha1/rbac.starport.go", "core/abci/v1alpha1/abci.starport.go", "core/runtime/v1alpha1/module.starport.go", "core/meta/state.go"],
     mech=[("definitions, schemas, typed clients", "x/*/v1alpha1/*.starport.go, core/*/v1alpha1/*.starport.go"), ("annotations", "descriptors embedded in *.pb.go"), ("ids", "core/meta/state.go")],
     technique="decoding of the descriptors embedded in the source; " + SYM + " of every definition, schema initialisation, typed client, iterator and client set",
     note=TRUST + "The generator of the typed clients is not analysed, its output in the repository is; whether the descriptors embedded are those of the .proto files is protoc's."),
dict(id="C23", title="The builder installs everything every module declares, or fails",
     statement="Whatever a module declares through the descriptor builder - name, state objects with their schemas, admission, pre-execution, execution and post-execution handlers, transaction admission and post-authentication handlers, services, dependencies, genesis and authorizer - ends up unchanged in its descriptor, in the order declared. Building a runtime succeeds only if every module has a name, every declared element of every module was installed, each exactly once, in order, in the router, store and services of the runtime returned, nothing else was, and every transition a module depends on has a handler. The runtime decodes transactions with the decoder given, or refuses all of them if none was.",
     over=["configurations", "programs"],
     q="every set of modules, with any number of handlers, objects, services and dependencies of every kind",
     tests="Tests build two or three fixed applications; a kind of handler that none of them declares, or a second one, is not looked at.",
     files=["runtime/builder.go", "runtime/module/builder.go", "runtime/module/descriptor.go", "runtime/services.go"],
     mech=[("building a runtime", "runtime/builder.go:Build"), ("descriptor builder", "runtime/module/builder.go")],
     technique=SYM + "; correspondence of declared elements and registering calls for arbitrary lists",
     note=TRUST + "Loops over modules and their lists are analysed for one arbitrary element each."),
dict(id="C24", title="Genesis describes all modules, then runs each module's genesis once",
     statement="Initialising the runtime is possible once. It first delivers the descriptions of all modules, in order, each naming exactly the objects, schemas, transitions and dependencies that module declares, then runs the default genesis of every module that has one, each exactly once and in order, and only then starts the services; the first failure ends it and is returned. The runtime counts as initialised only after every genesis succeeded. A module's genesis reports every failure, and after it every single-instance object that handlers, the authorizer or the end of a block read or update exists, created exactly once by the module owning it.",
     over=["configurations", "faults"],
     q="every set of modules, and a failure at every step",
     tests="Tests run one successful genesis; failures part way, repeated runs and the order of steps are not sampled.",
     files=["runtime/runtime.go", "runtime/module/descriptor.go", "core/abci/genesis.go", "x/authn/genesis.go", "core/runtime/module.go"],
     mech=[("genesis", "runtime/runtime.go:InitGenesis"), ("descriptions", "runtime/module/descriptor.go:Raw"), ("module genesis", "core/abci/genesis.go, x/authn/genesis.go")],
     technique=SYM + "; order and stop-at-first-failure rules, who-creates-what census of singletons",
     note=TRUST + "Importing an exported state is not implemented by this code base and not covered."),
dict(id="C25", title="A state transition runs exactly its own handlers, in order, to the end",
     statement="Delivering a state transition runs every pre-execution handler registered for it, then its one execution handler, then every post-execution handler registered for it, each exactly once, in the order registered, with the delivered transition and users (and, for post-execution, the execution's response); the first failure stops it and is returned, and success means all of them succeeded. Handlers added for a transition are found under that transition and no other; only one execution handler can be added for it; admission, pre- and post-execution handlers can be added and looked up only for a transition that has one, and unknown transitions are reported as not found.",
     over=["inputs", "configurations", "faults"],
     q="every transition, every set of registered handlers and every outcome of each",
     tests="Tests register single handlers; several handlers, failures in the middle and transitions without handlers are not combined.",
     files=["runtime/runtime.go", "runtime/router.go"],
     mech=[("delivery", "runtime/runtime.go:Deliver"), ("routing tables", "runtime/router.go")],
     technique=SYM + "; must-precede, order and same-table rules over delivery and router",
     note=TRUST + "Effects of handlers that ran before a failure are not rolled back by this code base."),
dict(id="C26", title="What a block does is a function of the block and of the state before it",
     statement="Two nodes that execute the same requests from the same stored state reach the same stored state and answer the same, whatever machine, process or moment they run in. Nothing that the ABCI application runs while it initialises the chain, begins, delivers, ends or commits takes anything from the clock, randomness, the environment, files, the network, goroutines or memory addresses, except for logs and the text of errors; nothing it computes depends on the order in which a map is walked (results collected from maps and sets are put into an order of their own before use); stored messages are encoded deterministically; and between the initialisation of the chain and the end of the process nothing outside the store is written by one call of the application (a block method, a check or a query) that a later call can read.",
     over=["inputs", "histories", "schedules", "configurations"],
     q="every function the block methods can reach, every map iteration order, every process history",
     tests="Tests run one process once; two runs that disagree are never compared.",
     files=["runtime/abci.go", "runtime/runtime.go", "runtime/orm", "runtime/authentication/user/user.go", "core/rbac", "x/authn", "x/bank"],
     mech=[("application", "runtime/abci.go"), ("user sets", "runtime/authentication/user/user.go"), ("encoding", "runtime/orm/objects/store.go")],
     technique="Effect analysis over the call graph (static calls, all implementers, all function values of a signature): forbidden sources, map-iteration order, encodings, writes to memory outliving a call",
     note=TRUST + "Library calls outside the list of forbidden sources are taken to be functions of their arguments; services run beside the state machine and are not followed."),
dict(id="C27", title="The database adapter is a faithful map and releases what it opens",
     statement="After Set a key is present with a copy of exactly that value until it is set or deleted; Get and Has report absence only for keys that are absent, Delete removes the key. No failure of the database is taken for success or absence: it stops the program. Iterating over a range visits the keys from start to end, both included, and iterating over a prefix exactly the keys with that prefix, in order, yielding each key without its prefix; an iterator never leaves its range. Every database iterator and transaction is closed or discarded, the iterator before its transaction, and code that obtains an iterator closes it on every path or hands it to its caller.",
     over=["inputs", "histories", "faults"],
     q="all keys, values, ranges and prefixes, all results of the database's operations",
     tests="The tests set and read a few keys; failures of the database and leaks on early returns are not provoked.",
     files=["runtime/kv/badger.go", "runtime/orm/iterator.go", "runtime/orm/indexes/list.go"],
     mech=[("adapter", "runtime/kv/badger.go")],
     technique=SYM + "; typestate of transactions and iterators, result-use analysis",
     note=TRUST + "Badger itself is trusted; the database is kept in memory, so durability is not claimed."),
dict(id="C28", title="Block lifecycle calls record what they received and answer what is stored",
     statement="Initialising the chain runs the default genesis when no application state is given and imports the given state otherwise, then records the given chain identifier and the stage, and answers the given validators. Beginning a block records exactly the block information received, its height as the current block and the stage; ending a block records its height and stage and answers all stored validator updates, in order, with their keys and powers. Validator updates are accepted only while the stored stage is chain initialisation or end of block. Any failure stops the process instead of being answered, and only these transitions write this state.",
     over=["inputs", "faults", "histories"],
     q="every request of the consensus engine and a failure at every step",
     tests="The tests never drive a block through the application with non-trivial content or failing steps.",
     files=["runtime/abci.go", "core/abci/handlers.go", "core/abci/tendermint/abci/types.go"],
     mech=[("entry points", "runtime/abci.go:InitChain,BeginBlock,EndBlock"), ("handlers", "core/abci/handlers.go"), ("conversion", "core/abci/tendermint/abci/types.go")],
     technique=SYM + "; provenance of everything delivered, stored and answered",
     note=TRUST + "Recorded validator updates stay until replaced; that they are cleared is not claimed. The stage is not recorded while transactions are checked or delivered."),
dict(id="C29", title="HTTP and query reads answer exactly the stored objects that were asked for",
     statement="Every object definition gets exactly its HTTP routes under /group/kind in lower case: a singleton one read route, any other object one route for a single object (with the primary key, read as text of the key's kind, as last path element) and one list route with a trailing s; the API server does this for every object of every module. A read answers the encoding of exactly the stored object of the route's type and the path's key, at the height the request's header asks for or else the latest; a list answers every object the store's listing yields, each once and in order, for exactly the requested height, range (default 0 to 100) and field selections (field=value, split at the first =). A malformed or zero height, a malformed range, key or selection, and a failing read are answered with an error status and no object. A query through the consensus engine answers the object of exactly the group, kind and key in its path get/group/kind/key, or exactly the registered groups with their kinds for api_resources, and otherwise a failure code without a value; the remote client asks for exactly what its caller names and returns only successful answers.",
     over=["inputs", "faults"],
     q="every object definition, every request, every answer of the store and a failure at every step",
     tests="The tests look at one object, one list and one query.",
     files=["core/apiserver/router/server.go", "core/apiserver/router/types.go", "core/apiserver/module.go", "runtime/query.go", "pkg/client/client.go"],
     mech=[("routes and handlers", "core/apiserver/router/server.go"), ("request parameters", "core/apiserver/router/types.go"), ("registration", "core/apiserver/module.go"), ("queries", "runtime/query.go:Querier"), ("remote client", "pkg/client/client.go")],
     technique=SYM + "; provenance of every route, read, listing option and answer",
     note=TRUST + "net/http and gorilla/mux are trusted to route by method and path. Which objects the store yields for a key, range or selection is C16 and C17."),
dict(id="C30", title="Services start once, in order, with a client of their own, and all of them stop",
     statement="Registering a module's services appends each of them, in order, under the module's name, and a service is known as module.service. Starting the group gives each registered service, in order and exactly once, a client that reads the given store under that service's name, and then starts it; the first failure ends the start and is returned, wrapped. Stopping the group stops every service, in order and exactly once, even when some fail, and the result reports every failure and is nil when there is none. The API server uses only the client it was given, serves in the background without blocking its start, and stopping it shuts down exactly the server it runs and reports a failure to do so.",
     over=["inputs", "faults"],
     q="every list of services and a failure of any of them to start or stop",
     tests="No test starts or stops several services or lets one fail.",
     files=["runtime/services.go", "runtime/module/services.go", "core/apiserver/module.go", "runtime/client/orm.go"],
     mech=[("service group", "runtime/services.go:ServiceGroup"), ("API server", "core/apiserver/module.go:apiServer")],
     technique=SYM + "; typestate of every service and provenance of clients and reported errors",
     note=TRUST + "go-multierror and net/http are trusted. That the runtime starts the group with its own store after genesis is C24; nothing in the repository stops the group."),
dict(id="C31", title="Keys, signatures and addresses are exactly those of the scheme",
     statement="A public key accepts a signature if and only if it is 64 bytes long, its second half is at most half the curve's order, the key's bytes are a point of the curve, and the two halves verify as R and S under that key for the SHA-256 of exactly the message; verifying never panics. Signing yields R and S of the curve library's signature of the SHA-256 of exactly the message under the key's own bytes, each padded on the left to 32 bytes, and reports its failure. A private key's public key is its own compressed point. Keys are equal if and only if their types and bytes are. A generated key is 32 bytes of the system's randomness between 1 and the order minus one, one made from a secret is sha256(secret) mod (order-1) + 1 padded on the left to 32 bytes. A public key's address is the RIPEMD-160 of the SHA-256 of its bytes and exists only, like its validity, for 33 bytes. A packed key resolves only if its type is one of the supported keys or the cosmos name of the secp256k1 key, which means this repository's, and it decodes and is valid; it then resolves to the key decoded, and its address is that key's in bech32 with the given prefix.",
     over=["inputs"],
     q="every key, message, signature, secret and packed key",
     tests="Tests sign random messages, change one bit and try one high S; the lengths, paddings and boundaries that decide the other inputs are met once in hundreds of runs or never.",
     files=["x/authn/crypto/crypto.go", "x/authn/crypto/secp256k1/secp256k1.go", "x/authn/crypto/secp256k1/secp256k1_nocgo.go"],
     mech=[("signatures", "x/authn/crypto/secp256k1/secp256k1_nocgo.go"), ("keys and addresses", "x/authn/crypto/secp256k1/secp256k1.go"), ("resolver", "x/authn/crypto/crypto.go:PubKeyResolver")],
     technique=SYM + "; value terms of big numbers and byte layouts compared with the definition",
     note=TRUST + "The curve library, the hashes and bech32 are trusted; the build with the cgo library is not analysed, and the unused internal/ecdsa package is not part of the property."),
dict(id="C32", title="Account numbers are unique and an account keeps its address, number and key",
     statement="Creating an account stores the requested address and public key under the counter's current number, with sequence zero, and advances the counter by one; nothing else is written, and creation is refused when the account exists or the request carries no address. No other code writes the counter or creates an account, an account's address and number never change, and a key already stored for an account is never replaced.",
     over=["inputs", "histories"],
     q="all account creation requests and all histories of account and counter writes",
     tests="Tests create one account.",
     files=["x/authn/ctrl_state_transition.go", "x/authn/ctrl_admission.go", "x/authn/extensions.go"],
     mech=[("account creation", "x/authn/ctrl_state_transition.go"), ("key setting", "x/authn/extensions.go")],
     technique=SYM + "; provenance of every account and counter write in the repository",
     note=TRUST + "Existence is enforced by the object store (C16)."),
dict(id="C33", title="Fees are covered before admission and collected exactly once",
     statement="A transaction passes admission only if the stored balance of its fee payer covers the whole fee in every denomination; a fee that is covered is not refused. Before the state transitions of a delivered transaction run, exactly the fee stated in the transaction is moved once from its payer to the account fee_collector, and the transaction fails if that move fails. The payer is one of the signers: the one the transaction names, or the first. Apart from fees and initial balances no module moves coins unless a transaction asks for it.",
     over=["inputs", "histories"],
     q="all fees, payers and stored balances, and every handler of every module",
     tests="No test sends a transaction through the fee handlers; a fee in several denominations, a payer other than the first signer and a balance that changed since the last transaction are all untested.",
     files=["x/distribution/extensions.go", "x/distribution/module.go", "x/authn/tx/decoder.go", "x/authn/tx/tx.go"],
     mech=[("fee check and deduction", "x/distribution/extensions.go"), ("payer and fee of a transaction", "x/authn/tx/decoder.go")],
     technique=SYM + "; must-hold facts on every accepting path and delivered-transition extraction",
     note=TRUST + "The checked subtraction and the transfer themselves are the subject of C11, the order of the steps of C05. A chain built without the distribution module charges no fees."),
dict(id="C34", title="The command line client asks the configured node and reports failures",
     statement="The command line client reads config.yaml in the directory that SPFCLI_CONFIG_DIR names when that variable is set, and in .spfcli_config of the home directory when it is not; no other file is tried. When no configuration can be read or decoded, when it has no endpoint, when no client can be made for the endpoint, or when the query fails, the command prints no answer and returns the error of the step that failed; the program then exits with a nonzero code. get takes exactly a group, a kind and a name, resources takes no arguments; each sends one query, for exactly that object or for the resources, to the node at the configured endpoint, and prints exactly its answer once.",
     over=["inputs", "faults"],
     q="all arguments, configurations, environments and answers of the node, and a failure of any step",
     tests="There are no tests of the command line client.",
     files=["pkg/spfcli/config.go", "pkg/spfcli/clicontext.go", "pkg/spfcli/get.go", "pkg/spfcli/resources.go", "pkg/spfcli/spfctl.go", "pkg/client/client.go", "cmd/spfcli/main.go"],
     mech=[("configuration", "pkg/spfcli/config.go:GetConfig"), ("client", "pkg/spfcli/clicontext.go"), ("commands", "pkg/spfcli/get.go"), ("query", "pkg/client/client.go")],
     technique=SYM + "; end-to-end paths from the command's arguments to the query and the output",
     note=TRUST + "Cobra, the YAML decoder and the RPC client of tendermint are trusted."),
dict(id="C35", title="Sets of users hold exactly the users they were made of",
     statement="A set of users made from names holds exactly one user for each distinct name, who answers exactly that name; a set made from users holds exactly one user for each distinct name of theirs; a union holds exactly one user for each distinct name in any of its groups that are not nil. Has reports true if and only if each of the names asked for is the name of a user in the set. List returns every user of the set exactly once, in ascending order of their names.",
     over=["inputs"],
     q="all names, users and groups, duplicates and nil groups included",
     tests="There are no tests of user sets of their own.",
     files=["runtime/authentication/user/user.go"],
     mech=[("user sets", "runtime/authentication/user/user.go")],
     technique=SYM + "; exactly-these-entries rules over constructors, membership and listing",
     note=TRUST),
dict(id="C36", title="The API document describes every route the API server serves",
     statement="When a state object is registered with the API server, each HTTP route served for it appears exactly once in the API document, as a GET operation under that path, and no other operation is added: the route of one object and of a singleton answer the object, the list route answers the list of objects; the query parameters that the route's handler reads, and only those, are described. The messages answered, and all messages their fields contain, directly or through other messages, are required for the document once each; this ends for types that contain themselves. The document takes over every operation with its path, method, parameters and answer, and of every file each required message, once, with every field under its JSON name; a field holding a message refers to that message's schema unless its JSON form is not that object. The document served is the one made from these operations; a gateway whose document cannot be made is refused.",
     over=["inputs"],
     q="every state object type and message graph (recursive ones included), list and map fields, any number of objects",
     tests="The one test of the API server registers two objects and asks for some of them and for a list; the document is built but never looked at.",
     files=["core/apiserver/router/openapi.go", "core/apiserver/router/server.go", "pkg/protoutils/oas3schema/oas3schema.go"],
     mech=[("operations of an object", "core/apiserver/router/openapi.go:AddObject"), ("required messages", "pkg/protoutils/oas3schema/oas3schema.go:AddRequiredMessage"), ("paths and schemas", "pkg/protoutils/oas3schema/oas3schema.go:addPathsToDocumentV3"), ("document served", "core/apiserver/router/server.go:Build")],
     technique=SYM + "; agreement of the routes registered, the operations documented and the parameters the handlers read on each path; induction over the message graph",
     note=TRUST + "Not part of the property: path parameters, the JSON types of scalar fields, comments, and messages declared inside other messages."),
dict(id="C37", title="Published protobuf files come with everything they import, in order",
     statement="The dependencies of a protobuf file are all the files it imports, directly or through other imports, whatever their package and kind of import: each exactly once, after every file that it imports itself, and without the file. For each type, a module publishes exactly these files in this order followed by the type's own file, so that a client can register them one after the other. The API document is generated from the files of all its messages and everything those import, each once and after its imports; when they cannot be resolved, no document is made.",
     over=["inputs"],
     q="every import graph: shared imports, chains of any depth, files of one package, public and weak imports",
     tests="The one test of the dependencies has a single file whose imports are two levels deep; shared imports, several imports and repeated calls are not tested.",
     files=["pkg/protoutils/desc/desc.go", "runtime/module/descriptor.go", "pkg/protoutils/oas3schema/oas3schema.go"],
     mech=[("walk of the imports", "pkg/protoutils/desc/desc.go:dependencies"), ("files published for a type", "runtime/module/descriptor.go:getDeps"), ("files of the document", "pkg/protoutils/oas3schema/oas3schema.go:recursiveRegistryBuilder")],
     technique=SYM + "; induction over the import graph: the recursive call is replaced by its contract and every path over an arbitrary list of imports is checked",
     note=TRUST + "That imports are acyclic is guaranteed by protobuf. That descriptors published belong to the module's own types is C24; what is written per message into the document is not part of the property."),
]
NA = []
NOTES = "All checks read /repo's working tree through go/packages and SSA; nothing of /repo is executed."
