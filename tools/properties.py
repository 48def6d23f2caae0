#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text of the properties is edited here."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Decrypt returns exactly what was last written, for any object and history",
  "For every plaintext and associated data (any bytes, any length, empty or absent) and every history of Encrypt and Update over any number of objects, an authorized Decrypt returns exactly the plaintext and associated data of the last acknowledged Encrypt or Update of that object, byte for byte. This holds whichever library instance with the same keys and storage performs each call, and operations on one object never change another, and object IDs are never handed out twice.",
  ["inputs", "histories", "configurations"],
  "every byte string as plaintext and associated data; every interleaved history of Encrypt/Update/Decrypt on many objects, by several callers, across several instances sharing one store (in-memory or bolt)",
  "The tests encrypt one or two short strings and use one instance; size- or content-dependent corruption and stale state across instances are never exercised.",
  ["d1.go", "utility.go", "data/object.go", "crypto/cryptor.go", "crypto/aes.go", "io/mem.go", "io/bolt.go"],
  [("object sealing", "data/object.go Seal/Unseal"), ("record encoding", "utility.go put/getSealedObject")],
  ["return values of Encrypt/Update/Decrypt"])

p("C02", "Operations succeed exactly for callers with the scope and access they need",
  "Every object operation and every index operation fails with the not-authenticated error if the Identity Provider rejects the token, and with the not-authorized error if the caller's own scopes lack the scope documented for the operation. Operations on an existing object further succeed only if one of the caller's IDs (its own or a group's) is exactly an entry of the object's access list and that same ID carries the required scope; otherwise they fail with the not-authorized error. A caller who meets all requirements is never refused.",
  ["inputs", "histories", "configurations"],
  "every combination of identity scopes, group scopes, group memberships, access-list contents and ID strings (similar, empty, prefix, case or Unicode variants), for every operation of the library and the index",
  "The tests check a handful of scope/membership combinations per operation, with UUID identities only; the full matrix and near-miss IDs are unreachable by examples.",
  ["d1.go", "utility.go", "index/index.go", "id/id.go", "id/scope.go", "data/access.go"],
  [("verifyAccess", "utility.go, index/index.go"), ("authorizeAccess", "utility.go"), ("GetIDScope/GetIDs", "id/id.go"), ("Scope.Contains", "id/scope.go")],
  ["error and result of every operation, per identity"])

p("C03", "Access lists contain exactly the acknowledged grants, effective at once",
  "After any history, an object's access list is exactly the set of IDs given at Encrypt, plus the creator's ID, plus all IDs added, minus those removed, in the order acknowledged; Update and Decrypt never change it. Adding or removing an ID takes effect for the very next call of any caller on any instance sharing the storage. IDs are opaque strings: distinct IDs never merge and are never altered.",
  ["inputs", "histories", "configurations"],
  "every history of Encrypt/AddGroups/RemoveGroups/Update/Get over several objects, with arbitrary ID strings, empty lists, duplicates, removal of absent entries, several instances",
  "Tests add and remove at most a few UUIDs on a single object and instance.",
  ["d1.go", "utility.go", "data/access.go"],
  [("Add/Remove/GetGroups", "data/access.go"), ("access re-sealing", "d1.go AddGroupsToAccess/RemoveGroupsFromAccess/Update")],
  ["GetAccessGroups result", "access decisions of other callers"])

p("C04", "A refused call changes nothing and reveals nothing",
  "When an operation of the library, the index or the Standalone ID Provider is refused because the caller is not authenticated or not authorized, no stored record is created, changed or deleted. The refused caller receives no plaintext, associated data, group list, identifier, object ID or password, only an error. Later calls by others behave as if the refused call had never been made.",
  ["inputs", "histories"],
  "every operation with every way of lacking authentication or authorization, at any point of any history",
  "Tests look at the returned error only; they never compare the storage before and after a refused call.",
  ["d1.go", "utility.go", "index/index.go", "id/standalone.go"],
  [("verify before effect", "d1.go"), ("verify before effect", "index/index.go"), ("membership check before update", "id/standalone.go")],
  ["all calls arriving at the IO Provider during a refused call", "its return values"])

p("C05", "Modified, swapped or mixed stored objects and access lists are rejected",
  "If stored object or access-list records are altered in any way (bits flipped, truncated, extended, associated data or wrapped keys changed, records exchanged between objects or between versions written at different times), no call ever returns plaintext or associated data that was not written together to that very object. No altered record ever gives a caller access which no genuine access list of that object gave. The call fails with an error instead, unless the altered record still decodes to a genuine one.",
  ["inputs", "fault_sequences", "histories"],
  "every modification of the stored bytes: bit flips at every position of every field, truncation, extension, transplants across object IDs, types and versions",
  "Tests flip one bit of one ciphertext in one record; they do not cover every field, transplants across objects or mixtures of versions.",
  ["data/object.go", "data/access.go", "crypto/aes.go", "crypto/kwp.go", "crypto/cryptor.go", "utility.go"],
  [("OID and associated data authenticated", "data/object.go"), ("OID authenticated", "data/access.go"), ("requested OID used, not the stored one", "utility.go getSealed*"), ("per-version DEK", "data/object.go")],
  ["results of all operations on manipulated storage"])

p("C06", "Modified or swapped user and group records and identity tokens are rejected",
  "If stored user or group records are altered, truncated or exchanged with the record of another user or group, the Standalone ID Provider never authenticates anybody with credentials or tokens that do not belong to the identity, and never returns an identity with scopes or groups that were not genuinely assigned to it. Any altered, foreign-key or otherwise not genuinely issued identity token is rejected. The failure is an error, not a different identity.",
  ["inputs", "fault_sequences"],
  "every modification of stored users and groups (bit flips per field, truncation, exchange between IDs) and of token strings and token fields",
  "Tests corrupt one user record and a few tokens; they never exchange records between IDs.",
  ["id/standalone.go", "id/standalone_user.go", "id/standalone_group.go", "data/token.go"],
  [("UID authenticated", "id/standalone_user.go seal/unseal"), ("GID authenticated", "id/standalone_group.go"), ("requested ID used, not the stored one", "id/standalone.go getUser/getGroup"), ("expiry authenticated", "data/token.go")],
  ["results of LoginUser, ChangeUserPassword, GetIdentity on manipulated storage and tokens"])

p("C07", "Storage never sees plaintext, groups, keywords, passwords or keys",
  "Nothing the library hands to the IO Provider (record IDs or record contents) contains plaintext, access-list entries, index keywords or identifiers, passwords, identity tokens or key material in any readable encoding; only object IDs, user and group IDs as record names, associated data and record types are visible. What storage sees for two runs that differ only in secret contents of equal length has the same sequence of operations, types and sizes. Errors returned to callers do not contain these secrets either.",
  ["inputs", "histories"],
  "every secret value and every history of operations of the library, the index and the Standalone ID Provider",
  "Tests never look at the bytes that reach the IO Provider.",
  ["data/object.go", "data/access.go", "data/node.go", "data/token.go", "id/standalone_user.go", "id/standalone_group.go", "index/index.go", "utility.go"],
  [("sealing before storing", "data/*.go"), ("keyed labels", "data/node.go NextLabel"), ("JSON of sealed structures only", "utility.go, index/index.go, id/standalone.go")],
  ["every byte crossing the IO Provider boundary", "error strings"])

p("C08", "Every sealing uses fresh, full-entropy random keys, nonces and salts",
  "Every time anything is sealed (objects, access lists, users, groups, index nodes, tokens), a new 256-bit data key and a new nonce are drawn in full from the system's cryptographic random source, and no key, nonce, salt or password is ever used twice; this also holds for Update, for changes of access lists and across instances. Sealing equal contents twice therefore gives unrelated ciphertexts and wrapped keys. Object, user and group IDs are random UUIDs.",
  ["inputs", "histories", "configurations"],
  "every history of sealing operations, equal or different contents, one or several instances and processes",
  "Tests compare at most two ciphertexts; key reuse after many operations, partial entropy or a weak generator pass them.",
  ["crypto/cryptor.go", "crypto/aes.go", "crypto/random.go", "crypto/password.go", "data/object.go"],
  [("NativeRandom", "crypto/random.go"), ("key per Encrypt call", "crypto/cryptor.go Encrypt"), ("nonce per Encrypt call", "crypto/aes.go Encrypt"), ("salt", "crypto/password.go")],
  ["stored records opened with an independent implementation", "bytes drawn from the system random source"])

p("C09", "Stored records follow the documented format: standard, stable, one key each",
  "Every stored record and token can be opened by an independent implementation of AES-256-GCM, AES-KWP and KMAC-256 using only the documented key for its kind (object, access, token, index, user, group), and records written by such an implementation, including all earlier versions of this library, are accepted by it. Each record kind depends on its own master key alone. What is authenticated is exactly the object ID and associated data, the object ID, the expiry time, the user ID, the group ID or the label respectively.",
  ["inputs", "histories", "configurations"],
  "every record kind, contents and key set, in both directions (library writes / reference reads, reference writes / library reads)",
  "Tests only let the code talk to itself, so a change of format on both sides passes while all existing data becomes unreadable.",
  ["crypto/cryptor.go", "crypto/aes.go", "crypto/kwp.go", "crypto/kmac.go", "crypto/tagger.go", "crypto/kdf.go", "data/object.go", "data/access.go", "data/token.go", "data/node.go", "id/standalone_user.go", "id/standalone_group.go", "d1.go", "index/index.go"],
  [("key assignment", "d1.go New, id/standalone.go NewStandalone, index/index.go getTaggerAndCryptor"), ("serialization", "crypto/cryptor.go")],
  ["stored records and tokens", "results of reading reference-written records"])

p("C10", "The cryptographic primitives match their standards for every input",
  "For all inputs, key wrapping equals AES-KWP (RFC 5649 / SP 800-38F), KMAC-128/256 and the derived tagger and KDF equal SP 800-185, AES-256-GCM output is ciphertext, tag and nonce of the standard algorithm, and password hashes are salted PBKDF2 over SHA3-256. Decryption and unwrapping invert encryption and wrapping, and reject every input that is not a genuine output for that key, including wrong lengths and forged paddings. A MAC object may be fed in any pieces, summed repeatedly and reset without changing the result.",
  ["inputs"],
  "all keys, lengths, messages, customization strings, tag sizes, call sequences and forged inputs",
  "Tests use a few published vectors and random round trips through the same code; alignment-dependent deviations and missing padding checks are not reached.",
  ["crypto/kwp.go", "crypto/kmac.go", "crypto/aes.go", "crypto/tagger.go", "crypto/kdf.go", "crypto/password.go"],
  [("W and integrity check", "crypto/kwp.go"), ("KMAC framing", "crypto/kmac.go"), ("GCM layout", "crypto/aes.go"), ("PBKDF2", "crypto/password.go")],
  ["outputs compared with independent implementations"])

p("C11", "Tokens yield their contents until they expire, and never when altered",
  "A token made from any data returns exactly that data until its validity period (one hour for tokens made by the library) is over, and never afterwards, on any instance with the same token key, also after being written to and read from its string form. The visible expiry time cannot be changed, and any altered token, token sealed under another key or combination of parts of different tokens is rejected. The expiry is the time of creation plus the validity period.",
  ["inputs", "histories", "configurations"],
  "every token content, creation time and time zone, every moment of use, every alteration of fields or string form",
  "Tests wait for no clock: they check one fresh and one already expired token and flip single bits.",
  ["data/token.go", "d1.go", "id/standalone.go"],
  [("expiry authenticated and checked", "data/token.go Unseal"), ("String/TokenFromString", "data/token.go")],
  ["GetTokenContents, Unseal, GetIdentity under a virtual clock"])

p("C12", "Index search returns exactly the identifiers added and not deleted",
  "For every history of Add and Delete, Search for a keyword returns exactly the identifiers added to exactly that keyword and not deleted since, each as often as it was added, in the order of addition; Delete removes all occurrences of the pair and nothing else. Keywords are independent of each other, and keywords and identifiers are opaque strings that are returned unaltered. The result does not depend on which instance with the same key and storage is used.",
  ["inputs", "histories", "configurations"],
  "every history of Add/Delete/Search over any number of keywords, identifiers (duplicates, empty, similar, arbitrary bytes) and instances",
  "Tests run about ten fixed sequences of at most five entries on one or two keywords.",
  ["index/index.go", "data/node.go"],
  [("chain of counters", "index/index.go Add/Search/Delete/deleteNode"), ("labels per keyword", "index/index.go getTaggerAndCryptor")],
  ["Search results against a list model"])

p("C13", "The index hides keywords, identifiers and their relations from storage",
  "Record names used by the index are 32-byte pseudorandom labels depending on the secret index key, the keyword and the position only: different keywords, positions or keys never share a label, and without the key a label cannot be recomputed. What storage observes of a history (calls, names up to renaming, sizes) is unchanged when keywords and equally long identifiers are consistently replaced by others, and for additions and searches it does not even depend on which identifiers coincide. Records of equal identifiers under the same or different keywords look unrelated.",
  ["inputs", "histories", "configurations"],
  "every history over keywords and identifiers and every pair of histories equal up to renaming",
  "Tests only look at results of searches, never at what the storage observes.",
  ["index/index.go", "data/node.go", "crypto/tagger.go", "crypto/kdf.go"],
  [("per-keyword keys", "index/index.go getTaggerAndCryptor"), ("labels", "data/node.go NextLabel")],
  ["sequence of calls, names and sizes at the IO Provider, paired runs"])

p("C14", "Storage failures never corrupt the index or revive deleted entries",
  "If storage fails or the process stops at any storage call during Add or Delete, every other entry remains searchable as before, in the same order, and of the entry concerned an occurrence is either there or not, never altered. An interrupted operation can simply be repeated to reach its intended result. An identifier whose deletion was acknowledged (at first or after repetition) never reappears in any search, whatever happens afterwards, unless it is added again.",
  ["fault_sequences", "crash_points", "histories"],
  "every storage call of every Add/Delete/Search as failing point (before or after taking effect, once or for good), in every history, followed by any history",
  "No test injects a failure into the index.",
  ["index/index.go", "data/node.go"],
  [("overwrite before delete", "index/index.go deleteNode"), ("skipped counters cleaned", "index/index.go deleteNode")],
  ["Search results after faults against a set of allowed models"])

p("C15", "Manipulated index records never make a search return foreign entries",
  "If stored index records are altered, truncated, or moved to other labels, keywords or indexes, Search either fails with an error or returns only identifiers that genuinely were added to that keyword in that index, and Add and Delete never act on a forged record. A record is accepted only under the label it was written for. Every search ends after finitely many storage accesses whatever storage returns.",
  ["inputs", "fault_sequences"],
  "every modification of every stored node (bit flips per field, truncation, exchange among labels, keywords, index keys, replay of earlier records)",
  "Tests flip one bit in one sealed node outside the index; the index itself is never run on manipulated storage.",
  ["index/index.go", "data/node.go"],
  [("label authenticated", "data/node.go Seal/Unseal"), ("strictly growing counter", "index/index.go")],
  ["results and storage accesses of Search/Add/Delete on manipulated storage"])

p("C16", "A storage failure during an object operation is reported and leaves it intact",
  "If storage fails or the process stops at any storage call of an object operation, the operation never reports success without having taken full effect, and afterwards the object is, for every caller, either as before or as if the operation had succeeded: its content is the old or the new one, its access list is the old or the new one. No other object is affected. A failed Encrypt leaves nothing that anybody can open, unless it took full effect.",
  ["fault_sequences", "crash_points", "histories"],
  "every storage call of every operation as failing point (before or after taking effect, once or for good), in every history",
  "One test injects failures into Delete only.",
  ["d1.go", "utility.go"],
  [("write order and error propagation", "d1.go"), ("error mapping", "utility.go")],
  ["results of operations under faults and of all reads afterwards"])

p("C17", "Deletion is complete, final, idempotent and can always be retried",
  "After an acknowledged Delete, storage holds no record of the object, no operation on it succeeds for anyone ever again (except Delete, which keeps succeeding without effect), and other objects are untouched. If Delete is interrupted by a storage failure at any point, an authorized caller can repeat it until it is acknowledged, without ever leaving undeletable remains of the object. A refused Delete removes nothing.",
  ["histories", "crash_points", "fault_sequences"],
  "every history of operations around Delete, every failing storage call within it, repeated any number of times",
  "One test covers two failure points of a single Delete.",
  ["d1.go", "utility.go", "io/mem.go", "io/bolt.go"],
  [("object first, access last", "d1.go Delete"), ("missing access means deleted", "d1.go Delete")],
  ["storage contents and results of all operations after Delete"])

p("C18", "IO Providers are exact, linearizable maps keyed by ID and type",
  "Each built-in IO Provider (in-memory, bolt, proxy) behaves, also under concurrent use, like an atomic map from (ID, data type) to bytes: Put succeeds only if the entry is absent, Update only if it is present, Get returns exactly the bytes last written, Delete removes the entry and never fails for an absent one, with the documented errors otherwise. Entries with different ID or type never influence each other, for arbitrary bytes and lengths of ID and data. A failed call changes nothing.",
  ["inputs", "histories", "schedules"],
  "all IDs, types and data (empty, long, binary, sharing prefixes), all concurrent histories of Put/Get/Update/Delete",
  "Tests issue sequential calls with one ID and short texts; no test is concurrent.",
  ["io/mem.go", "io/bolt.go", "io/io.go", "io/proxy.go"],
  [("newKey", "io/mem.go"), ("bolt transactions", "io/bolt.go"), ("LoadOrStore / mutex", "io/mem.go")],
  ["recorded concurrent histories at the provider interface"])

p("C19", "Bolt storage: acknowledged writes survive a crash, others are all or nothing",
  "When a call of the bolt IO Provider has returned successfully, its effect survives a crash or power failure at any later moment, including the loss of all file writes that were not yet forced to disk. A call that had not returned has happened completely or not at all. After every crash the file opens again and all other entries are unchanged.",
  ["crash_points", "histories"],
  "every point between the file operations of any history of Put/Update/Delete as crash point, with any subset of unsynced file writes lost",
  "No test reopens a file, let alone after a crash.",
  ["io/bolt.go"],
  [("one bolt transaction per call, default sync options", "io/bolt.go")],
  ["log of file writes and syncs, crash images reopened by the provider"])

p("C20", "One instance can be used concurrently without races or cross-talk",
  "A library instance, index, Standalone ID Provider, IO Provider and their context may be used by many goroutines at once without data races. Calls that concern different objects, keywords or users give exactly the results they would give alone: concurrent use never mixes plaintexts, access lists, identities, search results or log fields of different calls. Input slices shared between concurrent calls are safe as long as the callers only read them.",
  ["schedules", "histories"],
  "every interleaving of concurrent operations on different targets sharing instances, contexts, loggers and input slices",
  "All tests are sequential and the race detector is not run on concurrent use.",
  ["d1.go", "utility.go", "index/index.go", "id/standalone.go", "log/log.go", "io/mem.go", "io/bolt.go", "crypto/cryptor.go", "crypto/kwp.go", "data/access.go"],
  [("no shared mutable state", "d1.go, crypto/cryptor.go"), ("per-call logger", "log/log.go"), ("synchronized storage", "io/mem.go, io/bolt.go")],
  ["race detector reports", "results per goroutine against a sequential model"])

p("C21", "Concurrent calls on the same target act as if one after the other",
  "When operations run concurrently on the same object, index keyword or user, the results and the final state are those of the acknowledged operations executed in some order, where a call that returned an error may or may not have taken effect. In particular no acknowledged change is lost, no removed entry or password comes back, and the target stays usable. No interleaving ever returns content that was never written or grants access that no version of the access list gave.",
  ["schedules"],
  "every interleaving of the storage calls of concurrent operations on one object, keyword or user",
  "All tests are sequential.",
  ["d1.go", "index/index.go", "id/standalone.go", "utility.go"],
  [("Put refuses existing entries", "index/index.go Add via io.Provider.Put"), ("per-version DEK", "data/object.go")],
  ["results and final state for every schedule of storage calls"])

p("C22", "The library neither modifies nor keeps hold of its callers' memory",
  "No call modifies memory belonging to its caller or to the providers it uses: slices, maps and structures passed in or handed out by a provider, nor the unused capacity behind them (except where a primitive is documented to work in place or to append). Changing inputs after a call returned (wiping key material included), or changing results, never affects what is stored, what later calls return or which keys are used. (Plain data structures such as tokens or access lists may refer to what they were made from until they are sealed.)",
  ["inputs", "histories"],
  "every slice, map and struct argument and result of the public operations, with spare capacity, later overwritten",
  "Tests pass fresh literals and never touch them again.",
  ["d1.go", "io/mem.go", "io/bolt.go", "index/index.go", "key/static.go", "crypto/cryptor.go", "crypto/kwp.go", "data/object.go"],
  [("copies on entry and exit", "io/mem.go, key/static.go, index/index.go"), ("copy before in-place decryption", "crypto/cryptor.go Decrypt")],
  ["canaries around arguments, later results after overwriting arguments and results"])

p("C23", "Only a user's current password logs in, and only as that user",
  "LoginUser and ChangeUserPassword succeed exactly for an existing user ID together with the password most recently issued for it (or one that HMAC cannot tell from it, such as the same followed by zero bytes); wrong, outdated, other users' or slightly different passwords, unknown or deleted users are refused with the not-authenticated error. A successful login gives a token that identifies exactly that user for the validity period, and a failed password change leaves the old password valid (unless storage carries out a write that it reports as failed). User IDs, passwords and salts are unique, and only a salted hash of the password is kept.",
  ["inputs", "histories"],
  "every history of NewUser/LoginUser/ChangeUserPassword/DeleteUser over many users, and every candidate password",
  "Tests use one user and one wrong password.",
  ["id/standalone.go", "id/standalone_user.go", "crypto/password.go", "data/token.go"],
  [("PBKDF2 comparison", "crypto/password.go Compare"), ("changePassword", "id/standalone_user.go")],
  ["results of logins and identities against a model"])

p("C24", "Identities carry exactly the assigned scopes and group memberships",
  "GetIdentity returns exactly the user ID, the scopes given at creation and the groups the user currently belongs to with the scopes of those groups, for every history of user and group operations. Only members of all the named groups can add users to or remove users from them, the creator of a group is its first member, and such calls change the membership of the named user in the named groups only. Nothing a caller may do to another user's groups makes that user unable to authenticate.",
  ["inputs", "histories"],
  "every history of NewUser/NewGroup/AddUserToGroups/RemoveUserFromGroups/DeleteUser by any callers with any arguments, and all scope sets",
  "Tests use two or three users and one or two groups with one scope set.",
  ["id/standalone.go", "id/standalone_user.go", "id/standalone_group.go", "id/scope.go", "id/id.go"],
  [("membership check", "id/standalone.go AddUserToGroups/RemoveUserFromGroups"), ("identity composition", "id/standalone.go GetIdentity"), ("ScopeUnion", "id/scope.go")],
  ["GetIdentity results and errors against a model"])

p("C25", "Hostile tokens, identifiers or stored bytes give errors, never a crash",
  "Whatever strings are presented as tokens, user IDs, passwords, keywords or group IDs and whatever bytes storage returns, every operation returns normally: it neither panics nor hangs nor exhausts memory. Data that is not genuine results in an error. This also holds for decoding and decrypting functions of the library called directly with arbitrary sealed inputs.",
  ["inputs", "fault_sequences"],
  "all byte strings as tokens, IDs, passwords, sealed structures and stored records: random, truncated, type-confused, deeply nested, huge numbers",
  "Tests use a few invalid tokens and bit flips.",
  ["data/token.go", "data/object.go", "data/access.go", "data/node.go", "crypto/kwp.go", "crypto/aes.go", "crypto/password.go", "id/standalone.go", "utility.go", "index/index.go"],
  [("length checks", "crypto/aes.go, crypto/kwp.go, crypto/password.go"), ("decoding errors returned", "utility.go, index/index.go, id/standalone.go, data/token.go")],
  ["panics, results and number of storage accesses per hostile input"])

p("C26", "Wrong-length keys are refused, and each master key guards its own data only",
  "Creating a library instance, an index or a Standalone ID Provider fails with an error if any key it uses is not exactly 32 bytes long or if the Key Provider fails, and works otherwise. An instance with one differing master key cannot open or use the data protected by that key, gets an error rather than wrong data, and can still open everything protected by the keys that are equal. Index lookups under another index key find nothing.",
  ["inputs", "configurations"],
  "every key length in every slot; every set of differing keys between a writing and a reading instance, for every data kind",
  "Tests construct instances with one valid key set, plus one wrong length for the tagger.",
  ["d1.go", "index/index.go", "id/standalone.go", "crypto/cryptor.go", "crypto/kwp.go", "key/key.go"],
  [("length check", "crypto/cryptor.go NewAESCryptor, index/index.go NewSecureIndex"), ("one cryptor per key", "d1.go New, id/standalone.go NewStandalone")],
  ["constructor results", "read results across instances"])

p("C27", "Logging stays at debug level and inside the call it belongs to",
  "The library writes nothing unless a logger is supplied through the context, and then only at debug level: with a logger at info level or above nothing is written. The caller's logger is never changed: its later lines carry exactly its own fields. Log lines of a call carry the caller's fields and the fields of that call only, also when many calls share a logger concurrently, and logging never changes the result of an operation; no log line contains a plaintext, keyword, index identifier, password, identity token or key.",
  ["inputs", "histories", "schedules"],
  "every operation, with loggers of every level, with and without fields, shared between any number of sequential, nested or concurrent calls",
  "No test supplies a logger.",
  ["log/log.go", "d1.go", "utility.go", "index/index.go", "id/standalone.go"],
  [("per-call copy", "log/log.go CopyCtxLogger"), ("Debug() only", "all log.Ctx calls")],
  ["lines written by loggers under test"])

p("C28", "Errors tell what happened, and pass on failures of the providers",
  "An operation fails with a documented error exactly if the condition that this error stands for holds, and then with no other documented one. A failure of the IO or Key Provider that has no documented meaning comes back as itself (recognizable with errors.Is and errors.As) and matches no documented error, except that a failure while the caller is being authenticated may be, and outside the ID Provider is, the not-authenticated error. Storage's documented errors (not found, already exists), however wrapped, become the error of the record concerned, and failed calls return no result.",
  ["inputs", "fault_sequences"],
  "every operation, every storage call of it, every kind of failure (plain, wrapped, joined, with a type of its own, with the text of a documented one) and every condition that has an error",
  "Tests compare a few errors of operations on missing objects and wrong tokens; hardly any injects a failure.",
  ["d1.go", "utility.go", "index/index.go", "id/standalone.go", "id/standalone_user.go", "id/standalone_group.go", "io/io.go", "crypto/crypto.go"],
  [("error mapping", "utility.go, index/index.go, id/standalone_user.go, id/standalone_group.go"), ("authentication failures", "utility.go verifyAccess, index/index.go")],
  ["errors returned by every operation under every condition and failure"])

p("C29", "Providers get the caller's context and token, only while the call runs",
  "Every call to an IO, Identity or Key Provider is made during the operation it belongs to and with that operation's context: its values, deadline and cancellation; nothing runs on after an operation has returned. The Identity Provider is asked with exactly the token the caller presented, in each operation anew. If providers give up because the context has ended, the operation ends with an error without going on.",
  ["inputs", "configurations", "fault_sequences"],
  "every operation and constructor, every call to a provider within it, contexts of every kind (values, deadlines, causes, foreign implementations, already ended, ended while a provider waits), every token",
  "Tests use context.Background() and providers that ignore it.",
  ["d1.go", "utility.go", "index/index.go", "id/standalone.go", "io/proxy.go", "key/static.go"],
  [("context passed on", "every provider call"), ("no goroutines", "whole library")],
  ["contexts and tokens seen by providers, calls after return, goroutines left"])

p("C30", "Storage holds exactly what exists, and operations touch only their target",
  "After any history of acknowledged operations storage holds one object and one access record per existing object, one record per identifier added to a keyword and not deleted, one per existing user and one per group, and nothing else. Every call to storage that an operation makes concerns records of its own target, or reads the caller's user and group records, and refused operations leave nothing behind. The size of an object's, user's or group's records depends only on their current contents, and the number of storage calls only on the groups or entries that the operation is about, however long the history was (deleting index entries may also clear places of earlier ones).",
  ["histories"],
  "every history of operations of all parts over one storage, by any callers",
  "Tests look at single results and never at what storage contains.",
  ["d1.go", "utility.go", "index/index.go", "id/standalone.go", "id/standalone_user.go", "id/standalone_group.go"],
  [("record per object", "d1.go Encrypt/Delete"), ("chain of nodes", "index/index.go Add/Delete"), ("user and group records", "id/standalone.go")],
  ["storage contents and storage calls after every operation"])

p("C31", "Instances keep no state: any instance can take over at any time",
  "Whatever an instance of the library, the index or the Standalone ID Provider did before, its next operation has the result and effect that a new instance with the same keys would have on the same storage and Identity Provider. This holds for copies of an instance, and when storage or identities changed behind its back: through other instances, by restoring an earlier state of storage, by altering records, or by time passing.",
  ["histories", "configurations"],
  "every history of operations of one instance, interleaved with operations of other instances, copies, and changes of storage and identities",
  "Tests use one instance from beginning to end; state kept in memory cannot differ from storage there.",
  ["d1.go", "utility.go", "index/index.go", "id/standalone.go", "crypto/cryptor.go", "crypto/kwp.go"],
  [("no fields but keys and providers", "d1.go D1, index/index.go SecureIndex, id/standalone.go Standalone")],
  ["results and later reads of an old and of a new instance, side by side"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
