#!/usr/bin/env python3
"""Writes properties.jsonl. Kept so that the list stays easy to edit."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   observe_at=observe or [],hook_needed=hook)))

p("P01","Sessions and logins follow the PKCS#11 state machine",
 "For every sequence of session and login calls (C_OpenSession, C_CloseSession, C_CloseAllSessions, C_Login, C_Logout, C_InitPIN, C_SetPIN), each call succeeds or fails exactly as the PKCS#11 session state machine says, and every open session reports the matching state through C_GetSessionInfo. Login is a property of the whole token: it changes every open session of that token at once, a user and an SO are never logged in together, a read-only session never coexists with an SO login, and closing the last session of a token logs it out. C_GetTokenInfo counts exactly the open sessions.",
 ["histories"],"all call sequences over two slots' worth of sessions (read-only and read-write), both user types, right and wrong PINs",
 "Tests walk a few fixed login scripts; the guarantee is about every interleaving of opens, closes, logins and logouts across several sessions.",
 ["src/session.rs","src/slot.rs","src/lib.rs","src/fns/sessmgmt.rs","src/token.rs"],
 [("session state transitions","src/session.rs Session::change_session_state"),("last session closes => logout","src/slot.rs drop_session"),("login checks","src/fns/sessmgmt.rs login/logout")],
 [("session state","CKS_* state of each session","src/session.rs Session.info"),("login","who is logged in to the token","src/token.rs Token.logged")],
 ["C_GetSessionInfo","C_GetTokenInfo","return codes of C_Login/C_Logout/C_OpenSession"])
p("P02","Only the right PIN authenticates; the attempt limit is enforced durably",
 "For every history of C_Login, C_SetPIN, C_InitPIN and restarts, authentication succeeds only with the PIN most recently set for that user, and a failed PIN change leaves the old PIN valid. Consecutive failures are counted across sessions, PIN-changing calls and library restarts, a success resets the count, and once the limit is reached the PIN is refused even when correct until an SO resets the user PIN. The PIN flags reported by C_GetTokenInfo never claim a PIN is usable when it is not initialised or locked.",
 ["histories","configurations"],"all sequences of right/wrong logins, PIN changes, SO resets and restarts, around the lockout boundary, for both database back ends",
 "The tests try one lockout on one path; they do not mix restarts, SetPIN failures and SO resets, and never look at the boundary from both sides.",
 ["src/token.rs","src/storage/aci.rs","src/storage/nssdb/mod.rs","src/fns/sessmgmt.rs"],
 [("attempt counter","src/storage/aci.rs authenticate / src/token.rs auth_user"),("PIN wrapping of the master key","src/storage/aci.rs")],
 [("cur_attempts","failed attempts so far","src/storage/aci.rs StorageAuthInfo")],
 ["C_Login","C_SetPIN","C_InitPIN","C_GetTokenInfo"])
p("P03","Private objects are out of reach unless the user is logged in",
 "While the normal user is not logged in (never logged in, logged out, last session closed, SO logged in, or after a restart), a private token object is out of reach of every call on every session: searches do not return it, and reading, sizing, copying, changing, destroying it or using it in an operation through its handle fails and leaves it unchanged. No private token object can be created without a user login, and logging out destroys private session objects. Public objects stay readable.",
 ["histories"],"all histories of logins, logouts, closes and restarts interleaved with every call that takes an object handle",
 "Tests check one or two calls after one logout; the guarantee covers every handle-taking call in every login state.",
 ["src/token.rs","src/fns/objmgmt.rs","src/fns/keymgmt.rs","src/fns/signing.rs","src/fns/encryption.rs","src/fns/digest.rs"],
 [("private check on handle use","src/token.rs get_object_by_handle / get_object_attrs / search_objects"),("session objects cleared on logout","src/token.rs logout")],None,
 ["C_FindObjects","C_GetAttributeValue","C_GetObjectSize","C_CopyObject","C_SetAttributeValue","C_DestroyObject","all C_*Init"])
p("P04","Sensitive or unextractable key values never leave the token in clear",
 "Once a key is sensitive or not extractable, no sequence of API calls (reading, changing attributes, copying, searching by value, restarting, failing calls) ever returns its secret value, and no search tells whether a guessed value is right. When a template mixes sensitive and other attributes, the sensitive ones are reported unavailable while the others are still returned. A copy of such a key is as protected as the original.",
 ["histories"],"all sequences of attribute reads, attribute changes, copies, restarts and searches over each key class and every initial sensitive/extractable combination",
 "Tests read one sensitive key; they do not search for call sequences that launder it through another class, copy or session.",
 ["src/object/factory.rs","src/object/key.rs","src/token.rs","src/storage/format.rs","src/storage/sqlite.rs","src/storage/nssdb/mod.rs"],
 [("sensitive filter","src/object/factory.rs get_object_attributes/check_sensitive"),("copy rules","src/object/factory.rs default_copy")],None,
 ["C_GetAttributeValue","C_CopyObject","C_FindObjects"])
p("P05","Attribute changes obey the one-way and read-only rules",
 "For every object, session or token, and every sequence of C_SetAttributeValue and C_CopyObject calls, an attribute changes only if the object is modifiable and the change is allowed: sensitive and wrap-with-trusted only to true, extractable and copyable only to false, and class, key type, key value, token flag, unique id, trusted flag and provenance attributes never by the user. A refused change leaves every attribute of the template, including the allowed ones, unchanged. An object that is not copyable is never copied and one that is not destroyable is never destroyed.",
 ["histories"],"all sequences of changes and copies over all one-way and read-only attributes, for session and token objects and both back ends",
 "Tests try single attributes once; they do not compare session with token objects, nor sequences, nor templates mixing allowed and refused changes.",
 ["src/object/factory.rs","src/object/key.rs","src/token.rs"],
 [("per-attribute change flags","src/object/factory.rs OAFlags, check_set_attributes, default_copy")],None,
 ["C_SetAttributeValue","C_CopyObject","C_DestroyObject","C_GetAttributeValue"])
p("P06","Read-only sessions never change token objects",
 "Through a read-only session no call ever creates, copies into, modifies or destroys a token object, whatever the login state, while the same call on session objects is allowed. Session objects may be created through any session.",
 ["histories"],"every object-creating or object-changing call through every kind of session in every login state",
 "Tests check C_CreateObject only; key generation, key pairs, unwrapping, derivation, copying and attribute changes each have their own check.",
 ["src/fns/objmgmt.rs","src/fns/keymgmt.rs","src/session.rs"],
 [("fail_if_not_writable / token object checks","src/fns/objmgmt.rs, src/fns/keymgmt.rs")],None,["return codes","C_FindObjects afterwards"])
p("P07","Objects stay exactly as created until changed or destroyed",
 "Every successfully created object has exactly the attribute values given (plus defined defaults) until it is successfully changed or destroyed; a failed call changes nothing. Token objects survive closing all sessions and restarting the library with the same values; session objects vanish when the session that created them closes, and only those. Destroying or changing one object never affects another.",
 ["histories","configurations"],"all histories of create, copy, change, destroy, session close, logout and restart over several objects, for both database back ends",
 "Tests create one object at a time; cross-object and cross-session effects over longer histories are not sampled.",
 ["src/token.rs","src/storage/format.rs","src/storage/sqlite.rs","src/storage/nssdb/mod.rs","src/slot.rs"],
 [("session object table","src/token.rs session_objects"),("token object rows","src/storage/sqlite.rs, src/storage/nssdb/mod.rs")],None,["C_GetAttributeValue","C_FindObjects"])
p("P08","A search returns exactly the visible objects matching the template",
 "For every object population and template, C_FindObjectsInit and C_FindObjects return the handle of every visible object matching all template attributes, each exactly once, and no other, whatever batch sizes the caller uses. The handles returned are the ones other calls use for those objects. A search is unaffected by other sessions' searches and ends cleanly with C_FindObjectsFinal.",
 ["inputs","histories"],"all templates over a small attribute alphabet, all batch sizes, all small populations of session and token objects, both back ends",
 "Tests use a handful of templates with one batch size.",
 ["src/token.rs","src/storage/sqlite.rs","src/storage/nssdb/mod.rs","src/fns/objmgmt.rs","src/session.rs"],
 [("template match","src/object/mod.rs match_template; src/storage/sqlite.rs search"),("result batching","src/session.rs")],None,["C_FindObjectsInit","C_FindObjects","C_FindObjectsFinal"])
p("P09","Handles are unique and stale handles are refused",
 "At any time no two live sessions and no two live objects of a slot share a handle, and an object keeps its handle while it is reachable. A handle of a closed session or destroyed object, or one never issued, is refused by every call with the matching invalid-handle error and never reaches another object or session, even after new ones are created.",
 ["histories"],"all histories of open/close/create/destroy, probing every handle ever issued after every step",
 "Tests use a stale handle right after destroying; reuse needs a later create or open.",
 ["src/token.rs","src/lib.rs","src/slot.rs"],
 [("handle maps","src/token.rs Handles"),("session handle counter","src/lib.rs State.next_handle")],None,["return codes of all handle-taking calls"])
p("P10","A crash leaves the token as before or after the interrupted call",
 "If the process dies at any point of a call that changes stored data (token initialisation excepted before it reports success), reopening the database shows every stored object, PIN and label exactly as before that call or exactly as after it, and the token still opens. Every change whose call had returned success is still there.",
 ["crash_points"],"every prefix of the sequence of file-system writes, syncs, truncations and deletions each storing call performs, and torn/unsynced variants, for both back ends",
 "Tests never kill the process inside a call.",
 ["src/storage/sqlite.rs","src/storage/sqlite_common.rs","src/storage/nssdb/mod.rs","src/token.rs"],
 [("SQL transactions","src/storage/sqlite.rs store_obj/remove/store_user; src/storage/nssdb/mod.rs")],None,["reopened database through the API"])
p("P11","A storage error fails the call cleanly and loses nothing",
 "If any single storage operation fails during a call, the call reports an error or has fully taken effect, never success without effect and never a partial effect; after the fault clears, the library still works without a restart, and both the running library and a reopened one show the same objects, values and PINs.",
 ["fault_sequences"],"each file-system operation of each storing or reading call failing once (I/O error, disk full, short read)",
 "Tests have no way to make storage fail.",
 ["src/storage/sqlite.rs","src/storage/format.rs","src/storage/nssdb/mod.rs","src/token.rs"],
 [("error propagation and rollback","src/storage/sqlite.rs transactions; src/storage/format.rs")],None,["return codes, C_FindObjects, C_GetAttributeValue, C_Login after the fault"])
p("P12","Each session runs its operations through one strict life cycle",
 "In every session at most one operation of each kind is active: initialising a second is refused, and update, final or one-shot calls without an active operation are refused. An operation ends when its final or one-shot call succeeds or it is cancelled; after any other failing call, a too-small buffer excepted, it has either ended or goes on exactly as if that call had not been made. A too-small buffer and a request for the output size never end or advance it. Operations of different kinds and of different sessions do not disturb each other.",
 ["histories"],"all sequences of init, update, final, one-shot, size query, short buffer and cancel calls for encrypt, decrypt, digest, sign, verify and search, over two sessions",
 "Tests run operations in the normal order only.",
 ["src/session.rs","src/fns/encryption.rs","src/fns/signing.rs","src/fns/digest.rs","src/fns/dualcrypto.rs","src/ossl/aes.rs","src/native/hmac.rs"],
 [("operation slots","src/session.rs SessionOperations"),("finalized flags","src/mechanism.rs MechOperation::finalized")],None,["return codes"])
p("P13","Multi-part encryption and decryption equal one-shot for every split",
 "For every cipher mechanism, feeding a message in any sequence of parts (including empty and odd-sized ones, with size queries and short-buffer retries in between) produces exactly the bytes of the one-shot call, and those are the bytes the mechanism's standard defines. Decrypting what was encrypted, split in any way, gives back the message.",
 ["inputs","histories"],"all splits of messages up to a few blocks, all message lengths around block boundaries, retries at every output step, every mode and key size",
 "Tests use fixed splits of fixed vectors; block buffering bugs show only for particular residues.",
 ["src/ossl/aes.rs","src/fns/encryption.rs"],
 [("block buffering","src/ossl/aes.rs encrypt_update/decrypt_update")],None,["C_Encrypt*, C_Decrypt*"])
p("P14","Multi-part digests, MACs and signatures equal one-shot for every split",
 "For every digest, MAC and signature mechanism, updating with any split of the data gives the same digest or MAC as the one-shot call and as the standard, and multi-part and one-shot signatures verify each other. Digesting a key equals digesting its value. Combined calls (digest-encrypt, decrypt-digest, sign-encrypt, decrypt-verify) equal the two separate operations.",
 ["inputs","histories"],"all splits of messages up to a few blocks around block boundaries for every mechanism and truncation length",
 "Tests use fixed vectors with one split.",
 ["src/ossl/hash.rs","src/native/hmac.rs","src/ossl/aes.rs","src/ossl/rsa.rs","src/ossl/ecdsa.rs","src/fns/digest.rs","src/fns/signing.rs","src/fns/dualcrypto.rs"],
 [("streaming state","src/ossl/hash.rs, src/native/hmac.rs, src/ossl/aes.rs AesCmac/AesMac")],None,["C_Digest*, C_Sign*, C_Verify*"])
p("P15","Altered ciphertexts, tags and signatures are never accepted",
 "Verification and authenticated decryption succeed only for the exact data, additional data, IV, tag or signature produced with that key and mechanism: any single-bit change, truncation or extension is reported as invalid. No plaintext is delivered by a failed one-shot authenticated decryption, and a failed operation cannot be continued.",
 ["inputs"],"every single-bit flip, every truncation and one-byte extension of every input of every authenticating mechanism, one-shot and multi-part, classic and message-based API",
 "Tests flip one byte for a few mechanisms.",
 ["src/ossl/aes.rs","src/native/hmac.rs","src/ossl/rsa.rs","src/ossl/ecdsa.rs","src/fns/signing.rs","src/fns/encryption.rs"],
 [("tag check","src/ossl/aes.rs decrypt_final/msg_decrypt_final"),("constant time compare","src/native/hmac.rs verify_final")],None,["C_Decrypt*, C_Verify*, C_DecryptMessage*, C_VerifySignature*"])
p("P16","Generated IVs never repeat and counters never wrap into the nonce",
 "Within one message-encryption operation with a token-generated IV, no two messages ever use the same IV, the caller's fixed bits are preserved, and when the generator's space is exhausted encryption is refused rather than repeating. A counter-mode operation refuses data that would make its counter field wrap, however the data is split, and accepts data that leaves counter values to spare.",
 ["inputs","histories"],"every fixed-bits/generator combination with small counter spaces run to exhaustion; every counter width and start value around the wrap, every split",
 "Tests encrypt two or three messages with wide counters.",
 ["src/ossl/aes.rs"],[("IV generator","src/ossl/aes.rs generate_iv"),("counter budget","src/ossl/aes.rs maxblocks/blockctr")],
 None,["C_MessageEncryptInit, C_EncryptMessage*, C_Encrypt* with CKM_AES_CTR"])
p("P17","Saved operation state resumes exactly, and only what was saved",
 "A digest or HMAC operation saved with C_GetOperationState at any point and restored later, in the same or another session of the token, continues to the same result as if never interrupted, and saving does not disturb the original. An altered, truncated or foreign state, or a restore with the wrong key, is refused and leaves the session unable to continue with it.",
 ["histories","inputs"],"every save point of every split, restore target and key, every byte of the saved state altered",
 "Tests save once at one point.",
 ["src/session.rs","src/fns/sessmgmt.rs","src/native/hmac.rs","src/ossl/hash.rs"],
 [("state encryption and checks","src/session.rs / src/fns/sessmgmt.rs operation state")],None,["C_GetOperationState","C_SetOperationState"])
p("P18","Keys are used only as their attributes permit",
 "A cryptographic operation starts with a key only if the key's class and type fit the mechanism, the usage attribute for that operation is true, and the mechanism is in the key's allowed-mechanism list when it has one. In every other case the call is refused and no operation becomes active.",
 ["inputs"],"every operation times every mechanism times every combination of class, type, usage flag and allowed list",
 "Tests check a few refusals; the rule is re-implemented per mechanism.",
 ["src/object/mod.rs","src/lib.rs","src/encryption.rs","src/fns/*.rs","src/ossl/*.rs","src/native/*.rs","src/hotp.rs"],
 [("usage check","src/object/mod.rs check_key_ops"),("allowed mechanisms","src/lib.rs check_allowed_mechs")],None,["return codes of C_*Init, C_WrapKey, C_UnwrapKey, C_DeriveKey"])
p("P19","Key wrapping respects extractability and round-trips",
 "C_WrapKey releases a key only if it is extractable and, when it demands a trusted wrapping key, only under a trusted one; the wrapping key needs the wrap right and the unwrapping key the unwrap right. Unwrapping what was wrapped gives a key with the same value, and an altered wrapped key is refused by integrity-protecting mechanisms. Unwrapped keys are never marked local, always-sensitive or never-extractable.",
 ["inputs"],"every combination of wrapping mechanism, key kinds, usage flags, extractability and trust, every bit flip of the wrapped blob",
 "Tests wrap and unwrap a few happy cases.",
 ["src/fns/keymgmt.rs","src/ossl/aes.rs","src/ossl/rsa.rs","src/object/key.rs"],
 [("extractable check","src/object/key.rs default_export_for_wrapping"),("trusted check","src/fns/keymgmt.rs wrap_key")],None,["C_WrapKey","C_UnwrapKey"])
p("P20","Always-authenticate keys need a fresh login for every use",
 "A private key marked always-authenticate produces a signature or plaintext only if, after that operation was initialised in that session, a context-specific login with the correct user PIN succeeded; one such login allows one operation. Nothing else (other operations in the session, other sessions' logins, failed logins, saved state) satisfies or bypasses it.",
 ["histories"],"all sequences of init, context-specific login (right and wrong), use, cancel and unrelated operations over two sessions",
 "The tests follow the intended order once.",
 ["src/session.rs","src/fns/sessmgmt.rs","src/fns/signing.rs","src/fns/encryption.rs"],
 [("per-operation login status","src/session.rs OpLoginStatus")],None,["C_Sign*, C_Decrypt*, C_Login(CKU_CONTEXT_SPECIFIC)"])
p("P21","Token initialisation wipes everything and needs the SO PIN",
 "C_InitToken on an initialised token succeeds only with the SO PIN and with no session open; a refused call changes nothing. When it succeeds no earlier object, handle or user PIN remains usable, before or after a restart, the SO PIN is the one given, the label is the one given, and the user must be given a new PIN before logging in.",
 ["histories","configurations"],"all histories of objects, PINs, sessions and restarts before and after initialisation, both back ends",
 "Tests initialise a fresh token; residual state needs a populated one.",
 ["src/token.rs","src/slot.rs","src/fns/stmgmt.rs","src/storage/*.rs"],
 [("reset","src/token.rs initialize; src/storage db_reset")],None,["C_InitToken, C_GetTokenInfo, C_Login, C_FindObjects"])
p("P22","Concurrent calls are linearizable and never deadlock",
 "When several threads call the library at the same time, every call returns, and the results of all calls and the final token state equal those of executing the same calls one after another in some order consistent with their real-time order.",
 ["schedules"],"all interleavings, at lock granularity, of two and three threads making session, login, object, search and cryptographic calls on shared sessions, objects and tokens",
 "The tests are single-threaded; lock-order and check-then-act errors need a particular schedule.",
 ["src/lib.rs","src/slot.rs","src/fns/*.rs","src/storage/*.rs"],
 [("lock hierarchy STATE > session > token","src/lib.rs State::get_session/get_token; src/slot.rs")],None,["all calls"],
 "controlled scheduling of the RwLock acquisitions")
p("P23","Stored secrets are encrypted, bound to their object and tamper-evident",
 "The database files never contain, at any time, a secret value of a key or a PIN in clear. On the default (SQLite) back end, altering any byte of a stored encrypted value, or moving one to another object or attribute, never makes the token return a different value as valid: the read fails or the true value is returned; altering the stored PIN data never makes a wrong PIN log in. On NSS databases, whose encrypted values carry no integrity protection, the same holds for the signed attributes and their signatures once logged in.",
 ["inputs","histories"],"every byte of every stored encrypted value altered; every pair of stored values swapped; every file image produced while storing scanned for secrets; both back ends",
 "Tests look at the database only through the API.",
 ["src/storage/aci.rs","src/encryption.rs","src/storage/sqlite.rs","src/storage/nssdb/ci.rs","src/storage/nssdb/mod.rs","doc/storage-encryption.md"],
 [("AES-GCM with derived keys and AAD","src/storage/aci.rs"),("NSS signed attributes","src/storage/nssdb/ci.rs")],None,["database files","C_GetAttributeValue","C_Login"])
p("P24","Slots are independent",
 "A call on one slot never changes what any call on another slot observes: sessions, login state, objects, PIN counters and token information of the other slot are unaffected, and a session handle acts only on its own slot.",
 ["histories","configurations"],"all short histories interleaving calls on two slots compared with each slot run alone",
 "Tests use one slot at a time.",
 ["src/lib.rs","src/slot.rs","src/config.rs"],[("session to slot map","src/lib.rs State.sessionmap")],None,["all calls"])
p("P25","An OTP counter only moves forward and no code is accepted twice",
 "For every history of HOTP signing and verification with a key, in any sessions and across restarts, each successful generation uses the next counter value and each accepted code moves the stored counter past it, so a code is never generated or accepted twice; a rejected code does not move it. Codes equal the HOTP standard's for their counter.",
 ["histories"],"all sequences of generate, verify (current, look-ahead, stale, wrong), restart and two concurrent operations, at counter boundaries",
 "Tests generate a few codes from vectors.",
 ["src/hotp.rs","src/fns/signing.rs","src/token.rs"],[("counter update","src/hotp.rs updates_object; src/fns/signing.rs")],None,["C_Sign, C_Verify, CKA_OTP_COUNTER"])
p("P26","Initialise and finalise bracket everything",
 "Before C_Initialize and after C_Finalize every call except the ones defined to work reports that the library is not initialised and has no effect; a second C_Initialize is refused. After a finalise/initialise pair no earlier session, login, active operation, session object or session handle remains, and a failed C_Initialize leaves the library uninitialised and able to be initialised again.",
 ["histories"],"every function in every life-cycle state, and all sequences of good and bad initialisations and finalisations",
 "Tests initialise once per process.",
 ["src/fns/general.rs","src/lib.rs"],[("state guard","src/lib.rs State.rlock/is_initialized")],None,["return codes of all functions"])
p("P27","Bad pointers, lengths and handles never crash the caller",
 "Every API function, in every session state, answers null pointers, zero or inconsistent lengths, unknown handles, unknown attribute types, mechanisms and flags with an error code (or ignores them), never with a crash, panic, hang or out-of-bounds write. The library stays usable afterwards.",
 ["inputs"],"every function times every combination of null/non-null pointers and of small/zero/mismatched lengths, in each operation state",
 "Tests pass well-formed arguments.",
 ["src/fns/*.rs","src/attribute.rs","src/pkcs11/mod.rs","src/misc.rs"],[("argument checks","src/fns/*.rs")],None,["process survival and return codes"])
p("P28","Output buffers are never overrun and a queried size always suffices",
 "For every function that returns data, the size reported by a null-buffer query is always enough for the call that follows, no call writes past the length the caller gave, and a too-small buffer is reported as such without consuming input: repeating the call with enough room gives the result the first call would have given.",
 ["inputs","histories"],"every output-returning function and mechanism times every buffer length from zero to beyond the needed size, followed by a retry",
 "Tests give ample buffers.",
 ["src/fns/*.rs","src/ossl/aes.rs","src/ossl/rsa.rs","src/native/hmac.rs","src/object/factory.rs"],
 [("length checks","src/fns/*.rs; encryption_len/decryption_len")],None,["bytes around the buffer, returned lengths, retried result"])
p("P29","Key history attributes tell the truth",
 "For every way a key comes to exist (created, generated, derived, unwrapped, copied) and every later change, CKA_LOCAL and the generation mechanism say truly whether and how the token generated it, always-sensitive is true only if the key has been sensitive during its whole existence, and never-extractable only if it has never been extractable. Users cannot set them.",
 ["histories"],"all sequences of creation methods, copies and attribute changes over all initial attribute combinations",
 "Tests check one generation path.",
 ["src/object/key.rs","src/object/factory.rs","src/fns/keymgmt.rs"],[("default_key_attributes / derive / copy rules","src/object/key.rs, src/object/factory.rs")],None,["C_GetAttributeValue"])
p("P30","Derived and agreed keys equal the standard for every parameter choice",
 "For every supported key-derivation and key-agreement mechanism and every accepted combination of its parameters, the derived key has the value the mechanism's standard defines and exactly the length and attributes requested; both sides of an agreement get the same key. Parameters that ask for something impossible are refused and no key is created.",
 ["inputs"],"all small parameter combinations (lengths, data fields, counter widths and positions, hash choices) of every derivation mechanism",
 "Tests use published vectors for a few combinations.",
 ["src/native/*.rs","src/ossl/hkdf.rs","src/ossl/kbkdf.rs","src/ossl/ecdh.rs","src/ossl/ffdh.rs","src/ossl/sshkdf.rs"],
 [("KDF implementations","src/native/sp800_108.rs, src/native/simplekdf.rs, src/ossl/hkdf.rs, ...")],None,["C_DeriveKey then use of the key"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
