STATELESS = 'stateless model checking of the instrumented implementation under a controlled scheduler'
CRASH = 'exhaustive enumeration of crash points, torn writes and I/O faults of the real code on a modelled file system'
SEQ = 'bounded exhaustive exploration of operation sequences of the real code against a reference model'

p('A01', 'Online users are pushed every accepted message exactly once and in order',
  'A message the server accepted for a user is pushed to the user\'s live session exactly once per session, unmodified and with the authenticated sender, in the order of acceptance, no matter how deliveries, acknowledgements, logins and disconnects interleave. It is pushed again at the next login exactly when it was not acknowledged, and an acknowledged message never reappears. No schedule loses a wakeup, deadlocks the mailbox or leaves its reader behind.',
  ['schedules'], 'All interleavings, up to a deviation bound, of 13 closed scenarios with 1-2 senders, one reader, concurrent acknowledgements, double logins, forced disconnects and equal clock readings.',
  'The tests deliver two messages sequentially from one goroutine; the lost wakeup, the deadlock at login and the race between acknowledgement and directory scan need specific interleavings.',
  ['zkserver/account/account.go'],
  [('one mailbox goroutine per online user with a work and a quit channel', 'account.Online'), ('messages become files named after their acceptance time', 'account.Deliver'), ('acknowledgement removes the file', 'account.Delete')],
  'lib', 'model_checking', 'Exhaustive within the stated deviation bound over all visible operations (locks, channels, spawns, clock, file system). Assumes data-race freedom between visible operations and atomic file system calls.', STATELESS,
  observe=['notifications received by the session', 'mailbox directory'])

p('A02', 'Accepted messages survive crashes whole; torn ones never poison a mailbox',
  'Once the server accepted a message it is delivered, whole, after any later crash, power loss or restart until it is acknowledged. A message whose acceptance was interrupted by a crash or failed with an I/O error is afterwards either delivered whole or absent; it is never delivered cut short and never blocks other messages.',
  ['crash_points', 'fault_sequences', 'histories'], 'All mailbox histories up to 3 (thorough 4) operations; every prefix of the file system calls of the last operation, every byte at which a write can tear, every subset of unsynced data lost, every failing file system call.',
  'Tests use a healthy disk and never restart in the middle of a delivery.',
  ['zkserver/account/account.go'],
  [('message files are written completely before they become visible', 'account.Deliver'), ('mailbox scan at login', 'account.Online')],
  'lib', 'fault_enumeration', 'Exhaustive over the modelled failures. Trusts the disk model: ordered metadata, unsynced data lost, kept or halved.', CRASH)

p('A03', 'Account creation, listing, disabling and enabling are atomic and crash safe',
  'Every account is absent, enabled or disabled; each administrative operation succeeds exactly when it is legal in the current state and then changes only the account it names, never its stored mail. After a crash at any point the account is in the state before or after the operation, the operation can be carried out, and every enabled account can receive mail; a disabled identity cannot obtain a second account.',
  ['histories', 'crash_points'], 'Breadth first search over all model states of three accounts (two sharing a nick) up to depth 5 (7); every transition on the real code, every crash point of every transition recovered and compared.',
  'Tests create two accounts once; no test disables, enables, lists or crashes.',
  ['zkserver/account/account.go', 'inidb/inidb.go'],
  [('account directory is moved into place when complete', 'account.Create'), ('disabling renames the account directory', 'account.Disable, account.Enable')],
  'lib', 'model_checking', 'All transitions and all their crash points within the depth bound, executed on the real code (model traces are replayed, not assumed).', 'explicit-state search of a reference model with every transition and crash point replayed on the real code')

p('A04', 'The directory finds listed users while other accounts change',
  'A listed user is found by nick, with exactly the identity that was stored, while other accounts are created, listed, disabled, enabled or receive mail, and whatever state a crash left other accounts in. Nobody is returned for a nick they do not have or without being listed. Two concurrent creations of one account never both succeed.',
  ['schedules', 'crash_points'], 'All interleavings up to the deviation bound of a search with each kind of account change; concurrent creations.',
  'Find has no test at all and the failures need a search in the middle of another user\'s write.',
  ['zkserver/account/account.go', 'inidb/inidb.go'],
  [('directory scan', 'account.Find'), ('the listing flag', 'account.Push')],
  'lib', 'model_checking', 'Exhaustive within the deviation bound; crash states are covered by A03.', STATELESS)

p('B09', 'The server starts after every crash and failure and remains the same server',
  'The server program always comes up again: after a crash or power loss at any point of its first or any later start, and after a start that failed because an operation on its disk failed or its address was taken, the next start succeeds. From the moment it accepted connections it keeps its identity and certificate for good: no crash, disk error or interrupted start ever replaces or loses them, nor accounts and their messages. It never serves clients unless both its sockets are open; it stops when told to, and nothing it stores is readable by other users of the machine.',
  ['crash_points', 'fault_sequences'], 'Every crash point of the first start and of the start after it, and of a later start (thorough: three starts in a row), torn writes, lost unsynced data; every failing file system call of a first and a later start with three errors, each followed by a clean start; removed key files.',
  'No test starts the server program.',
  ['zkserver/zkserver.go', 'zkserver/cert.go', 'zkserver/settings.go'],
  [('identity and certificate are created at the first start', 'zkserver._main'), ('accounts', 'account.New')],
  'server', 'fault_enumeration', 'Exhaustive over the modelled failures. Trusts the disk model.', CRASH)

p('C01', 'The ini database is a lossless map of tables to records',
  'For every sequence of operations the database behaves like a map of tables to records: reads return the last value written, missing tables and records are reported as such, other records are untouched, and saving and reopening reproduces exactly the saved content in whatever order the file is written. A record the file format cannot represent is refused or stored faithfully; it never corrupts another record or makes the file unreadable. The retained backups are the latest previous versions, never more than the configured depth. A record handed to the caller is the caller\'s own.',
  ['histories', 'inputs', 'configurations'], 'All sequences of up to 4 (5) operations out of 14 and of up to 3 out of 31 with hostile keys, values and table names, in both map iteration orders.',
  'Tests set a few records in one table; corruption needs an unlucky map order, a second table or unusual text.',
  ['inidb/inidb.go'], [('in-memory tables', 'inidb.Set, inidb.Del, inidb.NewTable, inidb.DelTable'), ('serialisation', 'inidb.Save'), ('parsing', 'inidb.New')],
  'lib', 'model_checking', 'Complete up to the depth and alphabet. Leading and trailing white space is treated as insignificant.', SEQ)

p('C02', 'Saving the ini database is atomic under crashes and I/O errors',
  'After a crash, power loss or I/O error at any point of a save the database opens and holds exactly the content before or after that save; a completed save is never lost. A save that reports success is on disk, a failed one leaves the old content, keeps the changes in memory and can be retried.',
  ['crash_points', 'fault_sequences', 'histories'], 'All histories of up to 4 (5) operations that end in a save; every crash point, torn write, unsynced data subset and failing call of the save.',
  'Tests never fail a write or stop in the middle of a save.',
  ['inidb/inidb.go'], [('temporary file, backup, rename', 'inidb.Save')],
  'lib', 'fault_enumeration', 'Exhaustive over the modelled failures; trusts the disk model.', CRASH)

p('D01', 'The ratchet decrypts each message once, whatever the network does',
  'For every order in which the messages of both directions are sent, delivered, delayed, duplicated or lost, each message is decrypted to exactly what was encrypted the first time it arrives, and never a second time, as long as no more than 80 messages of a chain are outstanding. A jump further ahead is refused without any effect and the conversation can still catch up.',
  ['histories', 'inputs'], 'Breadth first over all interleavings of up to 4 (5) messages per direction with delays and duplicates on real ratchets after the real key exchange, deduplicated by complete state; all combinations of gaps around the window of 80 in the old and the new chain.',
  'The tests replay a handful of scripted orders; losses need particular interleavings of both directions and of key renewals.',
  ['ratchet/ratchet.go'], [('skipped message keys are saved', 'ratchet.saveKeys, ratchet.trySavedKeys'), ('new chain when the other end answered', 'ratchet.Decrypt, ratchet.Encrypt')],
  'lib', 'model_checking', 'Complete within the message bound. Randomness is a fixed function of sender and message number.', 'explicit-state breadth first search over the real implementation state')

p('D02', 'The ratchet refuses altered messages and stays unchanged',
  'A ciphertext that was altered, cut, extended, spliced from two messages, reflected to its sender or taken from another conversation is refused with an error, never crashes, and leaves the ratchet state exactly as it was, so that the genuine message is decrypted afterwards. An altered key exchange message never yields a ratchet.',
  ['inputs', 'histories'], 'In every state reachable with 2 (3) messages per direction: every bit flip (in early states; one bit of each byte otherwise), truncation, splice and reflection of every outstanding message, and messages forged under all-zero keys, compared by complete state.',
  'Tests try one corrupted message in one state.',
  ['ratchet/ratchet.go', 'blobshare/blobshare.go'], [('provisional keys until the message authenticates', 'ratchet.Decrypt'), ('key exchange', 'ratchet.CompleteKeyExchange')],
  'lib', 'model_checking', 'Complete for the listed alterations within the message bound; does not attack the primitives.', 'exhaustive enumeration of message alterations in every state of a bounded state space of the real code')

p('D03', 'Saving and loading a ratchet at any moment is invisible',
  'A ratchet written to its on disk form and loaded again at any point of a conversation, also in the middle of the key exchange, is identical: it reads all outstanding messages, refuses duplicates and can answer. Keys of missing messages survive for the given lifetime and not longer. Damaged state is refused with an error.',
  ['histories', 'inputs'], 'Both ends saved and restored in every state reachable with 4 (5) messages per direction; ages around the key lifetime, also over several saves; every key field cut or extended.',
  'Tests marshal in one scripted conversation.',
  ['ratchet/ratchet.go', 'ratchet/disk/disk.go'], [('on disk form', 'ratchet.Marshal, ratchet.Unmarshal')],
  'lib', 'model_checking', 'Complete within the message bound.', 'explicit-state breadth first search over the real implementation state')

p('D04', 'Message keys are used once, erased, and copied states heal',
  'No two messages are encrypted under one key, and keys are derived from fresh randomness. Once it is complete, the secrets of the key exchange are forgotten. After use neither the sender nor, once read, the recipient holds a message\'s key. A copy of an end\'s state cannot decrypt messages already read when it was taken, messages of its own, nor any message from a chain that was agreed using keys generated after the copy.',
  ['histories'], 'Every state reachable with 4 (5) messages per direction; every earlier state of both ends is kept and tries to decrypt every message; the complete state of both ends is searched for secrets that must be gone; each byte drawn from the random source is altered in turn and must matter; chains of hundreds of messages.',
  'Tests never look for keys nor at copied states.',
  ['ratchet/ratchet.go'], [('chain keys step with each message', 'ratchet.Encrypt, ratchet.saveKeys'), ('Diffie-Hellman renewal', 'ratchet.Encrypt, ratchet.Decrypt')],
  'lib', 'model_checking', 'Complete within the message bound; the attacker is modelled by the copied state running the real Decrypt.', 'explicit-state breadth first search over the real implementation state with an attacker holding every earlier state')

p('E01', 'Client and server agree on keys and identities, or the handshake fails',
  'When the handshake completes, the client talks to the owner of the expected server key, the server knows the client\'s true identity, and both hold the same keys. If any handshake message is altered, withheld, repeated, reordered or replaced by one from another session or another client, or a peer deviates from the protocol, at least one end fails and neither authenticates anybody wrongly or hangs; whoever does not own the private key can neither send nor read a record. Renewal of the server\'s ephemeral keys at any moment does not disturb a handshake.',
  ['histories', 'inputs'], 'Every single alteration of every message (byte flips, cuts, extension, loss, duplication, replacement by each message of the same, an older and another client\'s session, swaps), all suffix replacements in either or both directions, every lie of a peer knowing all keys at every step, key renewal before every message and at every point of concurrent handshakes.',
  'Tests run one honest handshake.',
  ['session/kx.go'], [('four key encapsulations and two proofs', 'session.Initiate, session.Respond')],
  'lib', 'exploration', 'All single-message attacks plus suffix replacements on the real code at both ends; primitives are not attacked. The server has no explicit confirmation of the client key: an impostor may let Respond return, but no record passes.', 'exhaustive enumeration of man-in-the-middle and lying-peer behaviours on the real implementation')

p('E02', 'A session delivers records unmodified, in order, or reports an error',
  'Each record read from a session is exactly the next one the other end wrote; lost, repeated, reordered, reflected, altered or cut records are never returned silently. How the network splits the stream does not matter. A record is refused exactly if it exceeds the size limit, sends nothing, and later records are still delivered.',
  ['inputs', 'histories'], 'All streams of up to 4 (5) records over an alphabet of genuine, reflected and altered records, every bit flip of a record, every fragmentation and every end of stream, all sizes around the limit.',
  'Tests send a few messages over an undisturbed connection.',
  ['session/kx.go'], [('sequence numbers as nonces', 'session.readWithKey, session.writeWithKey'), ('size limit', 'session.writeWithKey')],
  'lib', 'exploration', 'Complete for the alphabet and length.', SEQ)

p('E03', 'No session key and nonce encrypts two different texts',
  'Within a session and its handshake no pair of key and nonce is ever used for two different texts, in either direction, also when the sequence number carries into further bytes.',
  ['histories'], 'All seals of a handshake and of sessions of 70,000 (17 million) records in both directions.',
  'Tests cannot observe nonces and send few records.',
  ['session/kx.go'], [('sequence counter', 'session.incSeq')],
  'lib', 'exploration', 'Monitors every seal of long executions across the byte carries of the counter; the 8 byte counter itself cannot be exhausted. Three reuses during the handshake are known findings.', 'exhaustive monitoring of all (key, nonce) pairs of enumerated executions of the real code')

p('F01', 'A public identity cannot be altered, forged or given a foreign handle',
  'A serialised public identity is accepted only if its handle is the hash of its key and the signature by its signature key covers name, nick, both keys and the handle; any change is detected. Identities and message signatures round trip; malformed input is refused without a crash.',
  ['inputs'], 'Every bit flip and every truncation of a serialised identity, every combination of fields of two identities with original or attacker made signatures, every split of the text between name and nick.',
  'Tests verify one good identity.',
  ['zkidentity/zkidentity.go'], [('self signature', 'zkidentity.Verify, zkidentity.RecalculateDigest')],
  'lib', 'exploration', 'Complete for the listed alterations. Known finding: the digest does not separate name and nick.', 'exhaustive enumeration of alterations on the real code')

p('F02', 'A shared blob opens only intact and under its password',
  'What is encrypted under a password comes back exactly under that password, and an altered, cut or extended blob or another password gives an error, never a crash or other data. Salts and nonces are never repeated.',
  ['inputs'], 'Every bit flip, truncation and wrong password for blobs of several lengths; every byte drawn from the random source must change the result.',
  'Tests open one good blob.',
  ['blobshare/blobshare.go'], [('salt, nonce, secret box', 'blobshare.NewKey, blobshare.Encrypt, blobshare.UnpackSaltNonce')],
  'lib', 'exploration', 'Complete for the listed alterations, with small scrypt parameters.', 'exhaustive enumeration of alterations on the real code')

p('F03', 'A tag is never in use twice and never lost',
  'The tag stack hands out each tag to one user at a time, whatever the order in which tags are taken and returned concurrently; it reports empty and full stacks, and returned tags are available again. The blocking variant never fails and wakes every waiter.',
  ['schedules', 'histories'], 'All sequences of up to 9 (12) operations for depths 0-3; all interleavings up to 3 (4) deviations of three users of one or two tags.',
  'Tests use the stack from one goroutine.',
  ['tagstack/tagstack.go'], [('stack of free tags', 'tagstack.Push, tagstack.Pop')],
  'lib', 'model_checking', 'Complete within the bounds.', STATELESS + '; ' + SEQ)

p('F05', 'Address book nicknames are unique and lead to the right contact',
  'Every contact is listed once, under the nickname Add returned, and is found by that nickname and by its identity with the stored data; no two contacts share a nickname, a removed contact is gone, and other contacts are unaffected, for all orders of additions and removals, also concurrent ones.',
  ['histories', 'schedules'], 'All sequences of up to 5 (6) operations out of 8; all interleavings of three concurrent additions of one nick.',
  'Tests add two contacts once.',
  ['zkclient/addressbook/addressbook.go'], [('map from nick to identity', 'addressbook.Add, addressbook.Del')],
  'lib', 'model_checking', 'Complete within the bounds.', SEQ)

p('F06', 'Log lines are complete, faithful and never mixed',
  'Every enabled log call appends exactly its time, subsystem, level and formatted text to the log file, in the order of the calls of each goroutine; disabled levels write nothing; text from users, also with percent signs, appears unchanged, and concurrent calls never mix.',
  ['inputs', 'schedules'], 'All levels, switches and a set of hostile texts; all interleavings of two goroutines logging, also while subsystems are registered.',
  'There are no tests.',
  ['debug/debug.go'], [('one locked append per call', 'debug.log')],
  'lib', 'model_checking', 'Complete within the bounds.', STATELESS)

NET = 'The encrypted transport is replaced by a transparent one (the E properties check the real one). Delay bounding: every deviation from round robin order counts.'

p('B01', 'At most one live session per identity, no lockout, nothing left behind',
  'At any time at most one session of an identity is served. Whatever the order of logins, disconnects, double logins, pushes and a client that stops reading, an account holder can log in again within two attempts, the newest session works and is not torn down by the end of an older one, and once all connections are closed no goroutine, registration or lock is left behind.',
  ['schedules', 'histories'], 'All interleavings within 3 (4) deviations of scenarios with up to three racing logins, disconnects, deliveries and stuck readers against the real server session code.',
  'The tests never run a server; lockouts need a login at the moment an older session is torn down.',
  ['zkserver/zkserver.go', 'zkserver/account/account.go'],
  [('registration of the session', 'zkserver.handleSession'), ('reader, writer and notification goroutines with a quit channel', 'zkserver.sessionWriter, zkserver.sessionNtfn'), ('an older session is closed by a new login', 'account.Online, ErrAlreadyOnline')],
  'server', 'model_checking', 'Exhaustive within the deviation bound. ' + NET, STATELESS, q=300,
  observe=['login answers', 'ping answers', 'blocked goroutines'])

p('B02', 'No client can crash, wedge or confuse the server',
  'Whatever bytes and commands a client sends, in whatever order, with whatever tags, before or during a session, the server process survives, other users\' sessions and new logins keep working, each accepted request gets exactly one reply with its tag, and a client that violates the protocol is disconnected without anything left behind.',
  ['histories', 'inputs'], 'All sequences of up to 4 (5) of 20 commands (10 legal kinds, misplaced and unknown ones, tags in and out of range) with pushed mail outstanding; every truncation and 4 (5) values of every byte of each command; the same for the input before a session.',
  'Tests never talk to a server and cannot try the combinations of tags and commands.',
  ['zkserver/zkserver.go', 'zkserver/cache.go', 'zkserver/rendezvous.go', 'tagstack/tagstack.go'],
  [('dispatch on command and tag', 'zkserver.handleSession'), ('tags of pushes to the client', 'zkserver.sessionNtfn')],
  'server', 'model_checking', 'Complete up to the depth and alphabet. ' + NET, SEQ, q=300)

p('B03', 'A disabled account is offline until enabled; admin requests are answered',
  'When the administrator\'s request to disable an account was answered, no session of that identity is served and none can be opened until it is enabled again, no matter how the request races with logins of that user; the mail of the user is kept. Every request on the administration socket, however malformed, gets exactly one answer or a closed connection, and never affects another account or the server.',
  ['schedules', 'histories'], 'All interleavings within 3 (4) deviations of disabling with logins, double logins, pings and enabling; all sequences of administration requests up to depth 3 (4) including malformed identities and mixed case.',
  'There is no test of the administration socket; the hole is between login and registration of the session.',
  ['zkserver/zkserver.go', 'zkserver/account.go', 'zkserver/account/account.go'],
  [('administration socket', 'zkserver.socketHandler'), ('checks at login', 'zkserver.preSession, zkserver.handleSession'), ('renaming of the account directory', 'account.Disable, account.Enable')],
  'server', 'model_checking', 'Exhaustive within the deviation bound. ' + NET, STATELESS)

p('B04', 'Messages reach exactly the named recipient with the true sender',
  'A message a user caches for a recipient is pushed to that recipient only, unmodified, marked with the authenticated identity of the sending session, in the order of acknowledgement, exactly once per session until it is acknowledged. The sender gets an acknowledgement exactly when the message is stored, and only messages that were sent as cleartext proxy messages are marked as such. This also holds when sender or recipient reconnect, or the server restarts in between.',
  ['histories', 'schedules', 'crash_points'], 'All sequences of up to 5 (6) sends, acknowledgements, logins, logouts and restarts of three users against a reference mailbox; all interleavings within 3 (4) deviations of two senders, a recipient that logs in or out and acknowledgements; all disk errors and crash points of one delivery.',
  'Tests of the account package use fixed identities and never go through a session.',
  ['zkserver/cache.go', 'zkserver/zkserver.go', 'zkserver/account/account.go'],
  [('storing with the session identity', 'zkserver.handleCache, zkserver.handleProxy'), ('push with a tag, delete after its acknowledgement', 'zkserver.sessionNtfn, zkserver.handleSession')],
  'server', 'model_checking', 'Exhaustive within the bounds. ' + NET, STATELESS + '; ' + SEQ, q=400,
  observe=['pushed messages', 'acknowledgements'])

p('B05', 'Before a session only what the policy allows is possible',
  'An unauthenticated connection can obtain the server identity only if identification is allowed, create an account only as the create policy says (no, valid token, yes), only for an identity that verifies and without touching an existing account, and open a session only for the holder of an enabled account. Every other input closes the connection; a refusal changes nothing.',
  ['histories', 'configurations'], 'All sequences of up to 3 (4) requests on one and on fresh connections under all policies, with valid, used, expired, corrupt and unknown tokens and existing, disabled, new and forged identities, against a reference model.',
  'There is no test of the pre-session protocol.',
  ['zkserver/zkserver.go', 'zkserver/account.go', 'zkserver/pending.go'],
  [('pre-session command loop', 'zkserver.preSession'), ('create policy', 'zkserver.handleAccountCreate')],
  'server', 'model_checking', 'Complete up to the depth and alphabet. ' + NET, SEQ)

p('B06', 'A token creates at most one account',
  'A token yields at most one account, also when it is used on several connections at the same time, when the server crashes or the disk fails at any point of its use, and whatever happens to other tokens. A confirmed account survives. An expired or corrupt token never yields an account, and using one token never affects another valid one.',
  ['schedules', 'crash_points', 'fault_sequences'], 'All interleavings within 3 (4) deviations of two and three requests with the same and with different tokens; every crash point, torn write and failing file system call of one use.',
  'There is no test of tokens; double use needs two simultaneous requests or a failing disk.',
  ['zkserver/pending.go', 'zkserver/account.go', 'inidb/inidb.go'],
  [('token is deleted on use', 'zkserver.validToken'), ('expired tokens are pruned', 'zkserver.prunePending')],
  'server', 'model_checking', 'Exhaustive within the bounds. Assumes zkservertoken does not run at the moment of use. ' + NET, STATELESS + '; ' + CRASH)

p('B07', 'A confirmed PIN yields exactly its blob',
  'When an upload is answered with a PIN, that PIN was not in use and from then on yields exactly the uploaded bytes to everybody, also when uploads and pulls are concurrent, random draws collide, the server restarts, or crashes right after the answer. If the blob cannot be stored the answer is an error. Blobs of up to 4096 bytes are accepted, longer ones, expirations that are no number of at most 168 hours and unknown or malformed PINs are refused; the session goes on.',
  ['schedules', 'histories', 'crash_points', 'fault_sequences'], 'All interleavings within 3 (4) deviations of two uploads with free, colliding and taken PINs, of upload and pull, and next to a session whose client does not read; all sequences of up to 3 (4) of 18 operations; every crash point, torn write and failing file system call of an upload.',
  'There is no test of the rendezvous; loss needs two simultaneous uploads or a failing disk.',
  ['zkserver/rendezvous.go', 'inidb/inidb.go'],
  [('draw an unused PIN, store, answer', 'zkserver.handleRendezvous'), ('lookup', 'zkserver.handleRendezvousPull')],
  'server', 'model_checking', 'Exhaustive within the bounds. Known finding: expiration is not enforced. ' + NET, STATELESS + '; ' + SEQ + '; ' + CRASH)

p('B08', 'Directory searches return exactly the listed identity',
  'A search returns the stored identity of a listed user with exactly that nick, or an error; a listed and enabled user is always found, while other users log in, are created or disabled. Users who never logged in while the directory was enabled are not found, nor is anybody when it is disabled. Each search gets one reply that names the nick.',
  ['histories', 'schedules'], 'All sequences of up to 3 (5) logins, disables, enables and directory switches with four users, two of the same nick, followed by searches for 10 nicks; all interleavings within 3 (4) deviations of a search with a login, creation, disable and another search.',
  'There is no test of searches.',
  ['zkserver/account.go', 'zkserver/zkserver.go', 'zkserver/account/account.go'],
  [('search', 'zkserver.handleIdentityFind, account.Find'), ('listing at login', 'account.Push')],
  'server', 'model_checking', 'Exhaustive within the bounds. A disabled user may be found or not. ' + NET, SEQ + '; ' + STATELESS)

CLIENT = 'The client runs with a transparent transport (E01-E03 check the real one), an in-memory disk and the real widgets without a terminal.'

p('G06', 'No peer or server message can crash, wedge or confuse the client',
  'Whatever a contact, a stranger or the server relays to a client, including malformed, truncated, oversized, decompressing, hostile and inconsistent messages about groups, files, key exchanges and resets, the client survives with bounded memory, acknowledges every pushed message exactly once, keeps its connection, and afterwards still receives, displays and sends messages of other contacts.',
  ['inputs', 'histories'], 'The full grid of about 2500 payloads of all 12 client commands with boundary values in every field from a group administrator and from a stranger to the group, each twice; every truncation, bit flip and mismatch of command, compression and body; cleartext and undecryptable messages from known, unknown and zero senders with and without directory; claims of huge lengths and decompression bombs with a memory limit.',
  'There is no test of the client\'s message handling; failures need particular combinations of field values and state.',
  ['zkclient/push.go', 'zkclient/zkclient.go', 'zkclient/groupchat.go', 'zkclient/chunk.go', 'zkclient/reset.go', 'zkclient/msg.go', 'zkclient/blobkeys.go'],
  [('dispatch and acknowledgement of pushed messages', 'zkclient.handleRPC, zkclient.handlePush'), ('decoding with limits', 'zkclient.unmarshal'), ('state per group and file', 'zkclient.handleGroup*, zkclient.doHandleChunk*')],
  'client', 'exploration', 'Complete over the stated grid. ' + CLIENT, SEQ)

p('F07', 'Settings mean what is documented, defaults hold, wrong values are refused',
  'Every setting of the configuration files of server and client takes every documented value, in every combination and layout of the file, and then has exactly that value in the program, with ~ standing for the home directory; a setting that is not in the file has its documented default; no setting influences another. A value that is not documented makes the program refuse to start instead of running with something else. The first run of the client leaves a configuration that later runs read the same way, even if it is interrupted.',
  ['inputs', 'crash_points'], 'Every pair of settings (thorough: every triple) with every documented and several wrong values, three layouts; every crash point of the first run.',
  'The test of the server settings loads one file.',
  ['zkserver/settings/settings.go', 'zkserver/settings.go', 'zkclient/settings.go', 'zkclient/zkclient.conf.go'],
  [('server settings', 'settings.Load'), ('client settings', 'zkclient.ObtainSettings')],
  'client', 'exploration', 'Exhaustive over the listed values.', SEQ)

p('G01', 'Key exchanges join the right users or nobody',
  'A key exchange, be it with a PIN and a password, through the directory or by resetting the ratchet, ends with both users knowing each other\'s identity and exchanging messages, whatever restarts, broken connections, redelivered messages, wrong passwords, refusals and other key exchanges come in between; where a request was lost, doing it again helps, and there is always a way to a working conversation. An identity that is altered, comes from somebody else, is encrypted for somebody else or with another password, or that the user does not accept, changes nothing and is sent nothing; the user is asked before an identity found under a PIN is accepted. Users with the same nick keep different names, also across restarts and resets. Nobody is shown a message that was meant for or written by somebody else, or a message twice.',
  ['histories', 'inputs', 'fault_sequences'], 'Two real clients and a third party on a modelled server: key exchanges with a PIN, through the directory and by reset, started by either side, with up to 2 of 20 disturbances (restart, broken connection, lost request, reply or acknowledgement, wrong password or PIN, refusal, third parties) at every step; all histories of 3 (thorough 4) of 20 events of two strangers or contacts, after each of which there must be a way to talk. Identities altered in every byte, cut off, bit-flipped and mismatched in every combination of claimed identity and sender, offered in every way a client accepts them; directory answers and blobs likewise, passwords and answers to the question. Users with equal nicks in several orders with restarts and resets.',
  'No test runs a client. What arrives is chosen by others and by the network, and an exchange takes several messages with files of both sides in between.',
  ['zkclient/push.go', 'zkclient/reset.go', 'zkclient/identity.go', 'zkclient/addressbook.go', 'zkclient/blobkeys.go', 'zkclient/zkclient.go'],
  [('three steps of an exchange', 'zkclient.step1IDKX, zkclient.step2IDKX, zkclient.step2IDKX2, zkclient.step3IDKX'), ('PIN, password and acceptance', 'zkclient.kx, zkclient.fetch, zkclient.kxWindow, zkclient.kxAcceptWindow, zkclient.acceptCFPWindow'), ('directory', 'zkclient.find, zkclient.handleRPC'), ('reset', 'zkclient.reset, zkclient.handleResetRatchet'), ('names', 'zkclient.addressBookAdd, zkclient.loadIdentities')],
  'client', 'model_checking', 'Complete within the bounds. Key encapsulation, key derivation and the encrypted transport are ideal. ' + CLIENT, SEQ,
  observe=['identities, ratchets and keys on the modelled disk', 'messages received by the server', 'conversations and questions shown'])

p('G02', 'Only the administrator changes a group, and all members follow',
  'A client\'s idea of a group changes only by what its own user does and by what the group\'s administrator sends: kicks, kills, member lists and updates from other members, strangers or former members leave group and disk untouched. What a user says in a group goes, exactly once, to each other member and to nobody else, also right after members were kicked, parted or joined; messages of people who are not members are not shown as group messages. /gc kick, part and kill do what they say only for those entitled to, tell exactly the people concerned, and each change has a higher generation than the one before. All of this survives restarts, and time spent offline delays messages but never loses, repeats or misdirects them.',
  ['histories'], 'All histories of 2 and 3 (thorough 4) of 41 events: commands of the user, messages of administrator, members, strangers and former members to two groups, restarts, going offline and online; each against a reference model of membership, messages sent, messages shown and the disk.',
  'There is no test of group chat; wrong authority or a lost change needs several messages in a particular order.',
  ['zkclient/groupchat.go', 'zkclient/zkclient.go', 'zkclient/group.go'],
  [('messages of administrators and members', 'zkclient.handleGroupKick, zkclient.handleGroupPart, zkclient.handleGroupKill, zkclient.handleGroupList, zkclient.handleGroupMessage'), ('commands', 'zkclient.gcKick, zkclient.gcPart, zkclient.gcKill, zkclient.gcMessage')],
  'client', 'model_checking', 'Complete up to the depth and alphabet. ' + CLIENT, SEQ, q=400,
  observe=['messages sent to each contact', 'lines shown', 'group files'])

p('G03', 'Only an invited contact joins a group, once, with its own token',
  'A contact becomes a member of a group only if the administrator invited that contact to that group and the join carries the token of that invitation; then all members learn the new list. A token works once, only for the contact and the group it was given to, and not after the contact was removed. A user joins a group only on the invitation of the contact who offered it, tells exactly that contact, who alone is then taken for its administrator, and no invitation touches a group the user already has or a file outside the group directory. Open invitations, given and received, are listed with their tokens and survive restarts.',
  ['histories'], 'All histories of 2 and 3 (thorough 4) of 29 events and of 4 (5) of 10: invitations given and received, joins with right, wrong, foreign and used tokens, kicks, kills, member lists, restarts; each against a reference model of invitations, members, messages and the disk.',
  'There is no test of invitations; confusion of tokens needs several invitations to different people and groups.',
  ['zkclient/groupchat.go', 'zkclient/group.go', 'zkclient/zkclient.go'],
  [('invitations in the group database', 'zkclient.invite, zkclient.invitesDB'), ('joins', 'zkclient.handleGroupJoin, zkclient.joinGroupChat'), ('received invitations', 'zkclient.handleGroupInvite')],
  'client', 'model_checking', 'Complete up to the depth and alphabet. The expiration of invitations is not checked. ' + CLIENT, SEQ, q=400)

p('G05', 'The client sends each message once and in order, whatever the connection does',
  'Every message the user sends reaches the server\'s connection exactly once and, per recipient, in the order it was entered; messages entered while offline, while all tags are in use or while the connection is breaking wait and go out by themselves as soon as possible, with tags of the current connection that are not in use, and each decrypts at its recipient. A message that cannot be sent at all is reported and does not hold up others. Pushed messages are acknowledged once, in order. Acknowledgements in any order, with or without error, lost connections and reconnects never lose, repeat or reorder what was not yet sent, and the client does not quit on its own accord while messages wait.',
  ['histories', 'schedules', 'configurations'], 'All histories of up to 4 (thorough 5) of 13 events (messages to two contacts and a group, files, acknowledgements in any order and with errors, pushed messages, loss of connection, reconnect, time, quit) with 2 and 3 tags, of 3 events with limits that leave no room for a chunk; all interleavings within 2 (3) deviations of eight scenarios of sending against acknowledgements, pushes, loss of the connection and reconnecting with 1 to 10 tags.',
  'There is no test of the client\'s scheduler; lost, doubled and stuck messages need a connection that breaks at the right moment or tags that run out.',
  ['zkclient/msg.go', 'zkclient/zkclient.go', 'zkclient/send.go', 'tagstack/tagstack.go'],
  [('queues by priority', 'zkclient.scheduler'), ('sending a message with a tag', 'zkclient.cacheCRPC, zkclient.writePRPC, zkclient.popTag'), ('tags are freed by acknowledgements', 'zkclient.handleRPC'), ('heartbeat', 'zkclient.handleRPC')],
  'client', 'model_checking', 'Complete within the bounds. A message counts as sent when it was written to the connection; what the network loses afterwards is not sent again. ' + CLIENT, SEQ + '; ' + STATELESS, q=500,
  observe=['messages received by the server, decrypted by their recipients', 'console'])

p('G04', 'Files arrive complete and unaltered, and a transfer touches nothing else',
  'A file of up to the server\'s limit is announced to its recipient with its base name, size, description and digest and sent in order in chunks of at most the agreed size that add up to exactly its contents; a larger one is refused. The client puts a received file into its spool exactly when all of it has arrived and matches the announced digest, under the announced base name or a variation of it, reports it once, and never overwrites or changes another file: whatever names, sizes, digests, offsets and repeated, missing, superfluous or altered chunks contacts send, nothing outside the spool changes, nothing incomplete is handed out and no contact can disturb another\'s transfers or prevent later ones. Several transfers, of the same or different senders, can be in progress at once. Restarts and crashes lose at most the transfer in progress.',
  ['histories', 'inputs', 'crash_points'], 'All histories of up to 3 (thorough 4) of 17 events (announcements and chunks of five files by two contacts with equal names, equal contents and a wrong digest, altered and oversized chunks, restart), all interleavings of every two of the transfers, 216 pairs of hostile and colliding file names, files of 0 to 210 bytes with chunk sizes 1, 7, 64 and 100 and limits 50, 200, 1000, every crash point with torn writes while receiving; after each all transfers must work.',
  'There is no test for file transfers; names and orders that contacts choose are unbounded.',
  ['zkclient/chunk.go', 'zkclient/send.go', 'zkclient/push.go'],
  [('assembling received files', 'zkclient.doHandleChunkNew, zkclient.doHandleChunk'), ('sending files', 'zkclient.send, zkclient.completeSend')],
  'client', 'model_checking', 'Complete within the bounds. Two simultaneous transfers of the same contents by the same contact, files that change while they are sent and loss of power are not covered. ' + CLIENT, SEQ + '; ' + CRASH,
  observe=['files on the modelled disk', 'messages received by the server, decrypted by their recipients', 'console'])

p('G07', 'A client that dies at any moment goes on with its contacts and groups',
  'Wherever the client\'s process ends or the power fails, the client starts again and knows the same contacts and groups as before or after what it was doing; they can be read in full. Conversations with contacts go on at once: every message sent or received afterwards is shown exactly once, no message is shown again, and no message is lost but those being sent or being handled at that moment. A key exchange that was interrupted can be completed or repeated, also by a reset, and an interrupted change of a group can be made up for, so that all members see the same members and each other\'s messages again. Message keys are not used again.',
  ['crash_points', 'histories'], 'Histories of two or three real clients (messages, key exchanges with a PIN, through the directory and by reset, creating a group, inviting, joining, kicking, parting and killing it, saving conversations, deleting a contact) in which one client dies before any of its disk operations or sends or within a write, with the losses of unsynced file contents; afterwards it is started again, the history goes on, and all clients are restarted once more.',
  'No test runs a client, let alone kills one; the moment of a crash is arbitrary.',
  ['zkclient/identity.go', 'zkclient/groupchat.go', 'zkclient/msg.go', 'zkclient/push.go', 'zkclient/groupinvites.go', 'zkclient/reset.go', 'inidb/inidb.go'],
  [('ratchets and identities', 'zkclient.updateRatchet, zkclient.saveIdentity, zkclient.writeFile'), ('sending', 'zkclient.cacheCRPC'), ('receiving', 'zkclient.handlePush'), ('groups and invites', 'zkclient._gcSaveDisk, zkclient.inviteDBAdd, zkclient.joinDBAdd')],
  'client', 'fault_enumeration', 'Complete for one crash per history. ' + CLIENT, CRASH + '; ' + SEQ,
  observe=['files on the modelled disk', 'messages received by the server', 'conversations shown', 'group lists'])

p('G08', 'The client is online exactly with whom and when the user wants',
  'The client calls the server when it starts and, after the connection is lost, again within 31 seconds until it gets through. It talks only to a server with the accepted certificate and key: with another certificate it sends nothing and stays away until the user accepts the certificate, which then holds across restarts. After /offline or an unwelcome it does not connect until the user enters /online; there is at most one connection, and connections that fail are closed. A server that refuses, hangs up, speaks another version, says nothing or sends missing, invalid or extreme properties neither crashes nor blocks the client nor keeps it from going online later, and invalid properties are never used.',
  ['histories', 'schedules', 'inputs'], 'All histories of up to 3 (thorough 5) of 16 events (loss of connection, /online, /offline, /acceptnewcert, time, restart, changes of certificate and seven behaviours of the server), also with a failing first connection; about 900 welcomes with every property missing, malformed or extreme and pairs of limits, malformed first messages; all interleavings within 2 (3) deviations of seven scenarios of commands against loss of the connection, welcome and reconnecting. After each, the user must be able to go online and talk, also after a restart.',
  'No test covers the client\'s connection; what a server may do and when connections break is unbounded.',
  ['zkclient/zkclient.go', 'zkclient/mainwindow.go', 'session/kx.go'],
  [('going online and reconnecting', 'zkclient.goOnline, zkclient.goOnlineRetry'), ('welcome and its properties', 'zkclient.welcomePhase'), ('end of a connection', 'zkclient.handleRPC'), ('commands', 'zkclient.cmdOnline, zkclient.cmdOffline, zkclient.cmdAcceptnewcert')],
  'client', 'model_checking', 'Complete within the bounds. A first connection that fails is not repeated by itself, which is not demanded. ' + CLIENT, SEQ + '; ' + STATELESS,
  observe=['connections the client opens and closes', 'what it sends', 'console'])

p('G10', 'What is said in a conversation appears there, and nowhere else',
  'Every conversation, be it with a contact or a group, has one window. A message is shown there exactly once under its sender\'s name, and logged in that conversation\'s log inside the log directory, however windows are opened, closed, switched, saved and restored meanwhile, and whatever nicks and group names there are, also equal ones. What the user types goes to exactly the people of the conversation whose window is visible and whose name is in the title, with the right mode, and is shown there; text typed in the console goes to nobody. Exactly one window is visible; it changes only when the user asks for another one, never because of what others do, and the status line mentions windows with unseen messages. /save and /restore, a restart or a reconnect without open windows bring back exactly the saved conversations that still exist, also after a crash while saving.',
  ['histories', 'schedules', 'inputs', 'crash_points'], 'All histories of up to 3 (thorough 4) of 25 and 4 (5) of 12 events: messages from and to five contacts (two with equal nicks, one with a space, one named like a group) and two groups, opening, closing and switching windows by command and key, saving, restoring, restart, reconnect, changes and end of a group; after each, every window is visited in every way and talked in. All interleavings within 2 (3) deviations of seven scenarios of closing, restoring, switching and typing while messages arrive. Hostile nicks; every crash point of saving.',
  'No test covers windows; numbers of windows shift while messages are on their way.',
  ['zkclient/mainwindow.go', 'zkclient/zkclient.go', 'zkclient/push.go', 'zkclient/groupchat.go'],
  [('conversations and their windows', 'zkclient.getConversation, zkclient.groupConversation, zkclient.query, zkclient.focus'), ('printing and logging', 'zkclient.printf, zkclient.FloodfT, zkclient.log'), ('typed text', 'mainWindow.action'), ('saved conversations', 'zkclient.saveConversations, zkclient.restoreConversations')],
  'client', 'model_checking', 'Complete within the bounds. ' + CLIENT, SEQ + '; ' + STATELESS, q=400,
  observe=['visible list, title and status line', 'messages received by the server, decrypted by their recipients', 'log files on the modelled disk'])

p('G12', 'A new account is created once, where and as the user wants, and is kept',
  'At the first start the client asks for name, nick, server and token. It sends them to nobody but a server whose certificate and identity were shown to the user, who said yes to exactly these, and exactly as they were entered; an identity that does not verify is never offered. Whatever the server or the network does, also if it is silent or closes the connection at any step, the client neither crashes nor hangs, says what went wrong, and the user can try again, there or elsewhere. An account whose creation the server has confirmed is never lost: the client goes online with it, at once or after the next start, without asking again, and only with the accepted server. After a crash or disk failure at any point the client starts, either with the account or as if for the first time.',
  ['histories', 'fault_sequences', 'crash_points'], 'All histories of up to 3 (4) of 28 events: attempts with good and bad input on two servers, every answer to the fingerprint, restarts, and 16 ways in which the connection or the server fails; every such failure followed by all histories of length 3 (4) of further attempts; every crash point, torn write, loss of unsynced data and failing disk call. Each ends with two restarts that must lead online and two servers that must be refused.',
  'No test starts the client for the first time.',
  ['zkclient/welcome.go', 'zkclient/acceptserverfingerprint.go', 'zkclient/zkclient.go'],
  [('first window', 'welcomeWindow.KeyHandler'), ('question for the fingerprint', 'acceptWindow.KeyHandler'), ('creation of the account', 'zkclient.finalizeAccountCreation, zkclient.saveServerRecord'), ('later starts', 'zkclient._main, zkclient.parseMyServer, zkclient.goOnline')],
  'client', 'model_checking', 'Complete within the bounds. ' + CLIENT, SEQ + '; ' + CRASH, q=200,
  observe=['bytes received by the server', 'window, labels and status the user sees', 'files on the modelled disk after a crash'])

p('H01', 'The operator\'s programs do exactly what they say, next to a running server',
  'Each token zkservertoken prints creates exactly one account at the running server until it expires, and never one more; tokens are distinct and issuing one never loses others. zkimport of a client creates an account that can log in and never touches one that exists; zkserverctl disables and enables exactly the named account and reports failures; zkserverdump lists exactly the accounts. What zkexport -s prints is the address, identity, certificate and directory policy of the running server, and zkimport stores exactly that at a client, only with the user\'s consent, never over a configured server unless forced, and never in part. All this holds across restarts of the server, and a program that is interrupted at any point loses nothing and can be run again.',
  ['histories', 'crash_points'], 'All histories up to 3 (thorough 5) operations over 13 runs of the programs, time and restarts against the running server; every crash point of the programs that write.',
  'The programs have no tests.',
  ['tools/zkexport/zkexport.go', 'tools/zkimport/zkimport.go', 'tools/zkservertoken/zkservertoken.go', 'tools/zkserverctl/zkserverctl.go', 'tools/zkserverdump/zkserverdump.go', 'tools/tools.go', 'zkserver/pending.go'],
  [('tokens', 'zkserver.validToken'), ('account import', 'zkimport.importClientRecord'), ('server import', 'zkimport.importServerRecord'), ('socket commands', 'zkserver.socketHandler')],
  'server', 'model_checking', 'Exhaustive within the depth. Programs run one after another next to the server; zkservertoken racing with an account creation is not explored. Trusts the disk model.', SEQ)
