BASE = "Sampled by seed, not exhaustive. Runs the real program on a simulated kernel, clock, random source, terminal and network; trusts those stand-ins and a fast substitute for scrypt. "

prop("C01", "Saving is atomic and durable",
     "Whatever interrupts the program while it saves (kill, power loss, full disk, failing or short writes), the password file afterwards holds in full either what it held before the session or everything the session had when it saved, and opens with the credentials belonging to that content. Once the program has ended with status 0, what it saved survives a power loss (short of a disk on which directories cannot be synced, where bpass goes on by design). This holds for the default file, one named by -f or BPASS, and one reached through a symbolic link.",
     ["crash_points", "fault_sequences", "histories"],
     "every history of sessions, every point of a session at which it is killed or loses power, every storage error",
     "The tests never save a file from the program, let alone interrupt it; a crash window is a few system calls wide and needs the disk's view, not the page cache's.",
     ["main.go", "atomicwrite.go", "uicontext.go"],
     [("write to a temporary file, fsync, rename, fsync directory", "atomicwrite.go writeFileAtomic"), ("save", "main.go saveBlob")],
     BASE + "Kill and power loss at any system call of a session, with page cache loss modelled per write and directory journal in order.",
     observe=["the bytes of the password file after restart"])

prop("C02", "Later sessions see exactly what earlier sessions stored",
     "After any history of sessions that add, rename, remove, set, edit and label entries, a later session on the same file lists exactly the entries that remain, and listing, searching by name or label, showing, reading, dumping, copying or opening them gives exactly the values last stored, byte for byte, for single-line, multi-line and non-ASCII values alike, and the time of the last change. The file worked on is the one named by -f, else by BPASS, else .bpass in the home directory.",
     ["histories", "inputs", "configurations"],
     "every sequence of commands, spread over any number of sessions",
     "The unit tests exercise the transaction store alone with fixed inputs; none runs the program, saves and opens again.",
     ["commands.go", "repl.go", "blobformat/blobs.go", "blobformat/blob.go", "txlogs/txlogs.go", "uihelpers.go", "fuzzy/fuzzy.go", "cli.go"],
     [("command dispatch", "repl.go"), ("entry operations", "commands.go"), ("store", "blobformat/blobs.go, txlogs/txlogs.go")],
     BASE + "Contents compared with a reference model of named entries after every session and against what every read command displays.",
     observe=["terminal output, clipboard, browser launches, stored file"])

prop("C03", "Refused, aborted and interrupted commands change nothing",
     "A command that is refused (unknown entry, duplicate name, protected key, malformed input), declined at a question or aborted with end-of-input leaves the entries as they were, and a session that is interrupted or fails leaves the whole file as it was. The stored history only ever grows: earlier changes are never rewritten, and replaying the history from the start gives exactly the contents the file presents.",
     ["histories", "inputs", "crash_points"],
     "every sequence of commands with every question answered, declined, aborted or interrupted",
     "The tests never abort a command half-way or compare the stored snapshot with the history behind it.",
     ["commands.go", "repl.go", "txlogs/txlogs.go", "main.go"],
     [("transaction begin/rollback", "txlogs/txlogs.go Do, Rollback"), ("interrupt ends the session unsaved", "main.go, repl.go")],
     BASE + "The history is decoded with an independent reader after every session, compared as a prefix, replayed and compared with the stored snapshot and the model.",
     observe=["stored file decoded by an independent reader"])

prop("C15", "The exit status tells whether the work was done",
     "The program exits with status 0 exactly when what it was asked to do was completed and, where there was something to save, saved; a session that is interrupted or refused, a file that cannot be opened, read or written, or a failed subcommand ends with a non-zero status.",
     ["fault_sequences", "inputs", "crash_points"],
     "every session and subcommand, every storage fault, every abort",
     "No test runs the program to its end.",
     ["main.go", "cli.go", "export.go", "import.go"],
     [("error at exit", "main.go main"), ("save", "main.go saveBlob")],
     BASE + "Status compared with what was actually stored after sessions with and without failing storage.",
     observe=["exit status and stored file"])

prop("C08", "Damaged files and wrong credentials are refused",
     "A password file that is damaged in any way, or opened with a wrong user name or passphrase, is refused with an error message and a non-zero status: no content is shown or exported, the file is not modified, and the program does not crash. Any copy of an intact file with the right credentials opens.",
     ["inputs", "fault_sequences"],
     "every damage to every stored file and every wrong pair of user name and passphrase",
     "The tests damage one byte of one encrypted sample; the header, the user table and truncation at every length are never tried, nor is the program's reaction.",
     ["crypt/crypt.go", "crypt/params.go", "main.go", "uicontext.go", "blobformat/blob.go"],
     [("header and user table", "crypt/params.go"), ("authentication", "crypt/crypt.go Decrypt"), ("loading", "main.go loadBlob, uicontext.go")],
     BASE + "Twelve kinds of damage (bit flips, truncation, lost, repeated or zeroed blocks, rewritten header fields, garbage) and eight kinds of wrong credentials; an independent decoder says whether the file should open.",
     observe=["terminal output, exit status, stored file"])

prop("C09", "Exactly the current users can open the file",
     "After any history of adding, removing and renaming users, changing passphrases and rekeying, the stored file opens with exactly the current users and their current passphrases, all of whom see the same contents; a passphrase that was changed, or a user that was removed, no longer opens it. Rekeying really replaces the keys it names, and rekeyall the master key and every user's.",
     ["histories", "inputs"],
     "every sequence of user and key commands, over any number of sessions and by any of the users",
     "The tests add and remove users in the encryption package only; nothing runs the commands and opens the file again as each user.",
     ["commands.go", "crypt/params.go", "crypt/crypt.go", "main.go"],
     [("user commands", "commands.go adduser, passwd, rekey, rekeyall"), ("user entries", "blobformat/blobs.go"), ("file header", "crypt/params.go")],
     BASE + "After every session an independent decoder tries every current and every former pair of user and passphrase.",
     observe=["stored file opened by an independent decoder with each pair"])

prop("C04", "Devices that sync converge on the same contents",
     "Devices that sync one password file through any mix of shared files and scp servers end up, once each has synced without faults a few times, with the same contents and the same history of changes, however their sessions interleaved, failed or were cut short, and with whatever clocks. No change made on any device is lost on the way except through a conflict the user decided, each device's own order of changes is kept, and where two devices changed the same value, the later change wins.",
     ["histories", "schedules", "fault_sequences", "crash_points"],
     "every interleaving of sessions on two or three devices with disagreeing clocks, one or two remotes, and every network or storage fault",
     "The tests merge a few hand-written logs; none runs two programs, a remote, a clock that disagrees or a network that fails.",
     ["sync.go", "merging.go", "txlogs/txlogs.go", "txlogs/tx.go", "scpsync/scpsync.go"],
     [("pull, merge, push", "sync.go sync"), ("merge of histories", "txlogs/txlogs.go Merge"), ("transfer", "scpsync/scpsync.go")],
     BASE + "Two or three simulated devices, up to two remotes (a shared mount or simulated ssh hosts speaking the scp protocol); the scp transfer itself is not atomic, a half written remote is removed before settling.",
     observe=["files of all devices and remotes, decoded by an independent reader"])

prop("C05", "Syncing never loses what a device or a remote has",
     "A sync that fails at any point, or meets an unreachable, unreadable, damaged or undecryptable remote, never removes changes from the local file and never overwrites a remote file it could not read or decrypt; what it pushes always contains everything the remote had when it was read, apart from conflicts the user decided. A missing remote is created.",
     ["fault_sequences", "histories", "crash_points"],
     "every network fault, server error, remote damage and storage fault at every step of every sync",
     "The tests run the scp exchange once against a scripted peer; no failure in the middle of a sync is ever tried.",
     ["sync.go", "merging.go", "scpsync/scpsync.go", "atomicwrite.go"],
     [("skipping remotes that failed", "sync.go sync"), ("errors of the transfer", "scpsync/scpsync.go"), ("push", "sync.go pushBlob")],
     BASE + "Remotes are damaged in twelve ways, made unreadable, full, read-only or unreachable, and connections dropped at every step.",
     observe=["remote and local files before and after each sync, decoded by an independent reader"])

prop("C06", "Deletions and concurrent changes conflict visibly",
     "When an entry was deleted on one device and changed later on another, syncing asks whether to restore or delete it, once per device and deletion, and the answer takes effect everywhere: restored entries have all their later changes, deleted ones are gone. Entries that were deleted without later changes stay deleted and nothing is asked about them, also when several devices deleted them, and a sync never leaves a file that cannot be opened or synced any more.",
     ["histories", "schedules"],
     "every interleaving of deletions and changes on two or three devices and every answer",
     "The tests construct single conflicts and read the flags; they never answer one through the program or sync again afterwards.",
     ["merging.go", "txlogs/txlogs.go", "sync.go"],
     [("conflict questions", "merging.go mergeLogs"), ("conflict detection and resolution", "txlogs/txlogs.go Merge")],
     BASE + "Within a run all conflicts are answered the same way.",
     observe=["questions asked; files of all devices and remotes"])

prop("C18", "Two-factor codes are those of RFC 6238 for the stored key",
     "The code that show, get, cp, totp and login print or copy for an entry's two-factor key is the one RFC 6238 prescribes for that key's secret, digits, period and algorithm at the device's current time, whatever time that is. A key is stored only when codes can be computed from it, a refused key leaves the entry as it was and is reported, and an entry without a usable key gets a message instead of a wrong code.",
     ["inputs", "schedules"],
     "every key and parameters, every moment, and every command that uses a code",
     "One test computes a code for one secret and compares its length; no other digits, period, algorithm or time is tried.",
     ["blobformat/blobs.go", "blobformat/blob.go", "commands.go"],
     [("code", "blobformat/blob.go TwoFactor"), ("storing a key", "blobformat/blobs.go SetTwofactor"), ("using it", "commands.go get, show, login")],
     BASE + "An independent implementation of RFC 6238 computes the codes for the simulated time between the command and its output.",
     observe=["terminal output and clipboard at a simulated time"])

prop("C14", "Secrets reach the disk and other programs only encrypted",
     "Passphrases, entry values and keys are written to disk and to remotes only inside the encrypted file, whose initialisation vector is fresh with every save and whose salts are fresh with every new key; the only exceptions are the export file and the editor's temporary file, which is readable by its owner only, is erased before it is removed and never outlives the session that created it, except through a kill. No file the program creates is readable by others, no passphrase of the file is ever displayed, stored in the line history, or passed to another program.",
     ["histories", "fault_sequences", "crash_points"],
     "every byte the program writes to any file or connection, shows, or passes to another program, in every history",
     "No test looks at what the program writes; a leak shows only in the content of files nobody reads.",
     ["main.go", "atomicwrite.go", "crypt/crypt.go", "uihelpers.go", "readline.go", "sync.go", "scpsync/scpsync.go"],
     [("encryption, random IV", "crypt/crypt.go Encrypt"), ("temporary file of the editor", "uihelpers.go"), ("line history", "readline.go"), ("hidden input", "pinentry, uicontext.go promptPassword")],
     BASE + "Searches every written file image, upload, argument vector and the screen for every secret of the run of six bytes or more.",
     observe=["every file write, remote upload, argv of child processes, screen"])

prop("C16", "Exports and imports are complete and exact",
     "An export that reports success wrote a CSV file with one line per entry that has every key and value of that entry exactly as the file has them, including what arrived in the same session, and leaves the password file's contents as they were; the new file is readable by its owner only. A LastPass import adds every record of the client's output as its own entry, with all fields that are not empty and a name not used before, and touches nothing else; if the client fails or its output is malformed nothing at all is imported, and importing into an existing file happens only after confirmation.",
     ["inputs", "histories", "fault_sequences"],
     "every vault, every client output, every storage error while exporting or importing",
     "No test runs an export or an import.",
     ["export.go", "import.go", "main.go", "cli.go"],
     [("export", "export.go"), ("import", "import.go importLastpass"), ("without saving on errors", "main.go")],
     BASE + "Exports are read by an independent CSV reader and compared with the file as decoded independently; the client is a stand-in that prints generated CSV.",
     observe=["export file, stored file after an import, exit status"])

prop("C17", "Generated passwords meet the settings of the menu",
     "Whatever settings were chosen in the password menu, each generated password has exactly the chosen length, no character of an excluded kind, and at least as many of each kind as chosen; settings that cannot be met, or are not numbers, are refused with a message and change nothing, and the menu neither crashes nor hangs. The accepted password is the one shown last, or the one typed twice, and is exactly what is stored or printed. All characters of the chosen kinds occur about equally often, and each kind at every place.",
     ["inputs", "histories"],
     "every walk through the menu and every value of the random source",
     "The tests generate a few passwords with two settings; the menu itself is never run.",
     ["passwd_gen.go", "uihelpers.go", "commands.go", "main.go"],
     [("generator", "passwd_gen.go genPassword"), ("menu", "uihelpers.go getPassword"), ("gen", "main.go")],
     BASE + "Random bytes come from the simulator, with biased and constant streams as faults; the frequency of characters is a statistical test (twice or half as often as expected, seven standard deviations) with a false alarm rate below 1e-9 per run.",
     observe=["menu output, stored password, standard output of gen"])

prop("C20", "The clipboard holds what was asked for and is cleared at the end",
     "A copying command puts exactly the stored value of the entry it names into the clipboard and says so; if there is no such value, the clipboard refuses it or the command fails, the command says so and does not claim otherwise. However a session ends, other than by a kill, the clipboard is cleared at its end unless --no-clear-clip was given, in which case it is never touched except by copying commands; a clipboard that cannot be cleared is reported.",
     ["histories", "fault_sequences"],
     "every sequence of copying commands, every ending of a session, failing clipboards and storage",
     "The tests never run a session, and there is no clipboard in the test environment.",
     ["commands.go", "uicontext.go", "main.go"],
     [("copying", "commands.go get"), ("clearing at exit", "main.go Exit")],
     BASE + "The clipboard is a stand-in behind the atotto/clipboard seam (a child process) that can fail per write.",
     observe=["sequence of clipboard contents, messages"])

prop("C11", "Any past state can be read back",
     "Opening the file at a moment of its history shows exactly what it held then, and the history view of an entry lists each of its past states exactly, with the right times, in order; looking at the past never changes the file. In the past view every command that would change something is refused and says so.",
     ["histories", "inputs", "configurations"],
     "every history of changes, every moment before, in and after it, and every snapshot number",
     "The tests roll back hand-made logs inside the store; none opens a file at a time, and none asks at moments inside a command or at equal timestamps.",
     ["main.go", "cli.go", "commands.go", "txlogs/txlogs.go", "blobformat/blobs.go"],
     [("file at a time", "main.go loadBlob, cli.go -t"), ("history of an entry", "commands.go show with a snapshot number, txlogs/txlogs.go"), ("read-only mode", "uicontext.go, commands.go")],
     BASE + "Histories of many sessions with clock jumps and coarse clocks; times asked for include exact times of changes and the seconds around them; the expected contents are those of an independent replay of the decoded history.",
     observe=["terminal output in the past views, stored file"])

prop("C12", "Only hosts the user trusts are ever talked to",
     "A server never receives credentials or data unless it proves to hold a key that the user accepted for it when asked, or that was stored for it earlier; one whose key differs from the stored one is refused with a message, and the stored key does not change. A host that was accepted is stored once the session saves, is not asked about again, and the user sees the fingerprint of the key in question; declining costs nothing but that remote.",
     ["fault_sequences", "histories"],
     "every sequence of sessions with servers that are exchanged, impersonated, moved to another address or given new keys",
     "The tests never connect to anything.",
     ["sync.go", "scpsync/scpsync.go"],
     [("host key check", "sync.go hostAsker.callback"), ("known hosts", "sync.go saveHosts"), ("use", "sync.go sshPull, sshPush, ssh")],
     BASE + "The ssh client is the real one up to the transport; impostors, changed keys and addresses are injected between sessions, during a sync and between its pull and push.",
     observe=["what each server was sent, questions asked, stored known hosts"])

prop("C13", "A transfer delivers the exact bytes to the exact place or fails",
     "What a push that is reported as done leaves at the remote is exactly the encrypted file at exactly the path of the entry, whatever characters the path contains, and what a pull uses is exactly what is there. Every failure of the transfer (a connection that breaks or stalls at any byte, refused authentication, missing directories, full disks, protocol errors, an exit status) is reported as an error of that remote, nothing else at the remote is created or changed, and the session goes on.",
     ["fault_sequences", "inputs"],
     "every path, every content, every point at which the transfer fails",
     "The tests of scpsync need a real server and are not run; nothing tests failures or unusual paths.",
     ["scpsync/scpsync.go", "sync.go", "main.go"],
     [("scp protocol", "scpsync/scpsync.go Send, Recv"), ("path quoting", "scpsync/scpsync.go quoteFilename"), ("local files", "sync.go pullBlob, pushBlob")],
     BASE + "The scp peer splits the command like a shell and speaks the protocol byte by byte in fragments; a torn upload (the peer's own file left half-written when the connection breaks) is not judged, scp has no atomic upload.",
     observe=["files at every remote, commands the peer was given, messages"])

prop("C19", "No input makes the program crash or hang",
     "Whatever is typed at any prompt or given as argument, environment or editor content, the program answers, refuses or ends in an orderly way: it never crashes, never stops responding and never asks for ever. A session that survives such input saves a file that can be opened again and holds only what was said to be stored.",
     ["inputs", "histories"],
     "every sequence of lines and answers, well-formed or not, completion requests included",
     "The tests call functions with well-formed arguments.",
     ["repl.go", "commands.go", "cli.go", "readline.go", "uihelpers.go", "sync.go", "main.go"],
     [("dispatch", "repl.go"), ("argument checks", "commands.go"), ("completion", "readline.go")],
     BASE + "Lines are drawn from a grammar of commands with malformed, missing, extra and hostile arguments; hanging is a bound on the events of a session. Invalid UTF-8 is not generated.",
     observe=["exit of the process, number of events, stored file"])

prop("C21", "Entries are always reachable by one unambiguous name",
     "At the end of every session no two entries have the same name and every entry has one, also when devices that had the same name for different entries sync: one of them is renamed, the message says so, and no entry loses anything else. Commands act on the entry whose exact name was given and on no other, and inside an entry on that entry, whatever it is called meanwhile.",
     ["histories", "schedules"],
     "every history of devices that add, rename and remove entries and users with colliding names, and sync in any order, with failing remotes",
     "The test of the merge compares transaction lists; names collide only when whole sessions on two devices are combined.",
     ["blobformat/blobs.go", "sync.go", "uihelpers.go", "commands.go"],
     [("unique names", "blobformat/blobs.go New, Rename, RenameDuplicates"), ("after a merge", "sync.go"), ("exact names", "uihelpers.go")],
     BASE + "Names are drawn from a pool small enough that devices collide often; users with colliding names must keep their access.",
     observe=["stored files of devices and remotes, output of ls and show"])

prop("C22", "No remote can cost what was done on a device",
     "Whatever a remote holds or does (nothing, damaged bytes, a history that is impossible, unrelated or made by nothing but malice, entries of other remotes that are malformed, errors at any point), a session that syncs neither crashes nor hangs, ends with a stored file that opens and holds everything done on the device, and ends with status 0 if it was saved. The other remotes are synced as usual, unless the history of one cannot be merged with what is here or the user declines to merge it: that sync is then abandoned with a message.",
     ["fault_sequences", "histories", "inputs"],
     "every content and behaviour of every remote, with remotes added and removed in the same history",
     "The tests merge well-formed logs only.",
     ["sync.go", "merging.go", "txlogs/txlogs.go", "blobformat/blobs.go", "main.go"],
     [("pull and merge", "sync.go sync, merging.go mergeBlobs"), ("validity of what was pulled", "sync.go checkLog"), ("hosts", "sync.go saveHosts")],
     BASE + "Eighteen kinds of poisoned histories encrypted with the right passphrase, on top of the damage and faults of C05.",
     observe=["exit status, stored file of the device, messages"])

prop("C10", "Syncing locks nobody out",
     "Whatever devices do to passphrases, users and keys of a shared file between syncs, every file a sync leaves, on a device or a remote, can be opened; it has exactly the users its entries say, each with the passphrase of the side whose key was kept, except those the sync named as needing a rekey, and never a user that was removed. The passphrase of a single-user file only changes to one that was typed in that session.",
     ["histories", "schedules", "fault_sequences", "crash_points"],
     "every history of passphrase, user and key changes on several devices, with every order of syncs and with faults",
     "The tests of the merge use fixed logs without users; none opens the outcome of a merge.",
     ["merging.go", "sync.go", "commands.go", "crypt/params.go", "crypt/crypt.go"],
     [("merge of credentials", "merging.go mergeBlobs"), ("user commands", "commands.go adduser, passwd, rekey, rekeyall"), ("file header", "crypt/params.go")],
     BASE + "Two or three devices, one or several users per file, conversions between the two; an independent decoder tries every user with every passphrase there ever was on every file after every session.",
     observe=["files of all devices and remotes opened by an independent decoder with each pair, messages"])

prop("C24", "A passphrase program is told the truth and believed exactly",
     "When an external passphrase program is configured, it is asked for the same thing the prompt would ask, word for word, on the terminal and display of the session, and the passphrase it returns is used exactly, whatever characters it contains. If it cancels, fails, answers with malformed lines or goes away at any point, the session ends in an orderly way with an error or asks on the terminal, and nothing is created or changed; it never crashes, hangs or uses part of an answer.",
     ["fault_sequences", "inputs"],
     "every dialogue with the program: every answer, every malformed line, every point at which it goes away",
     "The tests never start such a program.",
     ["pinentry/pinentry.go", "uicontext.go", "main.go"],
     [("protocol", "pinentry/pinentry.go Password"), ("use", "uicontext.go promptPassword"), ("choice of program", "pinentry/pinentry.go, environment PINENTRY")],
     BASE + "The program is a stand-in speaking the Assuan lines, with delays, cancellations, malformed replies and early exits.",
     observe=["lines the program received, passphrase that opens the stored file, exit status"])

prop("C25", "Files keep their format across versions and programs",
     "Every password file that a session or a sync leaves, on the device or a remote, is in the documented format: an independent reader opens it with the right credentials, and its snapshot is what the first changes of its log, as many as its version says, amount to. Any file in that format is accepted, locally and as a remote, and means what its log says, whoever wrote it: with a current snapshot, an older one or none, with other white space, escapes or order of fields, with fields of a later version, with the users in another order.",
     ["histories", "inputs"],
     "every history of sessions and syncs between which any other conforming program may have written the file",
     "The tests decode what the same code has just encoded; a change made on both sides goes unnoticed and makes existing files unreadable.",
     ["crypt/crypt.go", "crypt/params.go", "txlogs/txlogs.go", "blobformat/blobs.go", "pkcs7/pkcs7.go", "main.go"],
     [("file format", "crypt/crypt.go Encrypt, Decrypt"), ("header", "crypt/params.go"), ("log and snapshot", "txlogs/txlogs.go New, Save, UpdateSnapshot"), ("remotes", "sync.go")],
     BASE + "The writer is independent of the program's; the key derivation is a stand-in that depends on every parameter of the real one, so a change of a cost parameter is seen.",
     observe=["stored files read by an independent decoder, output of ls, show and get, merged histories"])

prop("C07", "Unrelated files are merged only with consent",
     "A sync that meets a remote file whose history shares nothing with the local one says so and asks before merging; it asks in no other case, in particular never about files that were merged before, whichever device, order or clock they come from. Unless the user agrees, nothing of the remote enters the local file and the remote keeps its contents, and the session otherwise goes on. When the user agrees, both histories in full are in the local file and the remote, nothing of either is lost, and all devices converge.",
     ["histories", "inputs", "configurations"],
     "every history of devices that each made a file of their own before they are pointed to the same place, with every answer to the question",
     "The tests merge two fixed logs once; that the merged file is then met by the other device, whose history may sort after, is never tried.",
     ["txlogs/txlogs.go", "merging.go", "sync.go"],
     [("no common ancestry", "txlogs/txlogs.go Merge ConflictKindRoot"), ("question", "merging.go mergeLogs"), ("use of the answer", "sync.go")],
     BASE + "All devices use the same passphrase; relatedness is judged from the logs an independent reader finds on both sides before the session.",
     observe=["questions on the terminal, logs of local and remote files"])
