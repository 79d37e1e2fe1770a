M = 'model_checking'
c('P01', M, 'exhaustive enumeration of texts and word queries, real program compared with a word model',
  'All strings over a class alphabet up to length 4 (thorough 5) in every part, all byte values, word lengths; every '
  'query over the same alphabet. Trusts the 20-line word oracle; C locale; messages carried in mboxes.')
c('P02', M, 'exhaustive enumeration of query expressions over universes realising every word/part combination',
  'All expressions of the documented grammar up to 3 terms (thorough 4), all part prefixes, on databases with every '
  'truth assignment. Trusts a boolean evaluator.')
c('P03', M, 'exhaustive enumeration of (word, pattern, errors, anchor) against an edit-distance oracle',
  'All words and patterns up to the length bounds over 2-3 letter alphabets, long patterns with every error placement. '
  'Anchored approximate queries are judged by a sandwich oracle.')
c('P04', M, 'exhaustive enumeration of position sets, sizes, vocabularies, hash keys and run splits against a map model',
  'All subsets of small databases, boundary position sets of the position encoding, array growth steps. Sizes between '
  'the enumerated steps are not covered.')
c('P05', M, 'exhaustive exploration of folder histories x indexing runs, differential against a fresh database',
  'All sequences up to the depth bound of slot states (absent/new/cur/flags/rewritten) over 2-3 messages; database '
  'states deduplicated by content. mtime granularity is one second as in the program.')
c('P06', M, 'exhaustive exploration of mbox edit histories x indexing runs, differential against a fresh database',
  'All sequences of mbox contents up to the depth bound over up to 4 messages, several boxes, compressed and plain.')
c('P07', M, 'exhaustive removal subsets x purge/idle runs, differential against a fresh database',
  'All subsets of 8 messages over maildir, MH and two mboxes, then every single further change; all search kinds.')
c('P08', M, 'exhaustive enumeration of reference structures and indexing orders against connected components',
  'All labelled structures up to 4 messages with absent ids (thorough 5-6), header forms, ordered partitions into runs.')
c('P09', M, 'exhaustive crash-point and fault enumeration on the real program under a ptrace controller',
  'Kill before/after every system call touching database or mail, every error at every such call, error-then-kill pairs, '
  'series of crashes to a fixpoint of directory states, per-instruction watch of the database content. Process death, not '
  'power failure.')
c('P10', M, 'stateless exploration of all schedules of 2-3 real processes up to a preemption bound; signal/fault enumeration',
  'All schedules with up to 3 (thorough 4) preemptions between system calls on database, lock and match folder; INT, QUIT, '
  'HUP before/after every system call; errors at every call; foreign locks; error exits; memory limits.')
c('P11', M, 'exhaustive exploration of match-folder histories (searches, -a, reindexing, removals) against a model of the folder',
  'All sequences up to the depth bound of searches and folder events x 3 match-folder formats, all subsets of messages, '
  'raw and excerpt output. Trusts the 80-line folder model.')
c('P12', M, 'exhaustive enumeration of option/format/history runs and of match-folder spellings against folder snapshots',
  'Every run is followed by a comparison of all source mail with its snapshot; all spellings of a match folder that is, '
  'contains or lies in an indexed folder. Spellings through bind mounts are not covered.')
c('P13', M, 'exhaustive enumeration of date expressions x current dates x zones against an independent reading of the manual',
  'All spellings of the date grammar and all pairs of a 47-element set as ranges, under enumerated current dates, times of day '
  'and zones, over a message for each day of 1998-2005 and the turning points of 1970-2069; 7 700 non-dates. Clock injected.')
c('P14', M, 'exhaustive enumeration of size bounds and flag expressions over messages of every boundary size and info suffix',
  'All pairs of 40 bounds in all spellings; all info suffixes up to 3 letters; all Status/X-Status combinations; all '
  'renaming histories of two steps. Messages over 2 MB (thorough 16 MB) are not built.')
c('P15', M, 'exhaustive enumeration of wildcards, omit patterns and folder entries on complete trees against an independent expansion',
  'All wildcards up to 4 tokens (thorough 6), omit patterns up to 4 (thorough 5) tokens on three-level binary trees of all three '
  'kinds, all pairs of 40 folder entries, pattern lengths around word sizes, all short MH names, all marker files.')
c('P16', M, 'exhaustive enumeration of part trees, encodings in every phase, encoded-word sequences, header spellings and name forms; every word searched',
  'All part trees of depth 3 and 3 leaves over 13 leaf kinds, all base64 wrappings/paddings, all quoted-printable escape masks and soft-break '
  'positions, all encoded-word sequences of length 3, ~16k header spellings, all RFC 2231 splits of ten names; both as files and in mboxes.')
c('P17', M, 'exhaustive enumeration of line sequences, separator spellings with all one-character neighbours, MMDF files, chunk sequences and compressed histories against an independent splitter',
  'All sequences of nine line kinds up to length 4 (thorough 5), ~7k separator spellings (thorough 60k), all MMDF bodies up to 2 (3) lines, all chunk '
  'sequences of open/closed multiparts up to 4 (5), gzip/bzip2/xz (also multi-stream) at sizes around the 8 MB buffer with updates.')
c('P18', M, 'exhaustive enumeration of truncations, byte substitutions, lexeme sequences, extreme sizes and damaged archives under an address/undefined-behaviour sanitizer with exact-size mappings',
  'Every truncation and every substitution from a small set at every byte of seven rich messages; all header/body lexeme sequences up to the bound; '
  'all lengths 1-70 and powers of two for names, values, lines, boundaries; nesting to 10000; every truncation and substitution of .gz/.bz2/.xz '
  'mailboxes; a witness message must stay findable. Files change only between runs.')
c('P19', M, 'exhaustive enumeration of directive orders, presentations, list splits, variable references, subsets x environment overrides, options and invalid values against the expectation for the effective configuration',
  'All 5040 (thorough 40320) orders, all splits of lists of up to 4 folders over lines, all sequences of up to 4 (thorough 5) literal/variable tokens, '
  'every substring of every value through a variable, all 4096 placements of six directives in file/environment, all line lengths around the buffer; '
  'every created file is compared. mfolder values starting with a dot other than "./" are not judged.')
c('P21', M, 'exhaustive enumeration of assignments of dates to database positions, in every output form, order and set judged',
  'All assignments of 12 dates (1970-2106) to up to 3 of 5-6 positions, of 4 (thorough 6) dates to 5 positions, over maildir/MH/mbox mixtures '
  'and incrementally built databases; structured permutations of up to 300 (2000) messages. Dates compared by day.')
c('P20', M, 'exhaustive enumeration of reply forms, stream cuts, failure points, byte faults, mailbox histories and match-folder states against a strict scripted IMAP server',
  'Index runs and searches into every format: all 720 orders of the EXAMINE data, all attribute orders/quoted forms/capability and unsolicited-response '
  'placements, every cut and chunk size, closing at every byte, NO/BAD/BYE/silence at every command (each followed by a healthy run), byte faults at '
  'every position and 28 kinds of nonsense at every command under AddressSanitizer. Pipe transport only; no TLS.')
c('P22', M, 'exhaustive enumeration of edits of an indexed mailbox followed by searches into every output form, judged by the bytes now at each indexed position',
  'All single-byte changes (two values), insertions, deletions, exchanges and truncations of a three-message mbox, all rearrangements of up to 4 of 5 '
  'messages, replacement by nothing/directory/dangling link/other mbox, every truncation of the compressed file (gz, bz2, xz); -a after every '
  'rearrangement; truncations and replacements under AddressSanitizer. Trailing newlines of copies are not compared.')
c('P23', M, 'exhaustive enumeration of option sequences in all spellings and orders, and of unknown options, against a model of what each option contributes',
  'All sequences of up to 3 (thorough 4) of 11 search options (20 spellings) and 6 indexing options with every place of -f, all near-misses of '
  'option names (one letter missing or added, prefixes, combined letters), all places of -h/-V/-d. -r together with -x is not judged.')
c('P24', M, 'exhaustive enumeration of allocation failure points: the real program is run once per allocation with that one (and with it and all later ones) failing',
  'Scenarios over all folder kinds, search outputs, dump and IMAP; allocations made by mairix itself always, those of the C library and zlib only '
  'while the lock is held in the scenarios without IMAP (a folder the C library cannot open for lack of memory is like one that cannot be read). In '
  'quick, "all later ones" is done for every fifth allocation.')
c('P25', M, 'exhaustive enumeration of fault points: the real program is run once per system call on the match folder or standard output with that call failing',
  'One fault per run (no space, I/O error, no permission, short write) under the ptrace controller; match folders of all local formats, empty, absent or '
  'filled, with and without -a and -H. IMAP match folders are covered by P20.')
c('P26', M, 'stateless model checking: the real program next to a mail program under a ptrace scheduler, all placements of the mail steps up to a preemption bound',
  'A step of the mail program is placed only before system calls it can interact with (same file, folder above or below; the others commute). Mail steps: '
  '50 programs of 1-7 system calls; in quick they come in up to 2 groups for indexing runs and 1 for searches (thorough 3 and 2). All reads of one file '
  'mapping happen at one point. Two versions of a file differ in size or modification time; delivered files that reuse the name of a message that was '
  'searched for are not judged.')
c('P27', M, 'exhaustive fault injection on the real program: every system call on mail, folders and temporary files fails, alone or together with all later ones on its path, followed by an undisturbed run',
  'Quick: EIO once and EACCES for good at every call (plus one-byte reads and writes), thorough adds EMFILE, ENOMEM, ENOENT and the other combinations. One path fails '
  'per run. Mail: maildirs (recursive, wildcard), MH, plain, gzip, bzip2 and xz mboxes, gzipped message files; one scenario with compressed mboxes of over 8 MB.')
c('P28', M, 'exhaustive enumeration of umasks, permissions and crash points on the real program',
  'All 512 umasks for new databases and match folders, all permissions with owner read access for existing databases, all permissions for existing match folders, every system call '
  'on the database directory as crash point. mbox match folders and copied messages obey the umask and are not judged.')
c('P29', M, 'exhaustive enumeration of spellings, 8-bit characters and locales on the real program',
  'Seven (thorough: fourteen) locales made with localedef; every keyword in all single-letter case changes (short ones in all spellings), all 128 8-bit characters in subject, body and sender, '
  'all directives; tables of the C library are the oracle for letters and case.')
c('P30', M, 'exhaustive enumeration of cut-off points and identifying bytes on the real program',
  'Every prefix of nine databases of different shape, all 256 values of the eight identifying bytes and all subsets of them, foreign files; sixteen kinds of runs (five for most shapes in the quick tier) '
  'of the address-sanitized program on each; all files compared afterwards.')
