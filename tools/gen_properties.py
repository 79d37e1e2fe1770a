"""Regenerates properties.jsonl."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=mech,where=', '.join(files))],observe_at=[observe],hook_needed=None)))
p('P01','Word search finds exactly the messages containing that word in that part',
 "After indexing, a plain word query on To, Cc, From, Subject, Message-ID or body (t: c: f: s: m: b:) returns a message if and only if that word occurs in that part, ignoring ASCII case. Words are the maximal runs of (ASCII) letters, digits and underscore; in address headers (To, Cc, From) additionally the maximal runs that also include '@', '.', '-' and '+' can be searched for, and words inside HTML tags are not part of the body; for m: the word is the whole id between the angle brackets. Words of one part never match in another part.",
 ['inputs'],"every header/body text over a small character-class alphabet up to a length bound, placed in each searchable part, and every word query over the same alphabet",
 "The suite checks a few fixed words; tokenisation must be right for every adjacency of character classes, at every position, in every part.",
 ['tok.c','rfc822.c','db.c','search.c'],"tokenisers feed one inverted index per message part; searching looks the token up in the tables of the requested parts",
 "paths printed by mairix -r")
p('P02','Query operators form the documented boolean algebra',
 "For every combination of arguments, part prefixes, slashes, commas and tildes, the messages returned are exactly those given by the documented binding order: separate arguments are ANDed, '/' separates alternatives, ',' separates conjuncts inside an alternative, '~' negates one conjunct, and a list of part letters before ':' means the word may be in any of these parts ('a:' is To, Cc or From; 'r:' is To or Cc; no prefix is To, Cc, From, Subject and body). Date, size, flag and path arguments are ANDed with the other arguments.",
 ['inputs'],"all query expressions of the grammar up to a term bound, over a universe of messages realising every presence/absence combination of the words in the parts",
 "Tests evaluate about a dozen fixed expressions on mail that does not separate the possible parses; precedence and negation bugs show only on particular truth assignments.",
 ['search.c'],"do_search splits arguments into conjuncts and disjuncts and combines hit bitmaps",
 "paths printed by mairix -r")
p('P03','Substring and approximate matching follow edit distance',
 "A query word= matches exactly the messages having an indexed word that contains the substring, and word=N exactly those having an indexed word containing a stretch within N single-letter errors (missing, extra or different letter) of the pattern, ignoring case. With a leading ^ and no errors the pattern must start the word; with ^ and N errors every word having a prefix within N errors matches and no word matches that has no stretch within N errors. The same matching applies to paths (p:, where the pattern is matched against the whole path and letter case is significant).",
 ['inputs'],"all words up to a length over a small alphabet, all patterns up to a length, N from 0 to 3, anchored and not, plus all pattern lengths from 1 to 40",
 "The bit-parallel matcher's correctness depends on every (pattern, word, N) triple; tests try a handful with one word.",
 ['search.c'],"match_substring_in_table, build_match_vector / substring_match_general (shift-and automaton)",
 "paths printed by mairix -r")
p('P04','The index stays exact at any scale and with any hash key',
 "For any distribution of words over the messages of a database - any number of messages, any set of message positions for a word, any number of distinct words, any word length, any hash key - a search for a word returns exactly the messages that contain it. Building the same database in several indexing runs gives the same answers as building it in one run.",
 ['inputs','histories'],"all small sets of message positions drawn from the boundaries of the position encoding, all ways of splitting the build in runs at those boundaries, several hash keys and vocabulary sizes across table growth steps",
 "The tests' databases have at most a few hundred messages and one forced hash key, so wide position gaps, multi-byte encodings, table splits and key-dependent collisions are never reached.",
 ['tok.c','hash.c','writer.c','reader.c','db.c','search.c'],"posting lists are delta-encoded with variable length numbers; token tables are hash tables grown by splitting; both are serialised and read back",
 "paths printed by mairix -r; mairix -d")
p('P05','Incremental indexing of maildir/MH equals indexing from scratch',
 "After any history of messages being added, removed, renamed (new to cur, flag changes) or rewritten (so that size or modification time changes) in maildir and MH folders, interleaved with indexing runs with or without purge, every search after the last indexing run returns the same messages as with a database built from scratch at that moment. An indexing run with -F may only miss rewrites of files that keep their name, and a later normal run repairs that.",
 ['histories'],"all operation histories up to a depth over a few message slots in one maildir and one MH folder with indexing, purging and fast-indexing steps",
 "Tests run two or three fixed steps; stale entries, missed rescans and index corruption depend on particular sequences of changes and indexing runs.",
 ['db.c','dirscan.c','writer.c','reader.c','mairix.c'],"update_database matches on-disc paths against the stored ones by name, mtime and size; cull_dead_messages compacts",
 "paths printed by mairix -r for a fixed probe set of queries")
p('P06','Incremental indexing of mboxes equals indexing from scratch',
 "After any history of messages being appended to, removed from, or replaced in mbox files, of mbox files being truncated, recreated, added or removed (with a change of modification time or size), interleaved with indexing runs with or without purge, every search after the last run returns the same messages with the same positions as a database built from scratch. Exempt, as documented in the source, is an edit that leaves a later message of the same mbox where it was.",
 ['histories'],"all operation histories up to a depth over two mboxes with a few message slots, including compressed ones, with indexing and purging steps",
 "Tests append and delete once; the checksum-based search for the last still valid message and the renumbering of mailboxes depend on longer histories.",
 ['mbox.c','db.c','writer.c','reader.c','mairix.c'],"compute_checksum/find_last_valid_msg decide the common prefix; new messages are appended and mailboxes are compacted",
 "mairix -r (mbox message position in the path) and the copied message text")
p('P07','Vanished messages are never returned; purging changes no answer',
 "Once an indexing run has seen that a message no longer exists, no search returns it, neither as a match nor as a thread member. Purging removes exactly the vanished messages from the database and changes the result of no search; an indexing run without any change in the folders changes no search result either.",
 ['histories'],"every subset of messages of mixed folders removed, in one or two rounds, purged at either point, followed by all probe queries including thread searches",
 "The tests remove one fixed set of messages and compare dumps; they never search after purging, nor in threads with holes.",
 ['db.c','search.c','writer.c','reader.c','mbox.c'],"dead marking, cull_dead_messages renumbers messages, mailboxes and all posting lists; thread ids recomputed",
 "paths printed by mairix -r, with and without -t; mairix -d")
p('P08','Thread search returns exactly the connected conversations',
 "With -t, the result is exactly the set of indexed messages connected to some match through Message-ID, In-Reply-To and References headers, where two messages are connected if one refers to the other's id or both refer to a common id, even one that is not itself indexed, and connection is transitive. This holds whatever the order in which messages are indexed and however the indexing is spread over runs.",
 ['inputs','histories'],"all reference structures among up to 4 messages plus an absent id, in every header form, in one or several indexing runs",
 "One fixed thread is tested; merging of partial threads depends on the shape and order of references.",
 ['db.c','rfc822.c','tok.c','search.c'],"find_threading merges messages that share a message-id token; search marks all messages with a hit thread id",
 "paths printed by mairix -r -t")
p('P09','The database survives a kill or an I/O failure at any point',
 "If an indexing run is killed at any moment, or any one of its file operations fails, the database file is afterwards either absent/unchanged as before the run or completely the new one, and once a stale lock is removed (--unlock) searches on it give exactly the old or the new answers. A failing run does not report success when the new database was not stored.",
 ['crash_points','fault_sequences'],"every point of the system-call trace of indexing runs (first, incremental, purging), every shared-memory store made to the database file, and every single failing file operation",
 "Tests never interrupt a run or fail a system call.",
 ['writer.c','db.c','mairix.c'],"write_database creates the new database file and puts it in place",
 "contents of the database file and of searches after the interruption")
p('P10','The lock excludes concurrent runs and is always released',
 "At most one mairix process at a time is between acquiring and releasing the database lock, for every interleaving of any set of indexing, searching and dumping runs; a run that finds the database locked exits with an error and touches neither database, results folder nor the other's lock. A run that held the lock removes it when it ends, whether normally, by an error or by an interrupting signal (INT, QUIT, HUP, TERM), and a run that never got the lock removes nothing even when interrupted.",
 ['schedules','fault_sequences'],"all interleavings of the file operations of two or three processes up to a preemption bound, and every signal at every system call of a run",
 "Tests run one process at a time and send no signals.",
 ['dotlock.c','mairix.c'],"lock_database makes the lock by linking a private file to DB.lock; unlock_database and handlers remove it",
 "existence and owner of DB.lock over time; database and results folder")
p('P11','The match folder holds exactly the matching messages, faithfully',
 "After a search, the match folder (maildir, MH or mbox) contains exactly the matched messages, each once and with its exact content - as links to messages kept in their own file and as copies of messages inside mboxes - and nothing from earlier searches; with -a it contains in addition everything it contained before. Raw and excerpt output list each matched message exactly once with its path (and To, Cc, From, Subject, Date values), without touching any folder.",
 ['histories','inputs'],"all sequences of up to three searches with and without -a over every subset of messages from maildir, MH, mbox and compressed mbox sources, into each output format",
 "Tests check one search per format into a fresh folder; accumulation, clearing, name clashes and mixed sources need sequences.",
 ['search.c','mairix.c','mbox.c','rfc822.c'],"create_symlink, mbox_terse_dump/append, clear_maildir_subfolder, clear_mh_folder, name generation for links",
 "directory listing, link targets and file contents of the match folder; stdout")
p('P12','Source mail is never modified, and never used as match folder',
 "No indexing or search run, of any format, option or history, changes or deletes any message or mailbox file of the indexed folders, or adds entries among their messages. A search whose match folder (rc file or -o, however the path is written, wildcard or recursive folder definitions included) is one of the indexed folders is refused with an error before anything is deleted or written.",
 ['histories','inputs'],"all spellings of a match folder path that denote an indexed maildir, MH folder or mbox, times folder definitions that select it; plus whole-tree comparison over all output histories including -a after folders changed",
 "Loss of mail appears only for particular aliasing of paths or name clashes that the suite has no cases for.",
 ['mairix.c','search.c','dirscan.c'],"member_of compares the match folder against every indexed folder; output code writes only below the match folder",
 "recursive snapshot (names, types, contents, modes, mtimes) of the source folders before and after")
p('P13','Date searches select by the documented date arithmetic',
 "d:period selects exactly the messages whose Date header (the calendar day as written) lies in the period; d:start-end, d:start- and d:-end select the messages dated later than the start day and not later than the end of the end day. Days, months, years and relative offsets in all documented spellings, including the inference of omitted month, year or century, the end being on or before today and the start on or before the end, are resolved as the manual's rules say for any current date. An argument that is not a date is refused with an error. (Messages without a readable Date header are not covered.)",
 ['inputs','configurations'],"all documented date forms over all days around month, year and leap-day boundaries, for every day of several years as current date",
 "Six fixed absolute ranges are tested; relative and abbreviated dates depend on the day on which the test runs.",
 ['dates.c','datescan.nfa','search.c','rfc822.c'],"datescan automaton classifies the form, scan_date_expr resolves it, parse_rfc822_date reads the header",
 "paths printed by mairix -r under a controlled clock")
p('P14','Size and flag searches select exactly by size and flags',
 "z:low-high selects exactly the messages whose size in bytes lies strictly between the bounds (an omitted bound is unlimited; suffix k/K is 1024, m/M is 1024*1024), for file messages and messages inside mboxes. F: selects exactly the messages whose maildir info suffix (or mbox Status/X-Status header) has all given flags s, r, f set, or unset where prefixed by '-'; a flag change by renaming is picked up by the next indexing run.",
 ['inputs'],"all sizes around byte, k and M boundaries with all bound expressions; all subsets of maildir info letters in cur and new, all Status/X-Status values, all flag expressions",
 "Only a few sizes and flag sets are tested.",
 ['search.c','db.c','rfc822.c','mbox.c','dirscan.c'],"find_size_matches_in_table, find_flag_matches_in_table, flag scanning of names and Status headers",
 "paths printed by mairix -r")
p('P15','Folder definitions select exactly the documented folders',
 "The indexed messages are exactly those in the folders selected by the maildir, mh and mbox definitions: literal names, *, ?, [..] wildcards in the last path component, recursive ... entries, '\\:' for a colon, several entries and lines, minus the folders whose name matches an omit pattern, where * does not cross '/' and ** does. Only files that look like messages of the folder type are taken (maildir new/cur files, all-digit MH files, mbox files with separator lines).",
 ['inputs'],"all patterns up to a length over the wildcard alphabet against all names up to a length, and a directory tree with all folder kinds under all combinations of definition, recursion and omission",
 "Tests use two or three literal folder names; wildcard matching is over all pattern/name pairs.",
 ['glob.c','dirscan.c','mbox.c','mairix.c'],"glob automaton (make_globber/is_glob_match), build_message_list, build_mbox_lists, omit globs",
 "paths printed by mairix -r for a query matching all messages")
p('P16','MIME decoding: text is found however it is encoded or nested',
 "The words of text/plain and text/html parts are found as body words whatever the transfer encoding (7bit, 8bit, binary, quoted-printable, base64) and nesting of multipart and message/rfc822 parts, whose header words are also found in the respective parts; encoded-words in headers are decoded before indexing; text of non-text parts is not indexed. The file names of parts with Content-Disposition attachment are found by n:.",
 ['inputs'],"all part trees up to a size with every transfer encoding at every leaf, every line-wrapping and padding phase of base64/quoted-printable, every encoded-word form",
 "Decoders have phase- and boundary-dependent behaviour; the suite has a handful of multipart samples.",
 ['rfc822.c','nvp.c','nvp.nfa','tok.c'],"decode_header_value, unencode_data, parse_attachment/do_multipart, nvp automaton",
 "paths printed by mairix -r")
p('P17','Mailbox files are split into exactly their messages',
 "An mbox file is split exactly at the 'From ' separator lines (lines starting with 'From ' followed by an optional sender address and a date in a usual format), an MMDF file at its separator pairs (separator lines inside a multipart message that is not yet closed are content of that message if a later part closes it); every message is indexed with its own words only and is copied out byte for byte. Compressed mboxes (gzip, bzip2, xz) behave as the same file uncompressed.",
 ['inputs'],"all sequences up to a length of lines drawn from separators, near-separators, blank lines and text, and all separator forms from a grammar of addresses and dates",
 "Boundary decisions depend on the combination of neighbouring lines; the suite has a few well-formed mailboxes.",
 ['mbox.c','fromcheck.nfa','from.h','xzfile.c','rfc822.c'],"build_new_message_list scans for separators with the fromcheck automaton",
 "number and text of the messages (mairix -r positions, copies into an mbox/mh match folder)")
p('P18','No mail content can crash, hang or derail indexing',
 "Whatever bytes a message file or mailbox contains - truncated anywhere, malformed headers, MIME structure, encodings, dates, ids - indexing finishes without memory errors, assertion failures or hanging, and all other messages are still indexed and found. The same holds for searching and outputting such messages.",
 ['inputs'],"all truncations and all single-byte substitutions (from a small set) of rich sample messages, and all sequences of MIME/header lexemes up to a length, under an address sanitizer",
 "Tests contain a handful of odd messages and no sanitizer.",
 ['rfc822.c','nvp.c','mbox.c','tok.c','db.c','search.c','dates.c','expandstr.c'],"message parsing and decoding of untrusted input over mapped files",
 "exit status and sanitizer reports of mairix, and searches for an unaffected message")
p('P19','Configuration files mean what the manual says',
 "For every rc file built from the documented directives, in any order, with comments, blank lines, leading blanks, repeated folder lines and $VAR, ${VAR} or ~ references, mairix behaves as the equivalent canonical configuration; environment overrides and -f, -o options take precedence as documented. Missing mandatory directives, an invalid mformat or lines too long to be read are reported with an error exit and no output folder or database is written.",
 ['inputs'],"all permutations and presentations of a directive set, all variable-reference forms up to a length, all subsets of the mandatory directives",
 "The suite uses one generated configuration.",
 ['mairix.c','expandstr.c'],"parse_rc_file, get_* helpers, expand_string",
 "files created and paths printed by mairix")
p('P20','IMAP folders are indexed exactly, however the server chunks its replies',
 "With IMAP folders, the index holds exactly the non-deleted messages of the configured folders with their exact content, and a match folder receives exactly the matched messages, for every segmentation of the server's byte stream and every legal ordering and literal/quoted form of its responses. A server that answers NO, closes the connection or sends garbage at any point causes an error message or an exit, never a memory error or a damaged database.",
 ['fault_sequences','inputs'],"a scripted server with every response cut at every byte position, failing or closing at every command",
 "No test talks to a server.",
 ['imap.c','imapinterface.c','mairix.c','db.c','search.c'],"incremental response tokenizer, login/select/fetch/copy/append commands",
 "mairix -r results, match folder contents, commands received by the server")
p('P21','sort=date+ lists results in ascending date order',
 "With sort=date+ every search returns exactly the same messages as without it, and raw and excerpt output, mbox match folders and the numbering of MH match folders list them in ascending order (by day) of their Date headers. Without it the set of results is the same.",
 ['inputs'],"all permutations of messages with distinct and equal dates over several decades, with all result subsets",
 "Not tested at all; comparison overflow and instability show only for particular date pairs.",
 ['search.c','mairix.c'],"qsort of hit list by date before output",
 "order of paths printed by mairix -r, order of messages in the mbox match folder")
p('P22','Mail that changed since it was indexed yields the right message or none',
 "When a search finds messages in an mbox (plain or compressed) that was changed, truncated, replaced or removed after the last indexing run, every message copied to a match folder or shown in an excerpt is exactly the message that was indexed at that position; messages whose bytes are no longer there are left out of match folders (and shown without headers in excerpts) and the user is warned, while all messages that are still in place are delivered. The same search neither fails nor touches the mailbox or the database. A vanished message file is skipped without affecting the other results.",
 ['inputs','histories'],"every one-byte change, insertion, deletion and truncation and every rearrangement of the messages of an indexed mailbox, before searches into every output form",
 "The suite always indexes before it searches; whether stale positions are caught depends on where the change lies relative to each message.",
 ['search.c','db.c','md5.c','rfc822.c'],"get_validated_mbox_msg compares the stored MD5 of every mbox message; append_mboxmsg_to_mbox, try_copy_to_path, excerpt output, create_ro_mapping",
 "contents of the match folder, excerpt output, warning on standard error")
p('P23','Command-line options do what the manual says in any order and spelling',
 "For every sequence of documented options, short or long, in any order and with -f at any place, before or without search expressions: the run indexes if there is no expression and searches otherwise; -p alone makes an indexing run purge and -F alone makes it skip the checks for rewritten files; -t, -a, -r, -x, -H and -o each contribute exactly their documented effect to a search; -v, -Q and --unlock change no result; -h, -V and -d change nothing on disk. An unknown option or a missing option argument is refused with an error before anything is read or written.",
 ['inputs'],"all option sequences up to a length in both spellings, all near-misses of option names",
 "The suite uses a few fixed command lines in short spelling.",
 ['mairix.c','search.c','db.c'],"option loop and mode decision in main()",
 "exit status, output, database answers and match folders after each command line")
p('P24','Running out of memory ends a run in order',
 "If any memory allocation that mairix makes in an indexing run, search or dump fails, alone or together with all later ones, the run ends with an error message and a non-zero exit status; it neither crashes, hangs nor reports success. The lock is removed, the database is unchanged or completely the new one, and no mail is changed.",
 ['fault_sequences'],"every allocation of a run as the failing one, over runs that use every part of the program",
 "Out of memory never happens in the test suite.",
 ['memmac.c','memmac.h','imap.c','glob.c','mbox.c','nvp.c','rfc822.c','search.c','db.c','tok.c','writer.c','dotlock.c'],"out_of_mem(), the Malloc/new_array macros and every place that allocates otherwise",
 "exit status, message, lock, database bytes and mail tree after each run")
p('P25','A search that reports success has delivered its results',
 "If creating, writing or clearing anything in the match folder, or writing to standard output, fails at any point of a search or dump, the run prints a message and exits with a non-zero status. A run that exits with success has left exactly the results that an undisturbed run leaves. Such a failure changes neither mail nor database, and the lock is removed.",
 ['fault_sequences'],"every system call on the match folder or standard output of a search or dump as the failing one, with several kinds of failure, over match folder formats, former contents, options and results",
 "Failing writes never happen in the test suite.",
 ['search.c','mairix.c','dumper.c'],"create_symlink, try_copy_to_path, append_*_to_mbox, clear_* and the final flush of standard output",
 "exit status, messages, match folder contents, output, mail tree and database after each run")
p('P26','Mail may arrive, move or go away while mairix runs',
 "However the steps of a delivery agent or mail reader (new messages, renames that change flags or folders, deletions, MH renumbering, appends to mboxes, replacement, truncation or removal of mboxes and folders) fall between the steps of an indexing run, that run ends normally, everything nothing happened to is indexed afterwards, and after one more undisturbed run all answers equal those of an index built from scratch. A search disturbed in the same way ends normally, delivers every match that was left alone exactly once, and delivers nothing that was not asked for. Only a file that is truncated in place while it is being read may end a run early, and then with an error status, no lock left and a usable database.",
 ['schedules'],"all placements of the steps of mail programs between the system calls (and file mappings) of indexing runs and searches",
 "The suite never changes mail while mairix runs; races depend on the exact system call they fall between.",
 ['mbox.c','db.c','dirscan.c','rfc822.c','search.c','mairix.c'],"build_mbox_lists / add_mbox_messages, update_database / scan_new_messages, create_ro_mapping, get_validated_mbox_msg, signal handlers",
 "exit status, lock, answers after the disturbed run and after the next one, contents of the match folder")
p('P27','Mail that cannot be read for once is not lost',
 "If a system call by which an indexing run lists folders, examines or reads mail, or unpacks compressed mail fails (alone, or together with all further ones on the same path), the run neither crashes nor hangs, leaves no lock, and either fails with the database unchanged or indexes everything outside the file or folder concerned. The next undisturbed run makes all answers equal to an index built from scratch, although no mail has changed in between. A search during which mail cannot be read still delivers every other match exactly once, delivers nothing wrong, and warns about or fails on what it leaves out.",
 ['fault_sequences'],"all system calls on folders, mail files and temporary files of indexing runs (first, incremental, purging, fast, idle, changed mail, large compressed mail) and searches, each failing alone or for good",
 "The suite never makes a system call fail; what a failure costs depends on the call and shows only in the run after.",
 ['rfc822.c','mbox.c','db.c','dirscan.c','search.c','xzfile.c'],"create_ro_mapping, read_bzip, make_rfc822 (fetched), build_mbox_lists / deaden_mbox, scan_directory, get_validated_mbox_msg",
 "exit status, lock, database and answers after the disturbed run and after the next one; contents of the match folder and standard error")
p('P28','The index and new match folders are private to their owner',
 "A database that mairix creates, and every file it is written to on the way, is accessible to its owner only, whatever the umask. A database that is updated keeps exactly the permissions it had, and at no moment of the update, a crash included, does a file in its directory hold index content with wider permissions than that. Directories of maildir and MH match folders that mairix creates are accessible to their owner only, and no run changes permissions of existing match folders or of mail.",
 ['configurations','crash_points'],"all umasks, all permissions of existing databases (plain or behind a symbolic link) and match folders, all crash points of indexing runs",
 "The suite looks at no permissions; index and results reveal the contents of private mail.",
 ['writer.c','search.c'],"create_rw_mapping / write_database (open mode, fchmod before content), create_dir",
 "permission bits of database, temporary database, match folder directories and mail")
p('P29','Mail and configuration are understood alike in every locale',
 "Whatever the locale (LC_ALL, LC_CTYPE, LANG), header names, MIME types, encodings and parameters, month names in dates and directives of the rc file are recognised in any letter case, so mail and configuration mean what they mean in the C locale. In a locale with an 8-bit character set its letters and digits are part of words and their case is ignored as the locale says; in other locales bytes above 127 separate words.",
 ['configurations','inputs'],"all locales the C library can make, all spellings of the keywords, all 8-bit characters (not: the case of I and i in words in Turkish locales)",
 "The suite runs in one locale; a keyword that is compared by the rules of the locale is missed in a Turkish one only.",
 ['rfc822.c','nvp.c','mairix.c','db.c','tok.c','search.c'],"audit_header / make_rfc822, nvp_first / nvp_lookupcase, read_rc_file, tokenise_string, char_map of db.c",
 "messages a search returns, paths indexed, format of the match folder")
p('P30','A foreign, outdated or incomplete database is refused',
 "If the database file is cut off at any point, was written by another program or version of mairix, or is in the other byte order, every run on it - indexing, purging, searching in any way, dumping - ends with a message and an exit status that tells an error (neither success nor 'no match'), without a memory error. It leaves the database file, the match folder and the mail as they were and no lock behind.",
 ['inputs','histories'],"all prefixes of databases, all values of the identifying bytes, and other files in place of a database (not: other damage inside a file of full length; databases without a single word)",
 "The suite uses intact databases only; a cut-off copy that is searched as if it were complete silently misses mail.",
 ['reader.c','db.c','search.c','dumper.c'],"open_db (length, magic number, byte order, tables, is_complete_db)",
 "exit status, messages and all files after a run on the file in question")
open(__import__('os').path.join(__import__('os').path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
