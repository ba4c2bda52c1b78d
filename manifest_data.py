EX='exhaustive exploration of the real program over '
CHECKS={
'C01':(EX+'all link/flag/seen-by configurations and ordered message pairs, against a reference model','exploration','All configurations and message pairs of the stated alphabet; trusts the reference model, the packet/JAM reader and the preload shim.'),
'C02':(EX+'all SEEN-BY/PATH shapes (every length over every block/wrap boundary) x address kinds x ADDNODE/REMNODE, against a reference model','exploration','All lists of the stated families; trusts the reference model and packet reader.'),
'C03':(EX+'all message-text shapes (line kinds, lengths over every buffer boundary, missing CRs, control-line lookalikes) through toss and forward, byte-compared with the reference','exploration','All texts of the stated grammar up to the bounds; trusts the reference model and packet reader.'),
'C04':(EX+'all sender/link/flag/password/packet-type/autoadd configurations, against a reference access-control model','exploration','All configurations of the stated alphabet; trusts the reference model.'),
'C05':(EX+'all message histories over the dupe-key alphabet, all dupe-buffer fill levels and run boundaries, against a reference model','exploration','All histories of the stated alphabet; trusts the reference model of the documented dupe key.'),
'C06':(EX+'all route/change pattern tables x destinations x mail types, against a reference routing model','exploration','All pattern tables of the stated alphabet; trusts the reference routing model.'),
'C07':(EX+'all netmail addressing/option/attribute combinations, and all bounce and loop situations, against a reference delivery model','exploration','All combinations of the stated alphabet; trusts the reference model.'),
'C08':(EX+'all truncation lengths, byte corruptions, insertions/deletions and boundary lengths of inbound packets on a sanitizer build, against a reference packet reader','fault_enumeration','All damage of the stated classes to the stated packets; trusts the reference packet reader and the sanitizers.'),
'C09':('fault enumeration on the real program: SIGKILL before every mutating system call (and inside every write) of complete toss, scan, areafix, bundle and retry runs, then recovery runs and comparison with an undisturbed run','fault_enumeration','All crash points of the stated histories; completed system calls are assumed to persist.'),
'C10':('fault enumeration on the real program: every file operation of complete toss, scan, areafix, bundle and retry runs fails (once, from then on, or partially), and SIGINT at every point, then recovery runs and comparison with an undisturbed run','fault_enumeration','All single faults of the stated histories.'),
'C11':('stateless model checking of the real programs under a controlled scheduler: all schedules with two preemptions at file-system calls of two runs and of a run with a mailer session, all busy-node subsets, all lock command sequences','exploration','All schedules within the preemption bound of the stated pairs; preemption only between system calls (the processes share nothing but files).'),
'C12':(EX+'all destination/kind/flavour/password/flow-file combinations, all histories of runs, mailer sessions, busy nodes, packer failures and day changes up to a depth, and all bundle-name states, against a reference queue model','exploration','All histories and states within the stated bounds; the packer is a stand-in; trusts the packet and flow-file readers.'),
'C13':(EX+'all histories of writing, receiving, deleting and scanning in *.MSG and JAM areas with all high-water settings, against a reference model','exploration','All histories up to the depth bound of the stated alphabet; trusts the message-base and packet readers.'),
'C14':(EX+'all small base contents, counts and request forms, and all orders of echomail and rescan requests in one run, against a reference model','exploration','All base contents up to the length bound; trusts the message-base and packet readers.'),
'C15':(EX+'every sequence of AreaFix command lines up to a depth from every kind of requester (one message, several messages, several runs), all requester/password combinations, all reply limits, against a reference model','exploration','All sequences up to the depth bound of the stated line alphabet; trusts the configuration and packet readers.'),
'C16':(EX+'all combinations of area and node settings, quoted strings, list lengths, foreign lines at every position and removals of every subset, compared with an independent configuration reader and line by line','exploration','All cases within the stated bounds; trusts the independent configuration reader.'),
 'C17':('bounded exhaustive exploration of the real program: every filter expression up to 4 (5) leaves x every truth assignment, every pattern x every string over small alphabets, every variable x operator x message, every command sequence up to length 2 (3), against an evaluator written from doc/filter.txt','exploration','expressions beyond 5 leaves and command sequences beyond 3 are not enumerated'),
 'C18':(EX+'all nodelists of up to 3 (4) lines over the keyword alphabet with every address looked up through crashgetnode and through crashmail filters, all orders of candidate files, all pairs of lists and default zones, all line lengths over the buffer borders, all small V7+ index trees, against a reference reader','exploration','All lists within the stated bounds; Down entries and points below them are not judged.'),
 'C19':(EX+'all sequences of text and control lines, all field lengths over the buffer borders, all attributes and FLAGS words stored in JAM and *.MSG areas, read by an independent reader and rescanned; all subfield shapes of foreign messages exported; all area sequences x open-base limits x run splits; all time zones x dates x seasons, against a reference model','exploration','All cases within the stated bounds; control lines over 255 characters (a JAM limit) and FLAGS lines over 170 are not judged.'),
 'C20':(EX+'all reply graphs of up to 3 messages with or without MSGID and REPLY lines and all of 4 (5) with them, in all arrival orders and splits into runs, in both linking modes, and all small existing bases, judged from the stored MSGID and REPLY fields and compared with an unlinked run','exploration','All graphs within the stated bounds; CRC collisions in quick mode (documented) do not occur in the id alphabet.'),
 'C21':(EX+'crashmaint run twice over all small *.MSG areas (numbers, ages, limits, high-water marks, reply links) and JAM bases (holes, deleted messages, date fields, base numbers, reply links), all operations, and all orders of area definitions, against a reference model, followed by writing a message and scanning','exploration','all areas of up to 4 (5) messages within the stated alphabets'),
 'C22':(EX+'all histories of up to 3 runs over an alphabet of events (echomail, dupes, bad, received, routed and local netmail, scans, empty runs) with day gaps, in all dupe modes and with reordered configurations, the statistics file compared with a reference model after every run; crashstats on all orders of small statistics files with all its options','exploration','all histories of up to 3 runs (4 with gaps of 0..9 days); rescans are not judged'),
 'C23':('fault enumeration on the real tools: crashwrite with all option combinations, text lines over the buffer borders and a kill or failure at every file operation, pairs of runs in all interleavings with two switches; crashexport over all small configurations and crashlistout over all small outbound directories and patterns, against a reference model','fault_enumeration','All options, texts, crash points, configurations and outbound contents of the stated alphabets; trusts the packet reader and the reference model; CRLF texts and column widths are not judged.'),
 'C24':(EX+'all sets of up to 3 (4) inbound files over the kinds of packets, bundles, unpacker outcomes and other names in all date orders, all file names of the stated families, all recognition strings x heads, all inbound path lengths x unpack commands, all leftovers of interrupted runs, against a reference model and against the same packets tossed loose','exploration','All cases of the stated alphabets; trusts the reference model, the packet/JAM readers and the test archiver; bundle names with shell-special last characters may be kept as .bad.'),
'C25':('schedule exploration of the real programs under a ptrace scheduler: another program acts on a JAM base at every file operation of complete toss, scan, link, rescan and crashmaint runs, at once or interrupted after each of its own operations, and bases stay locked throughout; lock monitor and comparison with an undisturbed run','exploration','All interleavings with one (thorough: two) actions and at most two context switches per action, at the granularity of file system calls; the other program follows the JAM locking rule.'),
'C26':('exhaustive enumeration over the real program (sanitizer and plain builds): every configuration statement x argument class, every argument length, all sequences of dependent statements, every one-byte damage of a configuration that uses all statements, values of every length and quoting form, and all short command lines; acceptance model, effect and no-effect comparison of all files','exploration','All statements and argument classes; lengths to 120 (thorough 260) plus buffer boundaries; sequences to 3 (thorough 4) statements; one-byte damages.'),
'C27':('explicit exploration of networks of real systems: all connected graphs of 2..4 (thorough 5) installations x address plans x link styles x origins, all orders of toss and mailer steps by stateless search; all routing tables for netmail; all pairs of loop-free tables for mail and its answers; all request scripts along chains; message bases and queues of every system compared with the ideal delivery','exploration','Up to 4 (5) systems, one or two messages in flight, all step orders; the mailer is modelled and moves complete files.'),
}
NA={}
NOTES='Every check builds the programs from /repo/src into /verif/.build and works in scratch directories.'
