package main

type phase struct {
	target     string
	race       bool
	quickMs    int
	thoroughMs int
	count      int
	extra      string
	fresh      int // runs per worker process (0: all of them)
}

type propConf struct {
	id          string
	phases      []phase
	rule        string
	nontrivial  string
	assumptions []string
}

var crashModel = "a crash is the death of the process: completed writes survive, the write under way is cut at any byte, nothing else is reordered or lost"

const fetchRule = "Each run draws from one seed a simulated site (root, two lists, up to 25 links with odd and duplicate rows), the worker limit, one to four refreshes into one directory, the network's delays and faults per request, disk faults or a crash per file operation, and every scheduling decision of the real program."

const verifyRule = "Each run draws from one seed a driver card (Gen1, Gen2 or both; certificates genuine or tampered, forged, misaddressed in 28 ways under a simulated certification hierarchy), the certificate source (a caller's own or the default one with the network behind it), the source's answers and failures per lookup, delays and deadlines. An independent implementation of both signature schemes decides what the answers prove."

var props = []propConf{
	{id: "C01", phases: []phase{{target: "lib", quickMs: 40000, thoroughMs: 1200000}},
		rule:       verifyRule,
		nontrivial: "a certificate was not genuine or a call failed", assumptions: []string{"SHA-1, RSA-1024 and ECDSA are as strong as they are; expiry dates and the certificate roles are not part of the property"}},
	{id: "C02", phases: []phase{{target: "lib", quickMs: 40000, thoroughMs: 1200000}},
		rule:       verifyRule + " A run is a history of up to eight verifications of one file, interleaved with replaced, damaged, removed and pre-marked certificates.",
		nontrivial: "a call failed or the file had a history", assumptions: []string{"a generation the call did not reach keeps its mark"}},
	{id: "C03", phases: []phase{{target: "lib", quickMs: 40000, thoroughMs: 1200000}},
		rule:       verifyRule + " A faulty period of one to four rounds of concurrent lookups and verifications on one shared source is followed by a fault-free one.",
		nontrivial: "a call failed before the faults stopped", assumptions: nil},
	{id: "C04", phases: []phase{{target: "lib", quickMs: 30000, thoroughMs: 900000}},
		rule:       "Each run draws a chain of up to six members (plain or nested), which members fail per lookup, how and after what delay, one to four concurrent callers with up to three lookups each, and every scheduling decision. Each member records the calls it sees.",
		nontrivial: "more than one lookup on more than one member", assumptions: []string{"a chain may stop asking once the caller's context has ended"}},
	{id: "C05", phases: []phase{{target: "lib", quickMs: 40000, thoroughMs: 1200000}},
		rule:       "Each run draws one to five lookups (listed, unlisted and malformed holder references of both generations) through the network client or the default source, and the network's answer to every request out of 18 fault kinds at any byte position, with delays and fragmentation.",
		nontrivial: "a lookup failed", assumptions: nil},
	{id: "C06", phases: []phase{{target: "lib", quickMs: 40000, thoroughMs: 1200000}},
		rule:       "Each run draws one to three concurrent callers (verification or lookup), a server that never answers, stalls at any byte, answers after hours, drips, or is healthy, a caller's own slow source, and when and how each context ends (cancel, deadline, with a cause, already ended, never). Time is simulated; the return is judged against the instant the context ended.",
		nontrivial: "a context ended a call", assumptions: []string{"promptly means within one simulated second", "a caller-supplied source honours its context"}},
	{id: "C07", phases: []phase{{target: "libreal", quickMs: 15000, thoroughMs: 300000, extra: "real"}, {target: "lib", quickMs: 15000, thoroughMs: 300000}},
		rule:       "Each run draws two to eleven lookups of the root, shipped and unshipped certificates on fresh and reused default sources while the network is down, hangs, answers nonsense or works; once with the certificate store the library ships and once with a simulated store.",
		nontrivial: "a shipped certificate was looked up", assumptions: nil},
	{id: "C15", phases: []phase{{target: "fetch", quickMs: 40000, thoroughMs: 1200000}},
		rule:       fetchRule + " The directory is checked before every mutating file operation and after each refresh.",
		nontrivial: "a disk fault or crash was enabled or an earlier refresh had filled the directory", assumptions: []string{crashModel}},
	{id: "C16", phases: []phase{{target: "fetch", quickMs: 30000, thoroughMs: 900000}, {target: "fetch", race: true, quickMs: 12000, thoroughMs: 300000}},
		rule:       fetchRule + " The index is compared with the site and with what the network delivered.",
		nontrivial: "the site has at least two links", assumptions: []string{crashModel}},
	{id: "C17", phases: []phase{{target: "fetch", quickMs: 40000, thoroughMs: 1200000}},
		rule:       fetchRule + " Two to four refreshes of one site under different schedules, delays and limits are compared byte by byte.",
		nontrivial: "at least two certificates were indexed", assumptions: []string{"\"whatever the timing\" means without failures: no response is slower than six seconds"}},
	{id: "C18", phases: []phase{{target: "fetch", quickMs: 40000, thoroughMs: 1200000}},
		rule:       fetchRule + " Servers stall, drip and never end; the refresh must exit within a simulated bound of 20 minutes per round of links.",
		nontrivial: "a network fault was injected, or the limit was reachable", assumptions: []string{"bounded time is judged generously: 20 simulated minutes for every (links/limit + 6)"}},
	{id: "C19", phases: []phase{{target: "fetch", quickMs: 40000, thoroughMs: 1200000}},
		rule:       fetchRule + " Link names, paths and addresses are hostile; files of others lie in and around the output directory.",
		nontrivial: "the refresh performed more than ten file operations", assumptions: []string{"temporary files of the tool next to their targets are allowed"}},
	{id: "C20", phases: []phase{{target: "fetch", quickMs: 40000, thoroughMs: 1200000}},
		rule:       fetchRule + " Exit status, index and files are compared with what the network delivered and which disk faults were injected.",
		nontrivial: "a fault was injected or the site was defective", assumptions: []string{crashModel}},
	{id: "C23", phases: []phase{{target: "lib", quickMs: 40000, thoroughMs: 1200000}},
		rule:       "Each run draws one driver card (Gen1, Gen2, both; real or tiny capacities) and a life of up to 56 sessions in vehicle units, each a sequence of card commands (activity changes, day records, vehicles, places, events, faults, conditions, controls) of which any may be the last before power is lost, with one to four downloads in between; every file of every download is compared with a model of the card kept by the simulator.",
		nontrivial: "power was lost during a session or the activity storage had wrapped", assumptions: []string{"a card command is atomic (a card either executes it or not)", "files the library has no field for are not judged; the control card number on a card is reported as one string and is not judged"}},
	{id: "C24", phases: []phase{{target: "lib", quickMs: 30000, thoroughMs: 900000}},
		rule:       "Each run draws one vehicle unit (Gen1, Gen2 or Gen2 second version) and up to three periods of use, each of up to five days (card insertions with power lost before withdrawal, activity changes, places, conditions, clock adjustments) and of visits (company locks, controls, calibrations, events, speed blocks; record counts heavy-tailed around 0, 255, 256 and beyond), each followed by a download with any selection and order of transfers.",
		nontrivial: "power was lost or the download had more than three transfers", assumptions: []string{"a card downloaded through the vehicle unit is a card file of its own, not a transfer judged here", "the second-generation transfers are opaque to the library: their bytes are compared"}},
	{id: "C10", phases: []phase{{target: "lib", quickMs: 25000, thoroughMs: 600000}},
		rule:       "Each run reads one to four genuine or damaged downloads through one reused buffer, reads some twice, saves them, and then overwrites or empties, one after another, the buffer, the saved bytes and the other results; after each step every result still held is compared with a deep copy made when it was returned.",
		nontrivial: "a file was read", assumptions: nil},
	{id: "C11", phases: []phase{{target: "lib", quickMs: 35000, thoroughMs: 1200000}},
		rule:       "Each run draws a genuine download (a driver card of any generation with a life behind it, another card kept raw, or a vehicle unit), damages it twelve times with one to five faults each (cut, flipped, zeroed, erased, lost, duplicated, spliced with another file, sectors swapped, lying lengths, counts and pointers, noise), and reads, saves, verifies (under source and network faults) and saves again what can be read, counting statements executed and bytes allocated.",
		nontrivial: "a damaged file was read", assumptions: []string{"work is counted in executed statements of the library and memory in bytes allocated; the bounds (reading: 30,000 statements + 200 per byte, 1 MiB + 250 bytes per byte; saving: 20,000 + 50, 3 MiB + 250; verifying: 100,000 + 1, 6 MiB + 2,500) are two to seven times what any run has needed"}},
	{id: "C12", phases: []phase{{target: "lib", quickMs: 35000, thoroughMs: 1200000}},
		rule:       "Each run draws a genuine download (a driver card of any generation with a life behind it, another card kept raw, or a vehicle unit), and cuts it 24 times (96 in the thorough tier), half of the cuts within eight bytes of the end of a record. The complete records before the cut are compared with the simulated device, and the cut file with them.",
		nontrivial: "a cut file was read", assumptions: []string{"a record is complete with its last byte; the data record of a file is complete without its signature record"}},
	{id: "C13", phases: []phase{{target: "lib", quickMs: 35000, thoroughMs: 1200000}},
		rule:       "Each run draws a driver card with a life behind it and damages one record 16 times (64 in the thorough tier) in up to four places; every other file, and the signature or content of the same file, is compared with the undamaged reading.",
		nontrivial: "a damaged card was read", assumptions: []string{"damage keeps the length of the record; Application_Identification, which selects how later files are read, is damaged only in its signature"}},
	{id: "C14", phases: []phase{{target: "lib", quickMs: 35000, thoroughMs: 1200000}},
		rule:       "Each run draws a driver card with a life behind it or another card kept raw, in half of the runs damaged in up to four records, and saves and reloads it two to four times.",
		nontrivial: "a file was saved", assumptions: []string{"a damaged file may be refused by saving"}},
	{id: "C25", phases: []phase{{target: "lib", quickMs: 20000, thoroughMs: 600000}},
		rule:       "Each run draws up to four downloads: of a workshop, control or company card of either generation and version with the files the regulation gives it, of a driver card with a life behind it, of a vehicle unit, or a download whose start was lost; a third of the card downloads were interrupted. The kind, every record and the saved bytes are compared with what was downloaded.",
		nontrivial: "a card that is no driver card was read", assumptions: []string{"an interrupted download of another card that holds only files driver cards also have is not judged: the kind is told by the files"}},
	{id: "C26", phases: []phase{{target: "lib", quickMs: 20000, thoroughMs: 600000}},
		rule:       "Each run draws a card with a life behind it and its twin: the same card with another holder, number, authority, dates, vehicles, places, positions, times and exact odometers, redrawn in the bytes of the download; a third of the runs damage both alike. Both are read and everything that can be anonymised is; the two results must be equal field by field, without signatures, keep what identifies nobody (countries, types, languages, counters, pointers, rounded odometers), leave the original as it was, save, and read back as saved. Activity changes are moved in time and compared likewise, and records made by no download (of workshop, control and company cards too) are checked for what they say of the holder.",
		nontrivial: "both cards were anonymised", assumptions: []string{"files for which the library has no anonymisation (events, faults, controls, current usage, conditions) are not judged", "a card whose damaged number no longer reads as a driver's is not judged"}},
	{id: "C27", phases: []phase{{target: "lib", quickMs: 25000, thoroughMs: 900000}},
		rule:       "Each run draws a download of a card (three quarters undamaged) and edits it in up to four rounds of up to twelve edits each: times given, changed and removed, odometers, nations, types and codes without a meaning, flags, counters, pointers, positions, serial and identification numbers, chip data, texts in any code page, dates, signatures, days and activity changes, records exchanged, overwritten, added and removed, messages without the bytes they were read from. After each round the file is saved and read again, and must equal the edited file in everything but remembered bytes; saving must not change the message, and the records of files without edits must stay the same bytes. Half of the rounds go on from the message, half from what was reloaded; a third of them end with an attempt to save a text, time or digits that do not fit, which must be refused.",
		nontrivial: "at least one value was edited", assumptions: []string{"edits change values and the number of records of plain lists, not structure: the lengths of daily records, the number of days and of event and fault groups, the sizes in the application identification and certificates are not edited", "numbers out of their field's range, and the card number, which is cut on purpose, are not among the values that must be refused; a text is replaced as a whole: beside a changed text the bytes it was read from are authoritative", "daily activities are only edited on undamaged cards, whose records do not overlap"}},
	{id: "C28", phases: []phase{{target: "lib", quickMs: 20000, thoroughMs: 600000}},
		rule:       "Each run draws the download of one vehicle unit (Gen1, Gen2 or Gen2 second version) with up to six days behind it and damages one to three of its transfers 12 times (48 in the thorough tier) in their values or signatures; every other transfer is compared with the undamaged reading, the damaged ones with the bytes in the file, and one of all with what is read of it alone.",
		nontrivial: "a damaged download was read", assumptions: []string{"tags are not damaged, nor the interface version, which selects how the rest is read", "where damage changes the length of a transfer, only what comes before it is judged", "downloads of more than 256 KiB are left out for speed"}},
	{id: "C08", phases: []phase{{target: "lib", quickMs: 25000, thoroughMs: 900000}, {target: "lib", race: true, quickMs: 12000, thoroughMs: 300000}},
		rule:       "Each run draws one to three tasks of up to ten steps each: look up the root, an RSA or an ECC certificate, overwrite, empty or exchange what was obtained or a verified file, verify genuine and forged cards with the default source or with a source that hands out its own long-lived certificates; tasks are preempted between any two statements. Every lookup is compared with the published certificate, every verdict with the reference proof, and the owner's certificates with copies.",
		nontrivial: "something obtained was overwritten, or a caller's source was used", assumptions: []string{"the second phase runs the same under the Go race detector"}},
	{id: "C09", phases: []phase{{target: "lib", quickMs: 15000, thoroughMs: 600000}, {target: "lib", race: true, quickMs: 15000, thoroughMs: 600000}, {target: "lib", race: true, quickMs: 8000, thoroughMs: 300000, fresh: 2}},
		rule:       "Each run draws two to four callers with up to three pieces of work each (read, save, verify once or twice and save again a genuine or damaged download or a genuine or forged card; look certificates up), sharing one certificate source, using the default one or their own, some with equal work, over a network with delays on which some addresses are out of order; callers are preempted between any two statements of the library. Errors, files and saved bytes are compared with the same work done alone, before or after.",
		nontrivial: "three or more pieces of work ran", assumptions: []string{"the second phase runs the same under the Go race detector, the third in processes that have done nothing before"}},
	{id: "C22", phases: []phase{{target: "lib", quickMs: 35000, thoroughMs: 1200000}},
		rule:       "Each run draws two to seven pieces of work (read, save, verify and save again a genuine or damaged download or a genuine or forged card; look certificates up) and does them in two or three processes of their own that differ in clock (1980 to 2080), time zone, environment, history of other calls, order, concurrency and schedule; errors, digests of the files, saved bytes and certificates are compared between the processes.",
		nontrivial: "two processes did the same work", assumptions: []string{"every certificate address answers the same way in all processes of a run"}},
	{id: "C21", phases: []phase{{target: "cli", quickMs: 35000, thoroughMs: 1200000}},
		rule:       "Each run draws one to four files (downloads of simulated cards and vehicle units, damaged or cut ones, empty ones, text, directories, missing ones) under odd names and a command line of up to six of them, and runs the whole command first without and then once or twice with faults: files that cannot be opened, reads that fail or return a few bytes at a time, standard output that is full after any number of bytes (for ever or once), standard error that is broken. Every document shown is compared with the simulated device and with the library's reading of the complete file, the whole output with that of the faultless run, and the exit status and message with the faults that happened.",
		nontrivial: "more than one file, a file that cannot be shown, or a run with faults", assumptions: []string{"a file that ends early without an error cannot be told from a shorter file", "a message names a failing write by the file being written or by speaking of writing or output"}},
}
