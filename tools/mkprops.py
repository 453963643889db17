import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

OBS=["standard output, exit status and the sequence of system calls of the dinero executable"]
p("C01","Same books, same command, same day: the same report, byte for byte",
"Running the same report command on the same files, with the same arguments, environment and date, always gives byte-for-byte the same standard output and the same exit status. Neither the process's random hash seed, nor the order in which the file system lists a directory, nor the way reads are split up or interrupted by signals may show in the result.",
["schedules","inputs","configurations"],"every journal, every command and option, every per-process hash seed, directory order, read chunking and signal interruption",
"The tests run each command once per process with one random hash seed and compare line counts or fragments of the output; no test repeats a run under another seed, listing order or read pattern.",
["src/models/balance.rs","src/models/mod.rs","src/models/price.rs","src/commands/balance.rs","src/commands/register.rs","src/list.rs","src/parser/include.rs"],
[("per-commodity balances kept in an ordered map","src/models/balance.rs Balance"),("names collected in ordered sets before they are registered","src/models/mod.rs to_ledger"),("listings and balances sorted before printing","src/commands/{accounts,payees,commodities,balance}.rs"),("price graph built in a fixed order","src/models/price.rs conversion")],observe_at=OBS,hook_needed=None)
p("C02","An input fault never turns into a wrong or partial report",
"If opening, reading or listing any input of a command (journal, included file, directory named by a wildcard, init file) fails at any point, if a file named by an include does not exist or if its bytes are not valid text, the command ends with a non-zero status and prints no report; if memory runs out it ends with a non-zero status after printing at most a first part of the report. A zero status means that the output is exactly the output of a run without the fault.",
["fault_sequences","inputs"],"every journal layout, every command, every input operation of the run and every error that operation can return",
"The tests cover one missing top-level file and nothing else; no test makes an open, read, stat or directory listing fail half-way.",
["src/parser/mod.rs","src/parser/include.rs","src/app.rs"],
[("unreadable journal ends the run","src/parser/mod.rs From<&PathBuf> for Tokenizer"),("wildcard and include errors end the run","src/parser/include.rs parse"),("init file read errors end the run","src/app.rs run_app")],observe_at=OBS,hook_needed=None)
p("C03","Exit status zero means the whole report was delivered",
"When standard output fails at any byte (disk full, I/O error, broken pipe), the command ends with a non-zero status and what it delivered is a prefix of the report. When writes are merely split up or interrupted, the whole report is delivered and the status is the one of a run without interference.",
["fault_sequences","inputs"],"every report, every write of the run, every write error and every pattern of short or interrupted writes",
"The tests capture output through a pipe that never fails.",
["src/commands/balance.rs","src/commands/register.rs","src/commands/accounts.rs","src/commands/payees.rs","src/commands/commodities.rs","src/commands/prices.rs","src/commands/check.rs","src/main.rs"],
[("every print aborts the run on a write error","println!/print! in src/commands/*.rs"),("non-zero exit on error","src/main.rs")],observe_at=OBS,hook_needed=None)
p("C04","Reports never change the world: a run only reads",
"No command, whatever the journal, init file, options, environment and faults, creates, changes, renames, truncates or deletes a file or directory, starts another program or opens a network connection. Its only effects are its bytes on standard output and standard error.",
["inputs","fault_sequences","configurations"],"every command, journal, option, environment and fault",
"The tests look at the output only; none watches the file system or the system calls of a run.",
["src/app.rs","src/parser/mod.rs","src/parser/include.rs","src/commands/check.rs"],
[("journals and init files are only ever opened for reading","src/parser/mod.rs, src/app.rs read_to_string"),("wildcards are only listed","src/parser/include.rs")],observe_at=OBS,hook_needed=None)
p("C05","Splitting a journal over included files changes nothing",
"A journal spread over any tree of included files gives the same report and the same exit status as the single file obtained by putting each included file's text in place of its include line. An include path is relative to the including file, a wildcard include stands for the matching files in path-name order, and every directive, price and transaction of every included file counts exactly once per include.",
["inputs","schedules","configurations"],"every journal, every split into files and nested directories, wildcards, every directory listing order and working directory",
"Two example journals with includes exist; nothing compares an include tree with its inlined text or varies the listing order of a wildcard's directory.",
["src/parser/include.rs","src/parser/mod.rs","src/list.rs"],
[("recursive tokenizer relative to the including file","src/parser/include.rs parse"),("merge of the parsed parts","src/parser/mod.rs ParsedLedger::append, src/list.rs List::append"),("sorted wildcard expansion","glob in src/parser/include.rs")],observe_at=OBS,hook_needed=None)
p("C06","Every run ends; include cycles are refused",
"Every run with enough memory and stack ends after an amount of work bounded by the size of its input, with an exit status of its own rather than killed by a signal. A file that includes itself, directly or through other files and however the path is spelled (dot segments, symbolic links, wildcards), is refused with a non-zero status, while including the same file twice without a cycle is accepted.",
["inputs","fault_sequences","configurations"],"every include graph, path spelling, journal (well formed, damaged or truncated) and fault",
"One test has a two-file cycle with plain names; no other spelling, no damaged input and no bound on the work is tested.",
["src/parser/include.rs","src/parser/mod.rs","src/parser/chars.rs","src/parser/tokenizers"],
[("set of files being read","src/parser/mod.rs seen_files, src/parser/include.rs"),("every tokenizer consumes input","src/parser/tokenizers/*.rs, src/parser/chars.rs")],observe_at=OBS,hook_needed=None)
p("C07","One run uses one version of every file, under concurrent edits",
"While an editor replaces journal files atomically during a run, the report is the one of some combination in which each inclusion of a file uses exactly one of the contents that file had during the run, or the run fails with a non-zero status because a file was gone. A report never mixes parts of two versions of a file.",
["schedules","histories"],"every point of the run at which another process replaces, removes or adds journal files",
"The tests never change a file during a run.",
["src/parser/mod.rs","src/parser/include.rs","src/commands/balance.rs","src/commands/register.rs"],
[("each file is opened once and read completely before it is used","src/parser/mod.rs From<&PathBuf> for Tokenizer")],observe_at=OBS,hook_needed=None)
p("C08","A cut-off file is read as far as it is whole, or refused",
"A journal or included file without its final newline gives the same report as with it. If a file is cut off at an arbitrary byte (torn write, full disk, early end of file), the run either is refused with a non-zero status or reports exactly what the surviving text says, never anything else.",
["crash_points","inputs"],"every journal, every file of it and every byte at which it can be cut",
"All example journals end in a newline and none is cut.",
["src/parser/mod.rs","src/parser/tokenizers/transaction.rs","src/parser/chars.rs","src/parser/tokenizers"],
[("end of file ends the last entry","src/parser/tokenizers/*.rs, src/parser/chars.rs")],observe_at=OBS,hook_needed=None)
p("C09","Only balanced transactions are accepted, and blanks are filled exactly",
"A journal is accepted only if in every transaction the real postings, valued at their cost, sum to zero in every commodity or are left with several commodities of both signs (an implied exchange), and the bracketed virtual postings do so on their own; parenthesised ones are exempt. At most one real posting may omit its amount and it receives exactly what is missing, one amount per missing commodity; a journal meeting this and its assertions is accepted. A header or posting with a slip of the fingers in it counts for exactly what it then says or, if that is malformed, is refused; it is never taken for something else.",
["inputs","schedules"],"every transaction, commodity mix, cost notation, posting order, file layout and hash seed",
"The tests check a handful of hand-written transactions for acceptance and line counts, under one random hash seed each.",
["src/models/transaction.rs","src/models/balance.rs","src/models/mod.rs"],
[("transaction balancing","src/models/transaction.rs Transaction::balance, total_balance"),("can-be-zero rule","src/models/balance.rs can_be_zero")],observe_at=OBS,hook_needed=None)
p("C10","Balance assertions see the account history in date order",
"A posting with a balance assertion is accepted exactly when the account's real postings up to and including it, in order of date and then of appearance, add up to the asserted amount in the asserted commodity. A posting with only an assertion receives the difference between it and all the account holds (and is refused if that takes several commodities), --no-balance-check disables assertions on accounts with amounts, and where in the file tree the transactions are written does not matter.",
["histories","inputs","schedules"],"every history of postings over accounts, dates and commodities, every placement in files",
"The tests hold a few short journals already in date order.",
["src/models/mod.rs","src/models/transaction.rs"],
[("stable sort by date before balancing","src/models/mod.rs to_ledger"),("running balance per account","src/models/transaction.rs Transaction::balance")],observe_at=OBS,hook_needed=None)
p("C11","Register, balances and totals all add up to the same money",
"For every accepted journal and filter, the amounts listed for an account in the register add up to its line in the flat balance, each line of the tree balance is the sum of the accounts below it, accounts with a zero balance are left out, and the total is the sum of all accounts. Sums are exact and every printed amount is the exact value rounded to two decimals, halves away from zero.",
["inputs","schedules","configurations"],"every journal, filter, depth, flat or tree layout and hash seed",
"The tests count output lines; none adds up amounts or compares two reports.",
["src/commands/balance.rs","src/commands/register.rs","src/models/money.rs","src/models/balance.rs"],
[("account balances and parents","src/commands/balance.rs execute"),("running total","src/commands/register.rs execute"),("rational arithmetic and display","src/models/money.rs")],observe_at=OBS,hook_needed=None)
p("C12","Date windows and filters select exactly the right postings",
"A report with --begin B and --end E shows exactly the postings of transactions dated from B included to E excluded, so consecutive windows split a history without loss or overlap; --real leaves out exactly the virtual postings and account, payee and tag terms and value expressions keep exactly the matching postings, a posting having the tags written on it (also when its amount is left out) and those of its transaction. Dates given as a year, a year and month, a full date, today, yesterday or tomorrow mean the day they denote on the clock of the machine at the time of the run.",
["inputs","configurations","schedules"],"every history, window, filter and clock value, including clocks at the edge of a day, month or year and clocks that jump",
"The tests use fixed dates on one example journal and cannot set the clock.",
["src/filter.rs","src/app.rs"],
[("half-open window and posting filter","src/filter.rs filter"),("date expressions","src/app.rs date_parser")],observe_at=OBS,hook_needed=None)
p("C13","Conversions use the newest price known on the day of the run",
"With -X C every amount that can be reached through known prices is shown in C, using for each pair of commodities the newest price dated on or before the day of the run, which is the one the clock of the machine shows in its time zone; amounts with no chain of prices to C stay as they are, and prices dated in the future have no effect. Where several chains of prices lead to C the one whose prices are most recent counts, and costs and exchanges written in transactions count as prices of their day.",
["inputs","configurations","schedules"],"every set of price directives and costs, every clock value, hash seed and order of the directives",
"One test converts a fixed example and counts entries; the clock is the real one.",
["src/models/price.rs","src/commands/balance.rs","src/models/mod.rs"],
[("price graph and shortest path in time","src/models/price.rs conversion, Graph"),("conversion of balances","src/commands/balance.rs convert_balance")],observe_at=OBS,hook_needed=None)
p("C14","Init file: the first one found counts, the command line wins",
"The options used are those of the command line plus, for options absent there, those of the first init file that exists among the one named by --init-file, ~/.ledgerrc and ./.ledgerrc; an option on the command line, in its short or long form, always overrides the file. What follows -- on the command line are patterns, never options. Comment and blank lines change nothing, and an init file that is malformed or exists but cannot be read makes the run fail with a non-zero status instead of being ignored.",
["configurations","fault_sequences","inputs"],"every combination of init files, options, home and working directories, and faults on the init files",
"Three fixed init files are tested, all through --init-file; home and working directory files, precedence and faults are not.",
["src/app.rs"],
[("lookup and merge of init-file options","src/app.rs run_app")],observe_at=OBS,hook_needed=None)
p("C15","Listings are complete, sorted and use canonical names",
"The accounts, payees and commodities listings show every name declared or used in the journal exactly once, sorted, with aliases and differences of case resolved to the declared name; the reports attribute amounts to those same names. A posting to an account whose name ends in unknown goes to the declared account with a matching payee pattern, if there is one. The register shows the name of the payee whole, or, when it is too long for its column, its beginning followed by two dots.",
["inputs","schedules"],"every journal, alias, spelling, payee pattern, hash seed and file layout",
"The tests check the listings of two example files against fixed text or counts.",
["src/list.rs","src/models/mod.rs","src/commands/accounts.rs","src/commands/payees.rs","src/commands/commodities.rs"],
[("case-insensitive registry with aliases","src/list.rs"),("registration of used names, payee patterns","src/models/mod.rs to_ledger, _transaction_to_ledger")],observe_at=OBS,hook_needed=None)
p("C16","Terminal and locale change the looks, never the figures",
"Whether standard output is a terminal, how wide it is, which colour variables, locale and terminal type are set and whether colour is forced only changes colour codes, spacing and the width of columns. The sequence of dates, payees, account names and amounts and the exit status stay the same.",
["configurations","inputs"],"every terminal geometry (including none, zero and huge widths), colour and locale environment, every report",
"The tests always run without a terminal and with the colour variables of the test machine.",
["src/commands/register.rs","src/commands/balance.rs","src/app.rs"],
[("column widths from the terminal size","src/commands/register.rs execute"),("colouring","colored in src/commands/*.rs")],observe_at=OBS,hook_needed=None)
p("C17","Automated transactions apply exactly once per matching posting",
"For every automated transaction and every posting written in the journal (with its blank filled in) that matches its query, each automated posting is added exactly once, with the fixed amount, or the multiple of the matched posting's amount, it states; postings that do not match and postings added by automation add nothing. The result does not depend on whether the rule is written before or after the transactions or in another file.",
["inputs","schedules","histories"],"every set of rules and transactions, their order, file placement and hash seed",
"The tests check four fixed automated journals by line counts.",
["src/models/mod.rs","src/filter.rs","src/parser/value_expr.rs"],
[("automated pass over all transactions","src/models/mod.rs to_ledger"),("query evaluation","src/filter.rs filter_expression, src/parser/value_expr.rs eval")],observe_at=OBS,hook_needed=None)
p("C18","All commands agree on whether the books are valid",
"For a given journal either every command accepts it or every command refuses it with a non-zero status: the check command says OK and exits zero exactly when the reports succeed, and says so about the file it was given. A refused run prints no report line on standard output and explains itself on standard error.",
["inputs","configurations","fault_sequences"],"every journal (valid or invalid), every command and option that does not change what is read",
"The tests run check on a few valid files and never compare commands with each other.",
["src/app.rs","src/main.rs","src/commands/check.rs","src/commands/balance.rs","src/commands/register.rs"],
[("every command parses and balances the whole journal first","src/commands/*.rs"),("error to exit status","src/app.rs run_app, src/main.rs")],observe_at=OBS,hook_needed=None)
p("C19","Value expressions in queries and rules evaluate by the usual arithmetic",
"A value expression over amounts, numbers, dates, tags and regular expressions evaluates with the usual precedence and exact rational arithmetic.",
["inputs"],"every expression and posting","The tests evaluate a few dozen expressions.",
["src/parser/value_expr.rs","src/grammar/grammar.pest"],[("expression tree and evaluation","src/parser/value_expr.rs")])
p("C20","The journal grammar reads dates, amounts and comments as documented",
"Every date, amount, commodity, description, payee and tag written in the documented syntax is read with the meaning the documentation gives it.",
["inputs"],"every text in the documented syntax","The tests sample a few spellings.",
["src/grammar/grammar.pest","src/parser/tokenizers","src/models/comment.rs"],[("grammar and tokenizers","src/grammar/grammar.pest, src/parser/tokenizers")])
p("C21","One run sees one day, even when midnight passes while it works",
"A run takes one reading of the date: if midnight passes or the clock is set while it works, every relative date in its options, queries and rules and the day its price conversions look at come from one and the same moment. The report is the one of a run that has all of its time on one side of the change.",
["schedules","inputs","configurations"],"every point of the run at which the clock changes day, every jump of the clock, time zone, combination of relative dates and conversions, and journal",
"No test controls the clock; the dates in the tests are absolute.",
["src/app.rs","src/commands/balance.rs","src/parser/value_expr.rs"],
[("instant of the run","src/app.rs now"),("relative dates","src/app.rs date_parser, src/parser/value_expr.rs to_date"),("day of the conversion","src/commands/balance.rs execute")],observe_at=OBS,hook_needed=None)
p("C22","The price list is complete: every price written or implied, once",
"The prices listing shows every price directive, every cost written in a transaction as a price per unit of that day and every exchange of two commodities a transaction implies, each exactly once and nothing else, in canonical commodity names and with the exact value rounded to two decimals, halves away from zero. This holds wherever in the file tree they are written and whether or not automated transactions are present.",
["inputs","schedules","histories"],"every journal, file layout, hash seed, directory order and read pattern",
"The tests count the lines of one example.",
["src/commands/prices.rs","src/models/mod.rs","src/models/price.rs","src/parser/tokenizers/price.rs"],
[("prices collected from directives, costs and exchanges","src/models/mod.rs to_ledger, _transaction_to_ledger"),("listing","src/commands/prices.rs execute")],observe_at=OBS,hook_needed=None)
p("C23","A refusal points at the culprit",
"When a journal is refused because of an unknown line, a malformed header, price, directive or posting, an unknown detail line of a directive or an include that closes a cycle, the message on standard error names the file of the include tree and the number of the line that is wrong. When a file cannot be read, the message names that file. When it is refused because a transaction does not balance or its assertion fails, the message shows the date and description of that transaction, the first in date order if several are wrong, and of no other.",
["inputs","histories","schedules"],"every tree of files, place of the defect in it, kind of defect, command and read pattern",
"The tests only look at whether an error is returned.",
["src/parser/mod.rs","src/parser/chars.rs","src/parser/tokenizers","src/models/mod.rs"],
[("position kept while reading, error message","src/parser/mod.rs Tokenizer::error, next"),("offending transaction shown","src/models/mod.rs to_ledger")],observe_at=OBS,hook_needed=None)
p("C24","A journal that is being appended to is read up to one point of its growth",
"While other programs append to journal files, in writes that may end in the middle of a line or character, the report is the one of files that stopped growing at one moment: each file counts up to one point between its length at the start of the run and its length at the end. Text appended during the run is never read without the text before it, nor read twice.",
["schedules","inputs"],"every interleaving of appends with the reads of a run, every way appends and reads are split, every tree of files",
"The tests read files that nobody writes.",
["src/parser/mod.rs","src/parser/include.rs"],
[("each inclusion reads its file once, whole","src/parser/mod.rs From<&PathBuf> for Tokenizer")],observe_at=OBS,hook_needed=None)
p("C25","Line ends, trailing blanks and empty lines never change the meaning",
"A journal whose files (and init file) were saved with Windows line ends on all or some of their lines, without the final newline, with blanks or tabs at the end of lines, with tabs or another number of blanks as indentation, or with empty, blank or comment lines between the entries gives byte for byte the same report and the same verdict as the plain files. Tags, values and notes in comments do not include the blanks at the end of their line.",
["inputs","schedules"],"every tree of files, every mix of layouts in it, every command and read pattern",
"The tests use files with one layout.",
["src/parser/chars.rs","src/parser/mod.rs","src/parser/include.rs","src/parser/tokenizers"],
[("lines and blanks consumed","src/parser/chars.rs"),("include line","src/parser/include.rs"),("header and posting lines","src/parser/tokenizers/transaction.rs")],observe_at=OBS,hook_needed=None)
p("C26","Only what the user hands over counts: place and machine make no difference",
"A report and its verdict depend on the arguments, the text of the files the journal consists of and of the init file, and nothing else of the surroundings. Moving the whole tree to another directory, working in another directory, naming the journal relatively or absolutely, giving options in another order or spelling (--depth 2, --depth=2, -d 2) or the subcommand by its alias, other environment variables (apart from HOME, the time zone and those for colour; also when they are not UTF-8), another user, host, process number or number of processors, other times, inode numbers, owners and permissions (as long as they can be read) of the files, another heap layout, another name of the program, other files lying around that nothing includes, and - when neither a conversion nor a relative date is asked for - another day and time zone change no byte of it.",
["inputs","histories"],"every journal and file tree, every command, every surroundings a user's machine can offer",
"The tests run in one directory of one checkout on one machine.",
["src/app.rs","src/main.rs","src/parser/mod.rs","src/parser/include.rs","src/commands","src/models"],
[("arguments and init file are all that is consulted","src/app.rs run_app"),("include paths are relative to the including file","src/parser/include.rs")],observe_at=OBS,hook_needed=None)
p("C27","What is not understood is refused before anything is reported",
"A command line or init file with a mistake in it - an unknown command or option, an option without its value, with a value of the wrong kind or given twice, no journal, a bound (--begin, --end) that is not a date, a search term or value expression that is malformed, does not yield a truth value or cannot be evaluated on one of the postings it is asked about - ends with a non-zero status and an explanation on stderr, and no line of a report before it, whatever the other options, the journal and the day are. In particular, a day that does not exist is never taken for another one, and no part of what the user wrote is silently left out. (Closing parentheses too many at the end of an expression are let pass.)",
["inputs","histories"],"every mistake at every place of every command line and init file, with every journal",
"The tests try a handful of mistakes.",
["src/app.rs","src/filter.rs","src/parser/value_expr.rs","src/commands"],
[("options and init file are parsed","src/app.rs run_app"),("bounds are parsed","src/app.rs date_parser"),("terms and expressions select postings","src/filter.rs filter, src/parser/value_expr.rs"),("postings are selected before any is printed","src/commands/register.rs execute")],observe_at=OBS,hook_needed=None)
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,x["title"]
