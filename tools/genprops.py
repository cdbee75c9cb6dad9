#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the statements stay readable and diffable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
NOTEST="The two existing tests only format and parse single amounts in memory; "
p("C01","Opening a journal never silently loses data when storage fails",
 "Opening a journal (its root file and every file it includes) on storage that misbehaves - a file that cannot be opened, a read that fails, is interrupted or returns fewer bytes than asked, a line too long to be read, at any point - ends either with an error from Open or with exactly the ledger that a fault-free Open gives. The one exception is an included file that cannot be opened: Open may then also return the ledger without that file's content, provided it prints a diagnostic naming the include. A file that includes itself, directly or through others, under whatever name (spelled in another way, or a link), is not read twice: Open gives an error, or the ledger without that include and a diagnostic naming the file. If nothing failed, Open gives no error.",
 ["fault_sequences","schedules","inputs"],
 "every journal file tree with includes, and every placement of open failures, read errors, short reads and interrupted system calls in the reads made by Open",
 NOTEST+"no test opens a file at all, let alone one whose reads fail at a chosen point.",
 ["accounting.go","backend/ledger/ledger.go","backend/ledger/parser.go"],
 [("Open returns the backend's error","accounting.go:Open"),("line scanner over a stack of included files, error carried on each line","backend/ledger/parser.go:Scanner.Line"),("journal reader","backend/ledger/parser.go:readJournal")],
 ["error and ledger returned by accounting.Open","standard error"])
p("C02","A ledger depends only on the stored bytes",
 "What Open loads from a journal or text database, and every byte that exporting it or running a report with explicit dates prints, is a function of the bytes stored in its files alone. It does not depend on how reads are fragmented or interrupted, on hash-map iteration order, on the host's time zone or clock, or on what the process did before.",
 ["schedules","histories","configurations"],
 "every journal and text database, every fragmentation of its reads, every map iteration order, time zone, clock value and earlier activity of the process",
 NOTEST+"a test samples one run-time environment, and the orders that differ between runs are chosen by the Go runtime and the kernel.",
 ["accounting.go","backend/ledger/ledger.go","backend/ledger/parser.go","backend/txtdb/txtdb.go","cmd/ledger/main.go"],
 [("stable sorts by time","accounting.go:Ledger.Fill"),("prices generated from transactions and costs","accounting.go:Ledger.Fill"),("text export","backend/ledger/ledger.go:Export"),("dates parsed without a zone","backend/ledger/parser.go:GetDate")],
 ["the Ledger returned by accounting.Open","bytes written by ledger.Export","output of the ledger command"])
p("C03","Only consistent books are accepted, and they say what was written",
 "Whenever opening a journal succeeds, whatever corruption, tearing, loss or repetition of records its file suffered, the books are consistent: every transaction sums to zero in each currency at cost (or is an exchange between exactly two currencies), every running balance is the sum of its account's movements so far in time order, every balance assertion holds, and accounts, transactions and movements refer to each other correctly and in order. Sums are exact: books with a total or balance too big to be represented are rejected, never accepted with another amount. An entry or movement that cannot be understood is left out, with all that belongs to it, and changes no other, and if the journal is accepted a diagnostic names the file and line of each one. An undamaged, consistent journal is accepted and gives exactly the accounts, amounts (stated, or deduced from the rest of the transaction or from an assertion), costs, assertions, prices, dates and comments written in it.",
 ["fault_sequences","crash_points","inputs"],
 "every journal, and every sequence of storage corruptions (flipped or replaced bytes, torn tail, dropped, duplicated or swapped lines) applied to it before it is opened",
 NOTEST+"balancing, assertions and running balances are not exercised by any test, and must hold for every damaged file.",
 ["accounting.go","backend/ledger/parser.go"],
 [("balancing, elided amounts and assertions","accounting.go:Ledger.Fill"),("journal reader","backend/ledger/parser.go:readJournal"),("amount reader","backend/ledger/parser.go:getValue")],
 ["the Ledger returned by accounting.Open"],
 [("running balance","balance of the account after each movement","types.go:Split.Balance"),("assertions","stated balance after a movement","types.go:Ledger.Assertions"),("costs","value of a movement in another currency","types.go:Ledger.SplitPrices")])
p("C04","Recalculating after any edits equals computing from scratch",
 "After any sequence of edits to a ledger's accounts, transactions, movements, assertions, costs and prices, interleaved with recalculations that succeed or fail, a successful recalculation leaves all derived data (account hierarchy, levels and movement lists, running balances, orders, generated prices and transfer movements) exactly as in a ledger newly built from the same primary data. Recalculating again changes nothing. A recalculation fails only if the books are inconsistent, and one that failed never prevents a later one from succeeding once they are corrected.",
 ["histories"],
 "every history of edits and recalculations on one ledger, including failing recalculations at any point",
 NOTEST+"no test recalculates a ledger even once; the property is about arbitrarily long histories.",
 ["accounting.go","types.go"],
 [("recalculation resets and rebuilds the automatic fields","accounting.go:Ledger.Fill")],
 ["the exported fields of Ledger after Ledger.Fill","error returned by Ledger.Fill"],
 [("generated prices","prices implied by exchanges and costs","types.go:Ledger.Prices"),("transfer movements","movements generated for postings dated apart from their transaction","types.go:TransferAccount")])
p("C05","A clone is a faithful and independent copy",
 "Cloning a ledger at any point of its history gives a ledger that is observably identical to it: same accounts, transactions, movements, balances, prices, currencies, assertions, costs, comments and default currency, same export and same answers to every query and conversion. From then on, no operation on either one (edits, recalculation, trimming, cloning again) is ever visible in the other.",
 ["histories","inputs"],
 "every history of edits, recalculations, queries and clonings interleaved on a ledger and the clones derived from it",
 NOTEST+"clones are never tested, and sharing only shows after particular sequences of operations on both sides.",
 ["accounting.go"],
 [("deep copy through pointer maps","accounting.go:Ledger.Clone")],
 ["exported fields and queries of both ledgers","ledger.Export of both ledgers"])
p("C06","Ledgers opened in one process never affect each other",
 "However many ledgers one process opens, recalculates and queries, one after another or concurrently from several goroutines, in any interleaving and with any delays of their storage, each one is exactly what it would be if it were the only one; opening and recalculating different ledgers concurrently involves no data race.",
 ["schedules","histories"],
 "every interleaving of concurrent and successive opens, recalculations and queries of different ledgers",
 NOTEST+"no test opens two ledgers, and the interleavings of concurrent opens are chosen by the Go scheduler.",
 ["accounting.go","types.go","backend/ledger/parser.go"],
 [("each Open builds its own ledger","accounting.go:Open"),("account that holds transfer movements","types.go:TransferAccount"),("recalculation","accounting.go:Ledger.Fill")],
 ["the Ledger returned by each accounting.Open","race reports"])
p("C07","The backend registry is linearizable and never blocks on a backend",
 "Concurrent registrations and opens behave as if executed one at a time in an order consistent with real time: a name is registered exactly once, registering a nil driver or a taken name panics and changes nothing, Open reaches exactly the driver registered under its scheme (with no scheme, the first registered of the default backends) and otherwise reports an error. A backend whose opening stalls, fails or panics never prevents other registrations and opens from completing.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of concurrent Register and Open calls, with backends that stall, fail, panic or themselves register and open",
 NOTEST+"the registry is not tested, and its guarantees are about interleavings of concurrent callers.",
 ["accounting.go","backend.go"],
 [("registry map guarded by a lock","accounting.go:Register, Open"),("list of default schemes","accounting.go:defaultSchemes")],
 ["panics of accounting.Register","error and driver reached by accounting.Open"])
p("C08","An exported ledger can be reopened, even after a crash mid-write",
 "Exporting an opened ledger as text and opening that text gives the same accounts, codes, currencies and formats, transactions, amounts, costs, assertions, balances, dates, comments, prices and default currency, again and again. If a crash or storage error cuts the export short at any byte, opening what was written either fails or gives exactly the original transactions except possibly the one the cut fell in and those after it.",
 ["crash_points","fault_sequences","inputs"],
 "every ledger obtained from a journal, any number of export/open generations, and every point at which the written text can be cut",
 NOTEST+"no test exports anything, and the crash points are every byte of the output.",
 ["backend/ledger/ledger.go","backend/ledger/parser.go","cmd/acc/main.go"],
 [("text export","backend/ledger/ledger.go:Export"),("journal reader","backend/ledger/parser.go:readJournal"),("amount formatting","accounting.go:Value.FullString")],
 ["bytes written by ledger.Export","the Ledger got by opening them"])
p("C09","No stored data or storage fault kills or hangs the process",
 "Whatever bytes a journal's files contain (torn, corrupted, hand-edited, including each other in a cycle) and whatever faults reading them meets, opening it returns within a bounded number of steps with an error or a ledger, and never panics or exits the process. On every ledger so obtained every operation - query, conversion, clone, recalculation, export, and each report command - likewise completes without panic.",
 ["crash_points","fault_sequences","inputs"],
 "every content of the journal files reachable by tearing, corrupting, splicing and cyclic inclusion, combined with every storage fault sequence, followed by any operation",
 NOTEST+"the damaged files and fault points are unbounded in number, and no test opens a file.",
 ["accounting.go","backend/ledger/parser.go","backend/ledger/ledger.go","cmd/ledger/main.go"],
 [("journal reader reports bad lines and goes on","backend/ledger/parser.go:readJournal"),("conversion through intermediate currencies","accounting.go:Ledger.Convert"),("recalculation detects deadlock","accounting.go:Ledger.Fill")],
 ["return, panic or exit of accounting.Open and of every operation on the ledger","steps executed"])
p("C10","Opening a text database is complete or reported under faults and writers",
 "Opening a text database directory on storage that misbehaves (a file that cannot be opened, a read that fails, is interrupted or comes back short) ends with an error or with exactly the accounts, hierarchy, transactions, amounts and balances stored in it; a missing transactions file means no transactions. After a crash that cut the file of transactions short, or damage to one of its lines, Open gives an error or a ledger with every transaction before the damage, and it reports a movement whose date, account or amount cannot be understood or does not fit, a line with a wrong number of fields, an account whose number or parent cannot be understood, and movements left out because the rest of their transaction is missing; a line too long to be read is an error, never a silent end of the file. If another program replaces or appends to the files while they are read, the ledger is one of the states the database went through, or an error or a diagnostic says otherwise.",
 ["fault_sequences","schedules","inputs"],
 "every text database, every byte at which a crash may cut its file of transactions, every placement of faults in the reads of its two files, and every interleaving of those reads with a concurrent writer",
 NOTEST+"the text-database backend has no test at all.",
 ["backend/txtdb/txtdb.go","accounting.go"],
 [("reader of the accounts and transactions files","backend/txtdb/txtdb.go:conn.read"),("Open returns the backend's error","accounting.go:Open")],
 ["error and ledger returned by accounting.Open","standard error"])
p("C11","Opening a PostgreSQL ledger is complete or an error, at one point in time",
 "Opening a ledger from a PostgreSQL database that misbehaves (unreachable, connection lost at any row, a query that fails or is rejected) ends with an error from Open, never with a panic and never with a ledger that lacks part of the data; without faults it gives exactly the accounts, transactions, movements and amounts stored. If other clients commit while it reads, the ledger corresponds to the database at one single point in time.",
 ["fault_sequences","schedules","inputs"],
 "every database content, every placement of connection and query failures in Open, and every interleaving of its queries with commits by other clients",
 NOTEST+"the PostgreSQL backend has no test at all, and connection loss between two rows cannot be sampled by a unit test.",
 ["backend/postgres/postgres.go","accounting.go"],
 [("account and transaction queries","backend/postgres/postgres.go:getAccounts, getTransactions"),("Open returns the backend's error","accounting.go:Open")],
 ["error and ledger returned by accounting.Open"])
p("C12","Nothing stays open after a failed open or after closing",
 "When opening a ledger fails, for whatever reason and at whatever point (an open or read fault, a refused or lost database connection, invalid or unbalanced data), no file descriptor and no database connection acquired on the way stays open; after a successful open and a close, none does either. Consequently any number of opens, failed or closed, can be made one after another in one process.",
 ["fault_sequences","histories"],
 "every history of opens and closes over the three backends with faults at any point",
 NOTEST+"no test opens or closes a ledger, and leaks on error paths need a fault at the right point.",
 ["accounting.go","backend/ledger/parser.go","backend/txtdb/txtdb.go","backend/postgres/postgres.go"],
 [("files closed at end of file","backend/ledger/parser.go:Scanner.Line"),("closing a connection","accounting.go:Ledger.Close"),("database handle","backend/postgres/postgres.go:conn.Close")],
 ["open file descriptors and database connections of the process"])
p("C13","As-of queries agree with what was observed at that time",
 "Let a journal grow over time and be opened at various instants. What was then current is what the final ledger reports as of that instant: account balances at T (nothing before the first movement, everything up to and including T), the transactions between two times (both ends included) in order, the transactions of an account (those with a movement in it, each once), and the balance, transaction and income reports with that end date; a begin date only removes what lies before it, and accounts keep their earlier balance as the starting balance.",
 ["histories","inputs"],
 "every growing history of transactions, every pair of observation instant and later query, including instants equal to a transaction's time",
 NOTEST+"no query is tested, and the property relates two points of an arbitrary history.",
 ["accounting.go","cmd/ledger/main.go"],
 [("balance at a given time","accounting.go:Ledger.GetBalance"),("transactions of an account","accounting.go:Ledger.TransactionsInAccount"),("transactions between two times","accounting.go:Ledger.TransactionsInInterval"),("begin and end dates of reports","cmd/ledger/main.go:main2")],
 ["Ledger.GetBalance","Ledger.TransactionsInInterval","output of ledger -b/-e reports"])
p("C14","Market values and prices follow the clock, and only when they should",
 "A price or market-value report that names no end date uses the clock at the moment it runs, whatever the clock says and however it jumps between runs: the price declared at exactly that instant, else the value on the straight line between the neighbouring prices (however far apart they are), else the nearest known price. A report with an explicit end date gives the same result as one without it run when the clock shows that date, and does not otherwise depend on the clock. Where there is no price that leads to the currency asked for, or the result is too big to be represented, prices, market values and momentums are errors, not numbers.",
 ["schedules","histories","inputs"],
 "every price history, clock value, clock jump and host time zone",
 NOTEST+"conversions are not tested and a test cannot choose the wall clock.",
 ["accounting.go","cmd/ledger/main.go","cmd/muscular/main.go"],
 [("default end date is now","cmd/ledger/main.go:main2"),("conversion at a time","accounting.go:Ledger.Convert")],
 ["output of ledger price and ledger balance -market","Ledger.Convert"])
p("C15","One ledger can be read from many goroutines at once",
 "Queries, conversions, formatting, cloning and exporting of one ledger made concurrently by several goroutines, in any interleaving, give each caller exactly what it would get alone, leave the ledger unchanged, and involve no data race; goroutines that change their own clone meanwhile do not disturb the readers.",
 ["schedules"],
 "every interleaving of concurrent read-only operations on one ledger and of changes to private clones of it",
 NOTEST+"nothing is tested concurrently, and the interleavings are chosen by the Go scheduler.",
 ["accounting.go","backend/ledger/ledger.go"],
 [("read-only queries","accounting.go:Ledger.GetBalance, TransactionsInAccount, TransactionsInInterval, Convert, Account"),("deep copy","accounting.go:Ledger.Clone"),("text export","backend/ledger/ledger.go:Export")],
 ["results of the concurrent operations","race reports"])
p("C16","Commands given in one run do not influence each other",
 "Running several commands in one invocation of the ledger tool (or of the muscular tool), separated by --, prints exactly what running each of them in an invocation of its own would print, in the same order, whatever the commands, their dates, pivots, currencies and arguments; the journal's files are never modified.",
 ["histories","inputs"],
 "every journal and every sequence of report commands with their options",
 NOTEST+"no command is tested, and interference needs a particular sequence of two or more.",
 ["cmd/ledger/main.go","accounting.go"],
 [("each command works on a clone","cmd/ledger/main.go:main"),("pivot and date trimming","cmd/ledger/main.go:main2, doPivot"),("deep copy","accounting.go:Ledger.Clone")],
 ["standard output and exit status of the ledger command"])
p("C17","Failing to write an export or print is reported",
 "If the destination of an export stops accepting data at any point (full disk, broken pipe, write error), exporting returns an error, and the print command and the export tool end with a non-zero exit status; the bytes that were written are a prefix of the complete output. If every write eventually succeeds, however fragmented or interrupted, the complete output is written and success is reported.",
 ["fault_sequences","crash_points"],
 "every ledger and every placement of failing, short and interrupted writes in the output",
 NOTEST+"no test writes to anything, and the failing write can be any one of hundreds.",
 ["backend/ledger/ledger.go","cmd/ledger/main.go","cmd/acc/main.go"],
 [("text export","backend/ledger/ledger.go:Export"),("print command","cmd/ledger/main.go:runPrint"),("export tool","cmd/acc/main.go:main")],
 ["error returned by ledger.Export","exit status and standard output of ledger print and acc"])
p("C18","Refreshing a ledger brings it up to date, whole or not at all",
 "After the stored data changed, refreshing an open ledger makes it identical to one newly opened from the data as it stands then. If that data cannot be read or is inconsistent, the ledger stays as it was; it is never a mixture of the two and never damaged.",
 ["histories","fault_sequences"],
 "every history of changes to the stored data and refreshes, with storage faults during a refresh",
 NOTEST+"refreshing is not tested, and needs a history of changes and faults.",
 ["accounting.go","backend/ledger/ledger.go","backend/txtdb/txtdb.go","backend/postgres/postgres.go"],
 [("refresh is delegated to the backend","accounting.go:Ledger.Refresh"),("backend refresh","backend/ledger/ledger.go:ledgerConnection.Refresh")],
 ["exported fields of the Ledger after Ledger.Refresh"])
p("C19","Amounts survive being written and read",
 "Every amount with up to eight decimals that fits, written in its currency's format (symbol before or after, thousand and decimal marks, precision), is read back as the same amount and currency, and an ambiguous or malformed amount is rejected.",
 ["inputs"],"every amount, currency format and spelling",
 "The existing tests sample 18 spellings and 24 formats; the property is over all of them.",
 ["accounting.go","backend/ledger/parser.go"],
 [("amount reader","backend/ledger/parser.go:getValue"),("amount formatting","accounting.go:Value.GetString")],
 ["Value.FullString","the amount of a posting"])
p("C20","Balance arithmetic is exact",
 "Adding and subtracting values and balances is commutative and associative per currency, has the empty balance as identity, subtraction inverts addition, and a balance never lists a currency twice or with amount zero.",
 ["inputs"],"every sequence of values and balances",
 "No test adds balances; the property is algebraic, over all inputs.",
 ["accounting.go"],[("balance operations","accounting.go:Balance.Add, Sub, AddBalance, SubBalance, Dup")],
 ["Balance.Add, Sub, AddBalance, SubBalance, Dup"])
p("C21","Reports say what the stored movements add up to",
 "Each report of the ledger tool shows what the selected stored movements add up to, whichever commands ran before it, at whatever clock, and however slowly or piecemeal its files are read. Balances: the sum per account and currency up to the end date; the total is the sum of the lines shown. Income statement: revenues and expenses between the dates, with their totals, and net = revenues - expenses. Delta: the change of the matching accounts between the dates, each account once. A pivot selects the transactions with a matching account, a currency filter the amounts shown, account arguments the accounts and all below them, a begin and an end date include their own instant, and market values are those at the end date. Account list, tree, statistics, transactions printed and the interactive tables (of the ledger tool and of the table viewer, from any backend) agree with the stored data in the same way. A command that cannot be carried out (the ledger cannot be opened; unknown command; invalid option, date or period; no price to convert; a sum too big to be represented) ends with an error status and a message, and with no report in its place.",
 ["histories","inputs","schedules"],"every journal, text or PostgreSQL database, every sequence of commands with any options, every clock reading, every fragmentation and delay of reads and writes",
 "No report is tested; reports combine options, dates, currencies and account hierarchies with the state of the process and its clock, far too many to sample by hand.",
 ["cmd/ledger/main.go","cmd/tacc/main.go","accounting.go"],[("balance report","cmd/ledger/main.go:runBalance"),("income statement","cmd/ledger/main.go:runIncomeStatement"),("selection by dates and pivots","cmd/ledger/main.go:main, doPivot")],
 ["output and exit status of the commands of cmd/ledger and of cmd/tacc"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import sys
try:
    import jsonschema
    sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,sch)
    print("valid",len(P))
except ImportError: pass
