#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). The text of every property lives here."""
import json, os
A="accounting.go"; T="types.go"; LP="backend/ledger/parser.go"; LL="backend/ledger/ledger.go"; TX="backend/txtdb/txtdb.go"
CL="cmd/ledger/main.go"; CM="cmd/muscular/main.go"; CA="cmd/acc/main.go"; PG="backend/postgres/postgres.go"; BE="backend.go"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

NOFILL="No existing test opens a journal: the two tests cover number formatting and about 20 amount strings."

p("C01","Only balanced transactions load",
 "Opening a journal succeeds only if every transaction balances: with each posting taken at its amount, or at its total cost when a price is given, the sum is zero in every commodity, or exactly two commodities are left over, which counts as an exchange. A transaction left with a single unbalanced commodity, with three or more, with two postings lacking an amount, or with a missing amount that would have to absorb two commodities makes opening fail with an error that names that transaction's file and line. A journal in date order whose transactions all balance and whose assertions are true is never rejected, unless its missing amounts depend on one another, which is an error as well.",
 ["inputs"],"all journals of well-formed transactions, with any mix of explicit, omitted, priced and asserted postings, in any number of commodities",
 NOFILL+" Whether unbalanced books are let in depends on every combination of postings.",
 [A],[("transaction balancing loop","accounting.go Ledger.Fill")],["accounting.Open result","cmd/ledger exit status"])
p("C02","Omitted amounts are inferred exactly",
 "When one posting of a transaction has no amount, after loading it holds exactly the negation of the sum of the other postings (each taken at its cost if it has one), in that sum's commodity, or zero when the others already balance. Every amount written in the journal is kept as written.",
 ["inputs"],"all balanceable transactions with one omitted amount at any position, plain or priced, any commodity, alone or after amounts fixed by balance assertions",
 NOFILL+" Inference has to be exact for every amount and posting order.",
 [A],[("unbalanced split inference","accounting.go Ledger.Fill")],["Transaction.Splits[].Value after accounting.Open"])
p("C03","Running balances are exact sums",
 "After loading, each account lists every posting made to it exactly once, ordered by the posting's own date and, for equal dates, in journal order. The balance stored with each posting is, per commodity, the exact sum of the amounts of that account's postings up to and including it, with no zero or duplicate entries.",
 ["inputs"],"all loadable journals: any number of accounts, commodities, same-day transactions and postings carrying their own date, with amounts and sums in the stored range",
 NOFILL+" No test looks at an account's balance.",
 [A,T],[("per-account accumulation","accounting.go Ledger.Fill"),("Balance.Add","accounting.go")],["Account.Splits","Split.Balance"])
p("C04","Balance assertions are enforced",
 "A balance assertion on a posting is accepted exactly when the account's running balance in the asserted commodity, after that posting, equals the asserted amount (a commodity the account does not hold counts as zero, and other commodities in the account are ignored). A false assertion makes opening fail with an error naming the posting's file and line. A posting that has an assertion but no amount receives exactly the difference that makes the assertion true, zero included.",
 ["inputs","histories"],"all journals with true or false assertions, on accounts holding any set of commodities, with and without amounts, over any posting history",
 "No test uses assertions; the verdict depends on the account's whole history in every commodity.",
 [A],[("assertion check and inference","accounting.go Ledger.Fill")],["accounting.Open result","Split.Value"])
p("C05","Books balance at every instant",
 "In a loaded ledger without currency exchanges, at every point in time the balances of all accounts, each posting counted from its own date, add up to zero in every commodity. When a posting carries a date other than its transaction's, the amount in transit sits in the transfer account between the two dates, with the right sign, and the transfer account holds nothing once both dates have passed.",
 ["inputs","histories"],"all ledgers with postings dated before, at or after their transaction, and all instants",
 NOFILL+" The in-transit entries are generated by code no test runs.",
 [A,T],[("fake splits of the transfer account","accounting.go Ledger.Fill"),("TransferAccount","types.go")],["Account.Splits of all accounts","accounting.Ledger.GetBalance"])
p("C06","Balance at a date counts postings up to it",
 "The balance of an account at a given time is, per commodity, the sum of the amounts of its postings dated at or before that time, and it is empty before the first posting. Asking without a time gives the balance after the last posting.",
 ["inputs","histories"],"all accounts of all loadable ledgers and all query times: before, at, between and after the postings",
 "No test queries a balance.",
 [A],[("GetBalance scan","accounting.go Ledger.GetBalance")],["Ledger.GetBalance"])
p("C07","Amounts are read exactly or rejected",
 "An amount written as the documented syntax allows (sign, digits, groups of three with a thousands sign, decimals up to 8 places, commodity before or after, with or without a space) is read as exactly that number and commodity, given the signs that commodity uses. An amount that is malformed, ambiguous between decimal and thousands sign, wrongly grouped, over-precise or too large for the ledger to hold is reported with file and line and never enters the books as another number.",
 ["inputs"],"all amount strings: every style of commodity, value up to the largest representable, fresh or already known commodities, plus malformed variations",
 "The existing test samples about 20 strings and never reads two grouped amounts of one commodity with a decimal part.",
 [LP],[("amount parser","backend/ledger/parser.go getValue")],["Split.Value after accounting.Open","diagnostics on the log"])
p("C08","Printed amounts show the true digits",
 "Printing a value shows its sign, its integer part grouped in threes with the commodity's thousands sign, the commodity's decimal sign and name on the side and with the spacing the commodity asks for. The short form shows exactly the commodity's number of decimals, cutting the rest without rounding; the full form shows all significant decimals, so that it never loses a digit, and reading it back gives the same amount.",
 ["inputs"],"all representable amounts and all commodity styles with 0 to 8 decimals",
 "The existing test samples about 25 values; grouping, truncation and padding must hold for all.",
 [A],[("GetString","accounting.go Value.GetString")],["Value.String","Value.FullString","Balance.String"])
p("C09","An exported ledger reloads to the same books",
 "Exporting a loaded ledger in journal format yields a journal that loads without complaint into an equivalent ledger: same accounts in the same order with their codes and comments, same commodities with style, ISIN and comments, same default commodity, same transactions, postings, amounts, costs, assertions, dates to the second, descriptions and comments, same declared prices, same balances. Exporting the reloaded ledger again, and so on, keeps that equivalence and does not add accounts or postings.",
 ["inputs"],"all loadable journals using every construct of the file format",
 "Nothing tests the exporter, and a round trip quantifies over everything the format can express.",
 [LL,LP,A],[("Export","backend/ledger/ledger.go"),("readJournal","backend/ledger/parser.go")],["cmd/ledger print","cmd/acc","ledger.Export + accounting.Open"])
p("C10","Currency conversion follows the price history",
 "Converting an amount to its own commodity changes nothing; otherwise the price used is the one recorded at exactly that moment, else the linear interpolation between the surrounding prices, else the nearest one when all are on one side, applied to within the last stored digit. With no direct price, conversion goes through the commodity of the price nearest in time; if no chain of prices leads to the target, it returns an error. It always terminates and never changes the ledger.",
 ["inputs","histories"],"all price histories (including cyclic and disconnected ones), amounts, dates and target commodities",
 "No test records a price.",
 [A],[("Convert","accounting.go Ledger.Convert"),("Mul","accounting.go Value.Mul")],["Ledger.Convert","cmd/ledger price","cmd/ledger -market balance"])
p("C11","Exchanges and costs record their prices",
 "A transaction that exchanges two commodities, and a posting with a cost, each add at their own date the implied price of either commodity in the other, accurate to the last stored digit (when it is in the range that can be stored); declared prices are kept. A zero amount or zero cost never makes loading fail. The price list is sorted by date, and loading the same journal again gives the same list in the same order.",
 ["inputs"],"all journals with declared prices, exchanges and costs given per unit or in total, including zero ones and many at the same instant",
 "No test loads an exchange or a cost, and order stability needs repetition.",
 [A,LP],[("automatic prices","accounting.go Ledger.Fill"),("cost parsing","backend/ledger/parser.go readJournal")],["Ledger.Prices"])
p("C12","A cloned ledger is equal and independent",
 "A clone of a ledger is equal to it in every account, transaction, posting, balance, commodity (style included), price, comment, assertion, cost and default commodity, with the same links among them, and refers to no account, transaction, posting, price or commodity of the original. Whatever is then done to either one leaves the other unchanged.",
 ["inputs","histories"],"all loaded ledgers from any backend and all sequences of changes to clone or original",
 "No test clones a ledger; independence must hold for every later change.",
 [A],[("Clone","accounting.go Ledger.Clone")],["Ledger.Clone"])
p("C13","Balances behave as sums per commodity",
 "A balance built by any sequence of additions and subtractions of values and balances holds, for each commodity, the exact total, and never holds a zero total or the same commodity twice. Adding, subtracting or duplicating never alters the operands, and a duplicate evolves independently of its source.",
 ["histories"],"all sequences of Add, Sub, AddBalance, SubBalance and Dup over any commodities, without overflow of the stored range",
 "No test uses Balance; cancellation to zero and re-adding depend on the sequence.",
 [A],[("Balance.Add and relatives","accounting.go")],["accounting.Balance"])
p("C14","Journal entries keep their own data",
 "Loading a journal yields exactly its transactions, in order, each with its date and time, description and its own postings; a posting belongs to the transaction header directly above it and to no other. Each comment, inline or on an indented line below, is attached to the entry it annotates, and the code, isin and date tags set the account code, the commodity ISIN and the posting date, also after other words in the same comment, which are kept. Dates may be written with any of the accepted separators and with hours, minutes and seconds, all meaning the same instant; a date alone means noon. A posting with a price without amount, or a price or assertion without value, is reported and does not count; a date tag which is no date is reported, and leaves the posting with the date of its transaction.",
 ["inputs"],"all journals mixing every kind of entry, comment placement, tag and date format, including lines the program does not understand in between",
 "No test reads a journal.",
 [LP],[("readJournal","backend/ledger/parser.go"),("GetDate","backend/ledger/parser.go"),("addComment","backend/ledger/parser.go")],["accounting.Open","ledger.GetDate"])
p("C15","Account tree is consistent",
 "After loading, the accounts are exactly those named in the data plus their ancestors plus the transfer account, each once. Every account's parent, children, depth and full name agree with its colon-separated name; each parent is followed by all of its descendants, and siblings keep their order of first appearance.",
 ["inputs"],"all sets of account names of any depth, declared or merely used, in any order",
 "No test builds an account tree.",
 [A,LP,TX],[("tree rebuild","accounting.go Ledger.Fill"),("getAccount","backend/ledger/parser.go")],["Ledger.Accounts","Account.FullName","cmd/ledger accounts"])
p("C16","Any journal text is handled cleanly",
 "Opening any file content whatsoever returns either a ledger or an error: it does not crash, hang or end the calling program. Every line that is not blank and not understood is reported with its file and line number rather than dropped silently.",
 ["inputs"],"all byte contents, from random bytes to well-formed journals with small corruptions",
 "Tests only feed well-formed amounts.",
 [LP,A],[("readJournal","backend/ledger/parser.go")],["accounting.Open","standard error of cmd/ledger"])
p("C17","Unreadable or disordered journals are refused",
 "If a journal file, or a data file of a txtdb directory, cannot be opened or cannot be read completely, opening it returns an error instead of an empty or shortened ledger. Transactions or declared prices that go back in time, and an account declared twice, make opening fail with an error naming file and line; a repeated date is fine.",
 ["inputs","fault_sequences"],"all journals with one such fault at any position, and all read failures (missing file, directory, overlong line) in the main or an included file",
 "No test opens a file, let alone an unreadable one.",
 [LP,LL],[("driver Open and scanner","backend/ledger/ledger.go"),("chronology checks","backend/ledger/parser.go")],["accounting.Open result"])
p("C18","Include is transparent",
 "Moving any run of complete entries of a journal into an included file, nested to any depth, with paths relative to the including file or absolute, yields the same ledger as the single file. Messages and identifiers refer to the file and line where the entry really is. A missing included file is reported, and a file that includes itself, directly or through others, is reported instead of being loaded again.",
 ["inputs","configurations"],"all journals, all ways to split them over files and directories",
 "No test includes a file.",
 [LP],[("Scanner file stack","backend/ledger/parser.go")],["accounting.Open"])
p("C19","Queries return exactly the matching entries",
 "Looking up an account by its identifier returns that account, or nothing if there is none. The transactions of an account are exactly those with a posting in it, each once and in order; the transactions of an interval are exactly those dated within it, both ends included, in order.",
 ["inputs"],"all loaded ledgers, all account identifiers and all intervals including empty, reversed and boundary ones",
 "No test runs a query.",
 [A],[("Account, TransactionsInAccount, TransactionsInInterval","accounting.go")],["Ledger query methods"])
p("C20","Backends are dispatched by scheme and capability",
 "Opening a data source uses the backend registered under its scheme, or the first registered of ledger, txtdb and postgres when there is no scheme; an unregistered scheme, a backend that fails, or data that does not balance gives an error and no ledger. An operation the backend implements is delegated to it with its arguments and results unchanged; otherwise queries fall back to the loaded data, edits report that they are not implemented, and flushing succeeds. Registering nil or a name twice panics and leaves the registry as it was.",
 ["histories","configurations"],"all sequences of registrations and openings, and all subsets of optional operations a backend may implement",
 "No test registers a backend.",
 [A,BE],[("driver registry and Open","accounting.go"),("optional interfaces","accounting.go")],["accounting.Register","accounting.Open","Ledger methods"])
p("C21","Recalculating a ledger changes nothing",
 "Recomputing the automatic data of an already loaded ledger succeeds and leaves it as it was: same accounts, links, postings, balances, transfer entries and prices. Recomputing after new valid transactions were added, in any position that leaves the already inferred amounts valid, gives the same ledger as loading all of them at once.",
 ["inputs","histories"],"all loaded ledgers, any number of recalculations and any additions between them",
 "No test recalculates a ledger.",
 [A],[("Fill","accounting.go Ledger.Fill")],["Ledger.Fill"])
p("C22","Ledgers in one process are independent",
 "Opening, recalculating, cloning or changing one ledger never alters another ledger open in the same process, including its transfer entries, and a ledger's content does not depend on which others were opened before it.",
 ["histories"],"all sequences of opening, recalculating and changing several ledgers, from any backend, also at the same time",
 "No test opens even one ledger.",
 [A,T],[("transfer account","accounting.go Ledger.Fill")],["accounting.Open","Ledger.Fill"])
p("C23","txtdb data loads to the right books",
 "Opening a txtdb directory yields its accounts with name, code and parent, and groups its movement lines into transactions that end where the running sum returns to zero, each with its date, description and exact amounts in cents. A line giving only a balance is checked as an assertion on the account. Malformed lines are left out without affecting the others; a movement with a wrong date, account, amount or balance, or earlier than the one before, or with another date than the one before in the same transaction, is reported with its line number, and so is an incomplete last transaction, and nothing is reported about the rest. A missing accounts file is an error, account balances are the exact sums, and amounts are shown with two decimals.",
 ["inputs"],"all txtdb directories: any account tree with each parent listed before its children, any movements with explicit signs and two decimals, with and without times, plus malformed lines",
 "The txtdb backend has no tests.",
 [TX,A],[("read","backend/txtdb/txtdb.go")],["accounting.Open(\"txtdb:...\")"])
p("C24","Balance report adds up",
 "The balance command lists, for every account it selects and with every commodity it holds, the balance at the end of the chosen period, and its total line is the exact sum of the selected accounts, each counted once. Account arguments select the matching accounts and all their descendants, regardless of case; the end date cuts later postings, the begin date does not change closing balances, a month or year stands for its whole span, the currency option keeps only that commodity, and pivot counts only the transactions involving a matching account. In the tree each account is indented below its parent.",
 ["inputs","configurations"],"all journals and all combinations of account arguments, -b, -e (the beginning not after the end), -currency, -pivot and -total",
 "The commands have no tests.",
 [CL],[("runBalance and date filtering","cmd/ledger/main.go")],["cmd/ledger balance output"])
p("C25","Income statement and delta sum the period",
 "The income statement shows, for each income and expense account with activity in the chosen period, the sum of its postings in that period (income with the opposite sign), and its totals and net are the exact sums, in aligned columns. The delta command prints the exact sum of the postings in the period of all accounts matching any argument, each account counted once, with the sign inverted on request. With pivot both count only the transactions involving a matching account.",
 ["inputs","configurations"],"all journals and all combinations of -b, -e (the beginning not after the end), -pivot, account arguments, -total and -negate",
 "The commands have no tests.",
 [CL],[("runIncomeStatement","cmd/ledger/main.go"),("runDelta","cmd/ledger/main.go")],["cmd/ledger incomestatement, delta output"])
p("C26","Chained commands do not affect each other",
 "Running several commands separated by -- on one journal prints exactly what the same commands print when run one by one, whatever period, pivot or currency restrictions each of them has.",
 ["histories","configurations"],"all sequences of commands with options over all journals",
 "The commands have no tests; interference depends on the sequence.",
 [CL,A],[("main loop over clones","cmd/ledger/main.go")],["cmd/ledger output"])
p("C27","Market reports use converted amounts",
 "With the market option the balance command shows every amount converted to the default commodity at the end date, as currency conversion does, with totals the exact sums of the converted amounts; delta shows what the accounts are worth at the end of the period less what they were worth at its beginning; the price command prints the converted value of one unit of each named commodity with all its digits. When a needed conversion or the default commodity does not exist, the command fails with a message and a non-zero status instead of crashing.",
 ["inputs","configurations"],"all journals with price histories, end dates given or not (the present), and present or missing default commodity",
 "The commands have no tests.",
 [CL,A],[("runBalance market branch, runPrice","cmd/ledger/main.go")],["cmd/ledger -market balance, -market delta, price output"])
p("C28","Listings show exactly the chosen entries",
 "The print command shows exactly the transactions whose date lies in the chosen period and, with pivot, that involve a matching account; accounts lists every account, each after its parent (and below it, as a tree); stats reports the number of transactions and the days spanned by that selection, and the number of accounts, commodities and prices. Printing without restrictions is the full export.",
 ["inputs","configurations"],"all journals and all combinations of -b, -e and -pivot",
 "The commands have no tests.",
 [CL],[("main2 filters, doPivot, runStats, runAccounts, runPrint","cmd/ledger/main.go")],["cmd/ledger print, accounts, stats output"])
p("C29","Reports are deterministic",
 "Running the same command on the same journal always produces byte-identical output, and so does loading and exporting it from another process; in particular the order of prices, balances and comments never varies from run to run.",
 ["inputs","schedules"],"all journals and all non-interactive commands (with an end date, when they use prices), over repeated runs",
 "A single run cannot reveal run-to-run variation; no test runs a command.",
 [A,LL,CL],[("ordering of automatic prices","accounting.go Ledger.Fill"),("Export","backend/ledger/ledger.go")],["cmd/ledger and cmd/acc output"])
p("C30","Momentum is the average relative growth",
 "For each named commodity the momentum command prints the average, over the requested number of measures, of the ratio between its value at the end date and its value at one, two, three... measure periods before, minus one, in the order given. When a commodity cannot be converted at one of those moments, or was worth nothing, it fails with a message instead of printing a figure.",
 ["inputs","configurations"],"all price histories, with and without a value at all the moments needed, end dates given or not (the present), numbers of measures and periods in months and/or days",
 "The command has no tests.",
 [CM,A],[("momentum computation","cmd/muscular/main.go main2")],["cmd/muscular output"])
p("C31","Same books, same figures across backends",
 "The same accounts and movements stored as a txtdb directory or written as a journal load to the same account tree, transactions, amounts and running balances, and exporting the txtdb data as a journal and loading that gives the same books again.",
 ["inputs"],"all books expressible in both formats",
 "Backends other than the amount parser have no tests.",
 [TX,LP,LL,CA],[("txtdb read","backend/txtdb/txtdb.go"),("Export","backend/ledger/ledger.go")],["accounting.Open","cmd/acc output"])
p("C32","PostgreSQL data loads to the right books",
 "Opening a PostgreSQL database yields its accounts with name and code and one transaction per transaction number, with its date and description (those of its first row) and postings in the order delivered, each with the exact amount in cents; transactions balance, account balances are the exact sums, and amounts are shown with two decimals. A connection failure or a failing query gives an error and no ledger.",
 ["inputs"],"all contents of the account and movement tables, with the movements in any order, served by a stand-in server",
 "The backend has no tests and no database is available to them.",
 [PG,A],[("getAccounts, getTransactions","backend/postgres/postgres.go")],["accounting.Open(\"postgres://...\")"])
p("C33","Undeclared names are reported",
 "While a journal is read, every account and every commodity which is not declared before it is used gives exactly one message, naming it and the file and line of its first use, wherever it is used (postings, amounts, costs, assertions, prices), and becomes part of the ledger as if it had been declared there. Names declared before (a commodity also by D) give no message, and a well-formed journal gives no other message.",
 ["inputs"],"all well-formed journals, also spread over included files, with any part of their accounts and commodities declared",
 "No test loads a journal.",
 [LP],[("getAccount and getCurrency","backend/ledger/parser.go"),("GetCurrency","accounting.go")],["standard error of accounting.Open"])
p("C34","Programs which cannot do their work say so",
 "When ledger, acc, tacc or muscular is given data which does not load, no data, an unknown command, a wrong option, date or period, or a wrong number of arguments, it ends with a non-zero status and a message which says what was wrong, and prints nothing on its output but what the commands before it in the chain print. Without the option naming the journal it is the one in LEDGER_FILE, and otherwise the option wins.",
 ["inputs","configurations","faults"],"all command lines with one such mistake, over all journals and all chains of commands",
 "The commands have no tests.",
 [CL,CM,CA],[("main, main2, option parsing","cmd/ledger/main.go"),("main","cmd/acc/main.go"),("main2","cmd/muscular/main.go")],["status, output and error of the programs"])
p("C35","The tables on the screen show the books",
 "Without a command, ledger (and tacc) shows a table with every account, in order, with its balance at the end of the chosen period; choosing one shows its postings in the period, in order, with date, description, amount and running balance. Leaving that table comes back to the accounts, and leaving those ends the program.",
 ["inputs","histories"],"all journals and txtdb directories which fit the screen, all periods and all sequences of choosing accounts",
 "The commands have no tests.",
 [CL,"cmd/tacc/main.go",A],[("tableAccounts, tableTransactions","cmd/ledger/main.go"),("tableAccounts, tableTransactions","cmd/tacc/main.go"),("GetBalance","accounting.go")],["screen of cmd/ledger and cmd/tacc"])
p("C36","Nothing stays open",
 "When a source (journal with its included files, txtdb directory or PostgreSQL database) cannot be opened, whatever the reason, no file, connection or goroutine of the attempt stays behind. When it can, none does once the ledger is closed, and Close succeeds.",
 ["inputs","faults"],"all journals, txtdb directories and PostgreSQL servers, with and without faults",
 "What stays open is invisible in results, and depends on where the reading of a source stops.",
 [A,LP,TX,PG],[("Open, Close","accounting.go"),("Scanner.NewFile, Scanner.Line, readJournal","backend/ledger/parser.go"),("read","backend/txtdb/txtdb.go"),("Open, Close","backend/postgres/postgres.go")],["open files, connections and goroutines of the process"])
p("C37","Queries only read, and can be made at the same time",
 "Asking a ledger for balances, conversions, accounts, transactions, names, amounts, an export or a clone never changes it (nor anything else that is shared): queries may run in several goroutines at once, and other ledgers be opened meanwhile, without data races, and each answer is the one given when asked alone.",
 ["inputs","schedules"],"all ledgers, all sets of queries and all interleavings of them",
 "A cache or a buffer shared by queries gives right answers in any sequential test.",
 [A,LL,TX],[("Account, FullName, GetBalance, TransactionsInAccount, TransactionsInInterval, Convert, Clone, GetString, Open","accounting.go"),("Export","backend/ledger/ledger.go")],["queries of a ledger"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
