#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))
A, T, L, PR, TX, PG, C, M = ("accounting.go", "types.go", "backend/ledger/ledger.go", "backend/ledger/parser.go",
    "backend/txtdb/txtdb.go", "backend/postgres/postgres.go", "cmd/ledger/main.go", "cmd/muscular/main.go")

p("C01", "Double entry: every accepted transaction balances",
  """In every journal that opens, the postings of each transaction add up to exactly zero in every currency, where a priced
  posting (@ or @@) counts as its total price instead of its amount; the only exception is a transaction with no empty amount that leaves
  exactly two currencies, with opposite signs (an exchange). At most one posting per transaction may lack both amount and balance
  assertion, and it gets exactly the amount that makes the transaction balance. A journal containing a transaction for which this
  is impossible is refused with an error naming the file and line of that transaction. Sums too big for an amount are never wrapped
  around: they may be refused, but what opens is exact.""",
  ["inputs"], "all transactions: any number of postings, amounts, currencies, prices and positions of the empty amount",
  "The tests never open a journal or balance a transaction; the property quantifies over every combination of postings.",
  [A, PR], [("balancing of transactions", "accounting.go Ledger.Fill"), ("price of a posting", "parser.go readJournal")],
  [("Split.Value", "amount of the posting, filled in when empty", T), ("Ledger.SplitPrices", "total price of a posting", T)],
  ["accounting.Open", "Ledger.Transactions"])

p("C02", "Running balances and balances at any instant are exact",
  """In an opened ledger each account holds exactly the postings that name it, in chronological order (journal order among equal times),
  and each posting carries the exact per-currency sum of that account's postings up to and including itself, without zero entries and
  without repeated currencies. The balance of an account at an instant is the sum of its postings dated at or before that instant
  (empty before the first one), and its current balance is the sum of all of them.""",
  ["inputs", "histories"], "all histories of transactions over several accounts and currencies, including postings with their own date, and all query instants",
  "Running balances depend on the whole history of an account; the tests contain no history at all.",
  [A], [("running balances", "accounting.go Ledger.Fill"), ("balance at an instant", "accounting.go Ledger.GetBalance")],
  [("Account.Splits", "postings of the account, chronologically sorted", T), ("Split.Balance", "balance after the posting", T)],
  ["Ledger.Accounts", "Ledger.GetBalance"])

p("C03", "The books balance at every instant",
  """At every instant, the balances of all the accounts of an opened ledger (the transfer account included) add up to what the
  transactions dated at or before it leave (zero in every currency, except for exchanges and priced postings), even if some postings
  have a date of their own, before or after the date of their transaction. The transfer account, which always ends at zero, holds for each
  posting with its own date the opposite amount at that date and the same amount at the date of the transaction.""",
  ["inputs", "histories"], "all histories of transactions with any assignment of own dates to postings, and all instants",
  "Needs histories with own-dated postings in every relative order; no test has one.",
  [A], [("transfer account splits", "accounting.go Ledger.Fill (end)")],
  [("TransferAccount", "account holding the money in transit", T)], ["Ledger.GetBalance", "Ledger.Accounts"])

p("C04", "Balance assertions are enforced exactly",
  """A journal opens only if every balance assertion in it is true: right after the asserted posting, in the chronological order of its
  account, the account holds exactly the asserted amount of the asserted currency (zero if it holds none of it), whatever it holds in other currencies;
  otherwise it is refused with an error naming the file and line of that posting. A posting with an assertion and no amount gets exactly the
  amount, in the asserted currency, which makes the assertion true, and it then counts as any other amount when balancing its transaction.
  True assertions never cause a refusal.""",
  ["inputs", "histories"], "all histories of transactions mixing explicit, empty and asserted postings over several accounts and currencies",
  "The truth of an assertion depends on the whole previous history of the account; no test has an assertion.",
  [A, PR], [("checking assertions", "accounting.go Ledger.Fill"), ("reading assertions", "parser.go readJournal")],
  [("Ledger.Assertions", "asserted balance after a posting", T)], ["accounting.Open"])

p("C05", "Printing a ledger and reading it back gives the same ledger",
  """The text printed for any opened ledger can be read back without any complaint about syntax and gives the same accounts (with codes), currencies (with
  format and ISIN), default currency, transactions (times to the second, descriptions, postings with their amounts, own dates, total prices and assertions, in the same order),
  running balances, comments and set of market prices. Printing what was read back gives the same text, except for repeated automatic price lines.
  A copy of the ledger prints the same text as the ledger.""",
  ["inputs", "programs"], "all ledgers that can be read from a journal written with the documented grammar",
  "No test prints a ledger; the property relates two big functions over all journals.",
  [L, PR], [("printer", "ledger.go Export"), ("reader", "parser.go readJournal")], observe=["ledger.Export", "accounting.Open", "cmd/ledger print", "cmd/acc"])

p("C06", "Amounts are read exactly or refused",
  """A number in a journal is read as exactly the decimal number written, in any of the documented layouts (sign; currency before or after the number, with or
  without space; thousand and decimal signs), or its line is refused with a message: never as a different number. Refused are: a single mark with one to three digits before and exactly three after, when neither
  sign is known for that currency (ambiguous); groups that are not of three digits; two decimal signs or a third kind of mark; more than 8 decimals; numbers that do not fit in 64 bits after scaling. The thousand and decimal signs of
  a currency stay as first established, its layout and number of decimals are those of its first amount, and a refused amount changes nothing.""",
  ["inputs", "histories"], "all strings of digits, marks and signs up to a length, and all sequences of them for one currency",
  "TestGetValue samples 18 strings; the separators are inferred from the history of each currency, so the space is sequences of strings.",
  [PR], [("number reader", "parser.go getValue")], [("Currency.Thousand/Decimal/Precision", "format inferred so far", T)], ["Ledger.Prices", "Split.Value", "log output"])

p("C07", "Amounts are shown exactly",
  """Showing an amount with all its digits gives the exact decimal number, with at least the currency's number of decimals and no superfluous digits beyond them; showing it with default digits
  gives it truncated toward zero to exactly the currency's number of decimals. The sign goes right before the digits, integer digits are grouped by three from the right with the thousand sign, the decimal sign is the currency's ("." if none), and the currency name goes
  before or after, with or without a space, as its format says, or not at all if units are not requested. A balance is shown as its amounts separated by ", ", or "0" when empty.""",
  ["inputs", "configurations"], "all amounts and all currency formats (precision 0 to 8)",
  "TestCurrencyString samples about 30 pairs of amount and format.",
  [A], [("GetString", "accounting.go Value.GetString")], observe=["Value.String", "Value.FullString", "Value.GetString", "Balance.String"])

p("C08", "A clone is equal to its ledger and independent from it",
  """A clone of an opened ledger has the same accounts, transactions, postings, balances, currencies, prices, assertions, posting prices, comments and default currency, linked among themselves exactly
  as in the original (including amounts whose currency has no name). It shares no modifiable data with the original: nothing done to one of them is seen in the other.""",
  ["inputs", "histories"], "all ledgers that can be opened, and all modifications of any field of either copy",
  "Needs a comparison of whole object graphs for ledgers using every feature; no test clones.",
  [A], [("Clone", "accounting.go Ledger.Clone")], observe=["Ledger.Clone"])

p("C09", "Ledgers opened in the same process do not affect each other",
  """What a ledger contains depends only on its journal: neither opening, refilling, cloning, modifying nor failing to open other ledgers before, between or at the same time,
  in the same process, changes what a ledger contains or will contain.""",
  ["histories", "schedules"], "all interleavings of open/refill/clone/modify operations on several ledgers, sequential and concurrent",
  "Tests open no ledgers; cross-talk needs two of them using the feature with shared state.",
  [A, T], [("per-ledger transfer account", "accounting.go Ledger.Fill"), ("Backend per Open", "accounting.go Open")], [("TransferAccount", "package-level account", T)], ["accounting.Open"])

p("C10", "Currency conversion follows the price list and always ends",
  """Converting to the same currency returns the same amount. With prices between the two currencies, conversion uses the price at that instant, the linear interpolation between the previous and
  the next one, or the nearest one when there is none on one side; otherwise it converts through a chain of such conversions without repeating currencies. It returns an error exactly when no chain of prices
  leads from one currency to the other, there is no target currency, or an amount on the way is too big; it ends for every price list, and the result is within rounding of one hundred-millionth per step.""",
  ["inputs"], "all price lists (any graph of currencies, cycles included), instants, amounts and pairs of currencies",
  "No test converts; non-termination depends on the shape of the graph of prices.",
  [A], [("Convert", "accounting.go Ledger.Convert"), ("Mul", "accounting.go Value.Mul")], [("Ledger.Prices", "prices sorted by time", T)], ["Ledger.Convert"])

p("C11", "Opening is deterministic",
  """Opening the same journal always gives the same ledger, with everything in the same order, and printing, cloning or reporting it gives the same bytes, whatever the
  iteration order the Go runtime chooses for maps.""",
  ["schedules", "inputs"], "all map iteration orders the runtime can choose during opening, cloning, printing and converting, for journals using every feature",
  "Map iteration order is random per run: a passing run says nothing about the other orders.",
  [A, L], [("maps keyed by split", "accounting.go Fill/Clone")], [("Ledger.SplitPrices, Assertions, Comments", "maps keyed by pointers", T)], ["ledger.Export", "Ledger.Prices"],
  "none in /repo: map iteration offsets are chosen through an overlay of the Go runtime made at check time")

p("C12", "Recalculating a ledger changes nothing",
  """Recalculating the automatic data of an opened ledger or of its clone, any number of times, succeeds and leaves it exactly as it was: same accounts and order, levels, children,
  postings, balances, transfer postings and prices, with the same objects. After changes through the API (a posting's amount, date or account, added or removed transactions, an account's name or parent), recalculating gives the same as reading a journal with those changes.""",
  ["inputs", "histories"], "all opened ledgers, and all short sequences of recalculate/clone/modify operations",
  "Tests never call Fill; the property is about repeating it.",
  [A], [("Fill", "accounting.go Ledger.Fill")], observe=["Ledger.Fill"])

p("C13", "No journal can crash or hang the program",
  """Whatever bytes a journal contains, opening it ends, and either gives a ledger or is refused with an error or a diagnostic naming the file; it never panics, loops forever nor overflows the stack.
  A ledger that was opened can always be printed, cloned, queried, converted and refilled without panic.""",
  ["inputs"], "all sequences of well and badly formed lines, and all short sequences of tokens inside each kind of line",
  "The tests feed the amount reader only, with 18 strings.",
  [PR, A, L], [("readJournal", "parser.go"), ("Fill", "accounting.go"), ("Export", "ledger.go")], observe=["accounting.Open", "ledger.Export"])

p("C14", "Every journal line is either in the ledger or reported",
  """Each line of a journal which is not blank nor a comment is either represented in the ledger (an account, currency, price, default currency, transaction, posting or included file) or reported in the log with its file and line number, and a reported line
  changes nothing else: it is not partly applied, and lines after it are not attached to what was before it. Every account, transaction, posting and price knows the file and line where it was defined. A price or transaction line which breaks chronological order, or a directive for an account which already exists, ends the program with a message naming file and line.""",
  ["inputs", "histories"], "all sequences of lines of all kinds, well and badly formed, in every context",
  "The reader is a state machine over lines; no test reads a journal.",
  [PR], [("line dispatch", "parser.go readJournal")], [("lastLine", "what indented lines refer to", "parser.go")], ["log output", "ID.String()", "Ledger fields"])

p("C15", "Including files is the same as having their text in place",
  """Splitting a journal into files joined by include lines, at any depth (every file beginning with an unindented line), gives the same ledger as the whole text in one file, except that positions refer to the file and line where each
  thing really is. Included names are relative to the directory of the including file (absolute ones are used as they are), and a file that cannot be included (missing, or including itself directly or not) is reported with file and line, reading going on after it.""",
  ["inputs", "configurations"], "all ways of splitting journals into trees of files in several directories, including cycles and missing files",
  "No test reads files.",
  [PR], [("stack of files", "parser.go Scanner")], [("Scanner.files", "files being read", "parser.go")], ["accounting.Open", "log output"])

p("C16", "Opening gives the complete data or an error",
  """If any file needed by a back-end is missing (except txtdb's transactions file), unreadable, fails while being read at any point or has lines too long to read, opening returns an error: never an empty or partial ledger. The way the operating
  system splits the data into reads makes no difference. When opening fails after connecting, the connection is closed. Whether it
  fails or not, no file that was read is left open.""",
  ["fault_sequences", "inputs"], "every read fault at every byte of every file involved, and every chunking of reads up to a bound",
  "Tests never read files nor inject faults.",
  [A, PR, L, TX], [("error handling of Open", "ledger.go, txtdb.go Open"), ("Scanner.Line", "parser.go")], observe=["accounting.Open"],
  hook="none in /repo: read faults are injected through an overlay of the os package made at check time")

p("C17", "txtdb files are read as they say",
  """Opening a txtdb directory gives every account of its accounts file (id, name, code, parent wherever it is defined; roots if the parent does not exist) sorted by full name in tree order, and groups the lines of the transactions file into transactions: consecutive
  movements until their sum is zero, with date and time, description of the first line, exact amounts in hundredths, own dates of lines which differ, asserted balances for lines with a balance but no amount, and an identifier of its own each. Wrong
  lines are skipped without affecting the others, and a movement which for that reason is not in the ledger is reported in the log with the number of its line.""",
  ["inputs", "histories"], "all accounts files (every order and parent relation) and all sequences of transaction lines, well and badly formed",
  "The package has no tests.",
  [TX], [("reader", "txtdb.go conn.read")], observe=["accounting.Open(\"txtdb:...\")"])

p("C18", "The registry of back-ends is consistent under concurrency",
  """A back-end name is registered at most once: of any number of concurrent or sequential registrations of a name exactly one succeeds and all the others panic, as does registering nil, and the registry keeps working afterwards.
  Opening uses the back-end named by the scheme or, without a scheme, the first registered among ledger, txtdb and postgres, with the whole data source; it fails with an error, calling no back-end, if there is none, and passes on the back-end's own error. Concurrent opens and registrations never corrupt the registry nor deadlock.""",
  ["schedules", "histories"], "all interleavings of registrations and opens by up to three goroutines, and all histories of them",
  "Tests never register nor open; interleavings are out of reach of a test.",
  [A], [("drivers map and its mutex", "accounting.go Register, Open")], [("drivers", "registered back-ends", A)], ["accounting.Register", "accounting.Open"],
  "none in /repo: the sync package is replaced by a controlled one in an overlay made at check time")

p("C19", "Queries return exactly what matches, or what the back-end says",
  """Looking up an account by ID, the transactions of an account or those between two instants (both included) returns exactly the matching elements, each once, in chronological order, and nothing else. If the connection implements an operation it is used, with the same
  arguments and results; otherwise the fallback is used, or an error is returned for operations which modify the ledger, and flushing succeeds. Closing and refreshing reach the connection.""",
  ["inputs", "configurations"], "all subsets of operations a connection may implement, all ledgers, IDs and pairs of instants",
  "No test calls these methods.",
  [A], [("Account, TransactionsInAccount, TransactionsInInterval, New*, Edit*, Flush, Close, Refresh", "accounting.go")], observe=["Ledger methods"])

p("C20", "Reports of the ledger command are right for every period and filter",
  """For any journal, period, set of account name filters, pivot and currency filter: balance shows for each selected account its balance at the end of the period, counting each account once and omitting only zero ones, and the exact total; incomestatement shows what the accounts under Income and under Expense
  (with filters: the selected ones whose names begin with Income or Expense) changed in the period, and the net; delta shows the exact change of the selected accounts in the period (at market value: final balance at final prices minus initial balance at initial prices), negated on request; price shows the conversion to the default currency at the end of the period; stats and accounts count and list what there is. Sums too big for an amount are never shown wrong: such a report may fail instead, with a message. Begin
  and end dates given as year, month or day cover the whole of it. If there is no journal, it cannot be opened, or the command, an option or a date is wrong, it fails with a message and shows nothing else.""",
  ["inputs", "configurations"], "all combinations of command, begin, end, pivot, currency, name filters and flags over journals using every feature",
  "cmd/ledger has no tests, and options interact.",
  [C], [("main2, runBalance, runIncomeStatement, runDelta, runPrice, runStats, runAccounts, doPivot", "cmd/ledger/main.go")], observe=["stdout of cmd/ledger"])

p("C21", "Commands in one command line do not affect each other",
  """Running several commands separated by "--" in one invocation of the ledger command prints exactly what the same commands print when run separately on the same journal, one after another, whatever
  periods, pivots and filters each of them has.""",
  ["histories"], "all sequences of commands with options",
  "cmd/ledger has no tests; interference needs two commands in a certain order.",
  [C, A], [("main", "cmd/ledger/main.go"), ("Clone", "accounting.go")], observe=["stdout of cmd/ledger"])

p("C22", "Accounts form a consistent tree",
  """In an opened ledger every account named in a directive or posting, and every ancestor implied by its name, exists exactly once; each one comes after its parent and before the next account outside its parent's subtree, siblings keep the order in which they first appear,
  each one is listed once among its parent's children, its level is its number of ancestors, and its full name is its ancestors' names and its own joined by ":". The transfer account is the last one, and sorting accounts orders them by full name.""",
  ["inputs", "histories"], "all sequences of account names of several levels, in directives and postings",
  "No test builds an account tree.",
  [A, PR, L], [("Fill", "accounting.go"), ("getAccount", "parser.go"), ("FullName, SortAccounts", "accounting.go")], [("Account.Parent/Children/Level", "the tree", T)], ["Ledger.Accounts"])

p("C23", "Dates are read exactly or refused",
  """A date is accepted exactly when it is a valid calendar date YYYY MM DD, optionally followed by hour, hour and minute or hour, minute and second, with any of - / . _ : as separators, and it gives that UTC instant, or noon when it has no time. Anything else is refused.
  Own dates of postings, prices and transactions all follow this.""",
  ["inputs"], "all calendar days over centuries, all separators and layouts, and all small corruptions of them",
  "No test reads dates.",
  [PR], [("GetDate", "parser.go GetDate")], observe=["ledger.GetDate", "Transaction.Time", "Split.Time", "Price.Time"])

p("C24", "Balances are exact sums",
  """After any sequence of additions and subtractions of amounts and balances, a balance holds exactly the sum for each currency: each currency at most once and never with a zero amount, whatever the order of the operations. Duplicating a balance gives an equal one
  that later operations on either do not affect, and operands are never modified.""",
  ["histories"], "all sequences of Add, Sub, AddBalance, SubBalance and Dup over several balances and currencies",
  "No test uses balances; the entry-removal logic depends on the order of operations.",
  [A], [("Add, Sub, AddBalance, SubBalance, Dup", "accounting.go")], [("Balance", "list of amounts, one per currency", T)], ["Balance methods"])

p("C25", "Market prices implied by transactions are recorded",
  """Besides the prices given in price lines, an opened ledger has exactly two automatic prices, each the inverse of the other to within rounding, for each exchange transaction (at its time) and for each posting with a non-null amount and price (at the posting's time), with the rate at
  which they were exchanged, marked with the comment "automatic" (except those too big for an amount); and no others. All prices are in chronological order, and price lines keep their time, currency and exact value.""",
  ["inputs", "histories"], "all histories of exchanges, priced postings and price lines",
  "No test looks at prices.",
  [A, PR], [("automatic prices", "accounting.go Ledger.Fill")], [("Ledger.Prices", "sorted prices", T)], ["Ledger.Prices", "Ledger.Comments"])

p("C26", "Comments and tags belong to what they are written on",
  """A comment at the end of an account, commodity, price, transaction or posting line, or in an indented line after it, is attached to that very item, in order; recognised tags set the account's code, the currency's ISIN or the posting's own date instead, every other comment is kept whole, and comments
  anywhere else have no effect on the data.""",
  ["inputs", "histories"], "all sequences of items and comment lines, with and without tags",
  "No test reads comments.",
  [PR], [("addComment, getTag", "parser.go")], [("Ledger.Comments", "comments by item", T)], ["Ledger.Comments", "Account.Code", "Currency.ISIN", "Split.Time"])

p("C27", "PostgreSQL databases are read as they are, or refused",
  """Opening a PostgreSQL database gives every account of it (id, name, code and parent), sorted by full name in tree order, and its movements grouped into transactions (consecutive rows of the same
  transaction), with date, description, account and exact value in hundredths, up to the biggest possible amount (bigger ones are refused). If a query fails, the connection is lost or an answer is wrong at any point, or the accounts of a movement or the ancestors of an account are not right, opening returns an error:
  it never panics, never gives an empty or partial ledger, and leaves no connection open.""",
  ["inputs", "fault_sequences"], "all small databases, and a fault after every byte and every row that the server sends",
  "No test uses this back-end; it needs a server, and faults in the middle of an answer.",
  [PG, "backend.go"], [("Open, getAccounts, getTransactions", PG)], [("account, money", "tables read", "backend/postgres/doc.go")], ["accounting.Open"])

p("C28", "The muscular command computes the momentum from the right prices",
  """For each commodity in its arguments, in order, muscular prints the mean, over the given number of measures, of the price at the end date divided by the price one, two... measure periods before, minus one,
  all of them in the default currency and at those very instants; dates without a day or a month finish at their end, and other options do not change it. If there is no price for one of them, or one of the earlier prices is zero, or an argument is wrong, it fails and prints no number.
  Commands separated by "--" do not affect each other.""",
  ["inputs", "configurations"], "all combinations of end dates, periods, numbers of measures, other options and commodities, and sequences of commands",
  "The command has no tests.",
  ["cmd/muscular/main.go"], [("momentum", "cmd/muscular/main.go main2"), ("separation of commands", "cmd/muscular/main.go main")], observe=["output of the muscular command"])

p("C29", "Ledgers of any back-end can be turned into a journal",
  """A ledger opened from a txtdb directory or a PostgreSQL database, written with Export or with the acc command, is a journal which gives the same accounts (with codes), default currency, transactions (times, descriptions, postings with amounts, own dates and assertions, in the same order) and running balances,
  provided its names and descriptions can be written in a journal. The acc command prints exactly what Export writes for any source, and fails, printing nothing in its output, if it cannot be opened.""",
  ["inputs", "configurations"], "all small txtdb directories and PostgreSQL databases, and all the ways of naming sources",
  "No test opens those back-ends nor exports anything.",
  [TX, PG, "backend/ledger/ledger.go", "cmd/acc/main.go"], [("Export", "backend/ledger/ledger.go"), ("acc", "cmd/acc/main.go")], observe=["ledger.Export", "output of the acc command"])

p("C30", "The interactive tables show every account with its balance and movements",
  """The ledger command without a command, and the tacc command, show a table with one row per account, in the order of the tree and with the transfer account, with its full name and its balance after all its movements (also those in the future) up to the end of the period.
  Pressing ENTER on a row shows the movements of that account, and of no other one, in order of time: the date of each one (its own date, not that of the transaction), the description of its transaction, its amount (it may be blank if it shows as 0) and the running balance of the account after it. With -b, -e and -pivot the ledger command shows only the movements in the period and in the transactions selected; balances include what is before the beginning.
  tacc shows the same for journals, txtdb directories and PostgreSQL databases, and fails with a message, showing nothing, if the source cannot be opened or the number of arguments is wrong.""",
  ["inputs", "configurations"], "all small histories in several currencies, with own dates, periods and pivots, in both commands, and all small databases of the other back-ends",
  "No test runs the commands, and an interactive program cannot be run by a unit test.",
  ["cmd/ledger/main.go", "cmd/tacc/main.go"], [("tableAccounts", "cmd/ledger/main.go"), ("tableTransactions", "cmd/ledger/main.go"), ("tableAccounts", "cmd/tacc/main.go"), ("tableTransactions", "cmd/tacc/main.go")], observe=["rows of the tables"])

p("C31", "A data source is the file or directory that it names",
  """accounting.Open of a source which names a journal (a name alone, or after ledger:) or a txtdb directory (after txtdb:) reads that file or directory, and no other one, whatever the characters of its name: absolute or relative to the current directory, with all its characters escaped as in URLs (%20 for a space),
  or as they are if the name has no %, ? or # (nor a colon, in a relative name without ledger: or txtdb:). If it does not exist it fails. The name after include in a journal is taken as it is, escapes not being decoded (without spaces around it, and up to a semicolon), and it is reported in the log if it does not exist.""",
  ["inputs", "configurations"], "all names of a few characters out of those with some meaning in URLs, all of the files existing at the same time, in all the ways of naming them",
  "No test opens a file; URLs treat relative and absolute names, and escaped and raw ones, in different ways.",
  ["accounting.go", "backend/ledger/ledger.go", "backend/ledger/parser.go", "backend/txtdb/txtdb.go"], [("Open", "accounting.go"), ("driver.Open", "backend/ledger/ledger.go"), ("driver.Open", "backend/txtdb/txtdb.go"), ("Scanner.NewFile", "backend/ledger/parser.go")], observe=["accounting.Open", "Ledger.Accounts", "log output"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
