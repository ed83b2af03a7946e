HOOKS={"guard":"none","enable":"no hooks are needed: every monitor observes public API","source_commits":[]}
NOTYET={}
A=" Assurance: no violation in the executions listed in the evidence file; trusts the harness' reference model and generators."
c("C01","lock-step reference-model monitor over random operation histories (overflow-checked build)","Random histories of up to 300 operations, every returned trade compared with an independent price-time-priority book, and clones drained order by order to observe queue priority."+A+" Order ids distinct, quantities positive (amendments to zero included).")
c("C02","lock-step reference-model monitor comparing every view after every operation","All views (best, totals, levels, lookups, ladder, self-check) compared with the reference book after each operation of random histories."+A)
c("C03","reference-model monitor + replay of emitted orders on copies of the book","Sequences of depth views loaded or decomposed; emitted orders replayed on a copy of the previous book."+A+" Snapshot loading exercised on snapshot-fed books only.")

c("C04","differential monitor: decoders against an independent reader of the documented byte positions","Random well-formed messages of all supported kinds decoded fresh, into junk-filled reused buffers and with reduced level counts, every field compared with an independent decoder."+A)
c("C05","hostile-input workload under guard pages and AddressSanitizer in child processes","Truncated, extended, flipped and random byte strings laid against inaccessible pages and in exactly sized heap blocks of an AddressSanitizer build; the parent judges crashes, reports, hangs and panics."+A)
c("C06","differential monitor: numeric layouts and digit parsers against i128 arithmetic","Random layouts and values, each rendered as text and converted through every form, compared with exact arithmetic."+A)
c("C07","differential monitor of time conversions, online clock-monotonicity monitor over threads","Streams of wire times over midnights, every second of the day, random instants against an independent civil calendar, and concurrent clock readings checked for order."+A)
c("C08","reference-model monitor of identifier construction incl. concurrent interning","Random well- and ill-formed codes, equality/hash/text/serde consistency and pointer identity of interned entries created by racing threads."+A)
c("C09","set-model monitor + concurrent delivery-log checker under ThreadSanitizer and AddressSanitizer","Model sequences on one thread; producer/worker races whose delivery logs, admissions, checksums and live-instance counts are checked, in plain, ASan and TSan builds."+A)
c("C10","offline checker over the produced log file and console (exactly-once, order, content), also under ThreadSanitizer","One process per random configuration; the file and console are compared record by record with what the threads logged."+A)
c("C11","offline checker over id logs of racing threads (distinct, gap-free, bounded)","2-7 threads on 1-4 counters of random bounds."+A)
c("C12","differential monitor: features against textbook formulas over random quote streams","Random snapshot streams and sample series, every feature value compared with an independent evaluation."+A)

c("C20","complete enumeration of calendar days against an independent rule engine","Every day of the supported years on every calendar compared with independently computed holidays (own Easter and lunar-calendar computation), random user-added and removed dates, times of day and offsets."+A)
c("C21","differential monitor: adjustment against direct search over the open days","Joint calendars of 1-4 members with random closures, every convention."+A)
c("C22","differential monitor: day counts against their formulas in f64","Random intervals biased to month ends, leap days and year ends; formula, monotony, additivity, reversal."+A)
c("C23","differential monitor: tenor arithmetic against integer calendar arithmetic","Random multi-unit tenors forwards and backwards; one recorded known finding (sub_period_date)."+A)
c("C24","reference-model monitor of schedule generation plus tiling invariants","Random dates, frequencies, conventions, gaps and calendars; every date of every period compared."+A)
c("C25","differential monitor: interpolators and index search against direct evaluation","Random grids, all extrapolation settings, single and batched queries."+A)
c("C26","residual-checking monitor over random matrices; conservation checks","Reconstruction error, refusal of invalid input, conserved totals and moments, read-back of formatted numbers."+A)
c("C27","lock-step shadow curve in f64 over random shift and date-move histories","Nodes, factors, forward rates, batches, refused queries after every step; one recorded known finding (simple compounding)."+A)
c("C28","lock-step shadow dividend list over random shift and date-move histories","Ratios at random and boundary dates after every step."+A)
c("C29","lock-step shadow market over random evaluation-date routes","Registered prices and dividends compared after each move, routes compared with each other and with the way back."+A)
c("C30","lock-step shadow surface over random shift histories","Constant, interpolated and local volatility surfaces; grid values, held-flat lookups, rectangle shifts and undo."+A)

c("C31","differential monitor: bonds against an independent cash-flow list and discounting in f64","Random fixed and floating bonds, stripped and with given amounts, pricing dates before, on and after payment dates; values, listed cash flows, detailed totals, yields solved and priced back."+A)
c("C32","differential monitor: swaps against independently generated legs discounted in f64","All swap kinds and forwards with random exchanges, amounts, gaps and pricing dates; values, exposures, listed cash flows and totals."+A)
c("C33","differential monitor: carry formulas in f64","Equity, currency and treasury-bond futures over random curves, dividends and dates; one recorded known finding (currency-future exposures)."+A)
c("C34","differential monitor: Black formula in f64 plus no-arbitrage checks","Random options incl. quanto, dividends, at expiry and zero volatility; value, parity, bounds and monotonicity."+A)
c("C35","differential monitor: engine results against repricing in a rebuilt, shifted market","Random portfolios of every supported kind in random markets and configurations, every reported number compared; one recorded known finding (treasury-bond futures in an engine)."+A+" Sensitivity to a curve only borrowed on is not reported by the engine and not judged.")
c("C39","differential monitor: coupons against an independent fixing and compounding model","Random indices, gaps in the records, periods past, running and ahead."+A)

c("C13","round-trip monitor over random records; replay of re-read derived orders","Random records of every serializable kind over their whole ranges written, read, compared, written again; books rebuilt from re-read orders."+A)
c("C14","delivery-log monitor over loopback datagrams","Random payloads of 0 to 65507 bytes, bursts and interleavings, sent bytes compared with received text."+A)
c("C36","metamorphic monitor: subsets of measures against each alone, twice in a row","Random portfolios, markets and measure subsets; each number compared with the measure computed alone, the value recomputed after the risk run."+A)
c("C37","differential monitor: parallel groups against one-by-one calculation, over thread pools of 1-8 threads","Random portfolios, category lists and pool sizes, undistributed instruments and failing groups, crowds of concurrent calculations."+A)
c("C38","round-trip monitor over random serializable objects","Every serializable parameter, data, instrument, configuration and result type written, read, compared in fields and behaviour, written again."+A)
c("C40","differential monitor: converted results against scaled fields","Random results, rates, currencies; forth and back; all currency codes and pairs through text, inversion and JSON."+A)
c("C41","differential monitor: portfolio queries against direct filters","Random portfolios of every instrument kind, all queries."+A)
c("C42","statistical monitor: sample moments, quantiles and cross-covariances of recorded paths against the requested normal law","Long paths, many short calls and concurrent threads for random matrices; bounds of 7.5 standard errors, so a bias must exceed a few percent of a standard deviation to be seen."+A)
c("C43","fault-injection monitor: withheld and damaged inputs against the generator's own list of uses","Random portfolios and markets calculated whole or in parallel groups, then with each role of input withheld, damaged, unused ones removed or added, and with empty, expired and unpriceable portfolios."+A)
