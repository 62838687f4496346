X = {
'C01': ('A unit test samples one refusal per operation; the rule covers every exit of every operation of all four cell kinds, for every argument, and every memory cell of the object.',
        'Caught: restore missing for one status, wrong state restored, SPM counters not restored, voltage computed of a refused state kept, exception exit with changed states.'),
'C02': ('The position of the refusing member, the member count and the reason are all symbolic: a rollback that works for the tested pack of 2-3 cells but not for the first, or not for the member after the refusal, is a path of its own.',
        'Restoration is recognised by data flow (value loaded from a buffer filled from the same member index before), not by the shape of the loop; `redistributeCurrent`, which intentionally returns non-refusing statuses after partial work, is judged on refusing statuses only. Caught: first member not restored, rollback range off by one, old values saved after the change, status of the rollback returned.'),
'C03': ('The length of the pack, the depth and the values are symbolic: order, coverage and cursor are compared for every number of members.', 'Caught (24 mutations): entries left out or added, inserted at the front, other state block, one quantity kept, cursor short / long / not advanced, temperature first / missing / of another entry, members skipped or in reverse on one side. Quiet on push_back loops, back_inserter, index loops, subspan, helper. False alarms corrected: entries appended in a loop, cursor moved before the temperature is set.'),
'F02': ('Every writer, every number of records, every call history: the typestate is over all paths, including those where a file does not open, which no test takes.', 'Caught: records not dropped, dropped first, dropped only when there are many, last record left out, an early break, records skipped, a truncating mode (in five writers, also under a condition), another folder, the test for an open file removed or inverted, records dropped although the file did not open, new records put in front, records dropped while collecting, the first member skipped, members not reached through Battery and Cycler. Quiet on index and pointer loops, guards for an empty table, is_open instead of the operator, a helper that opens, a path composed in steps. Not decided: a loop over the members that always asks the first.'),
'F01': ('Every record, every length of the state list and every number of records; no test reads a result file.', 'Caught: wrong record width in the writer or the store (cells and modules), a number stored only sometimes, separator off by one, first entry left out, separator of the old kind, heading removed, two headings or two columns exchanged, a column more for some cells only, missing / doubled / trailing separator, missing end of line of the heading or of the record, a column written to the other file, a field left out of the throughput and cooling tables, exchanged fields when they are collected. Quiet on branches instead of a conditional, strings instead of characters, std::endl, index loops, i % N == N - 1. Not decided: a table walked by pointer with a counter of its own.'),
'G02': ('Every function a step can reach, every input and every interleaving; a race shows in a test only by luck of the scheduler.', 'Caught: static counter, static scratch state, static memo of the last step or of the last look-up (each in a function several calls below the step), a write to the discretisation that all cells share, to the table a cell views, to the owner, a task that writes the pack, a variable captured by reference, or another member. Quiet on thread_local data, a result table written at the index of the task, helper lambdas, at(), pointer loops. Sharing through shared_ptr (blockers named in SYNC) is left out.'),
'C04': ('Every member of every class, including ones added later (the layout is read from the debug information); a test compares a handful of getters.', 'Caught (24 mutations): member reset, emptied or taken from elsewhere in the copy, copy of the base class, the original returned, both owning one object, members not adopted / first or last only / by the wrong owner, Battery cells not adopted on a path. Not decided: a copy made by a default constructor followed by assignments (its members are reported undecided unless a container is left out). Quiet on index/backwards/for_each loops, unique_ptr, reset forms of Deep_ptr.'),
'C05': ('Handle types and depth quantify over all call paths; the vtable query decides dispatch, the member loop is covered by a proved index range.', 'Caught: non-virtual override, loop that skips a member, own flag not stored. False alarm corrected in C06: setBlockDegAndTherm was first counted as changing members that the voltage depends on.'),
'C06': ('The dependency set is computed from V() itself, so a new dependency (a new field read by V) extends the obligation to all operations automatically.', 'A path that gives back both the old states and the old flag is accepted (restored-state handling).'),
'C07': ('All implementations found in the vtables, with dt an arbitrary negative or non-negative number.', 'A pack passes the step on before it changes anything or checks it itself; both shapes are accepted.'),
'C08': ('The increments are closed forms for every dt, number of steps, current and state.', 'The number of steps is compared through the trip count, so a loop written as while/for/do, counting up or down, is the same closed form.'),
'C10': ('Packs with any number of members; tests use 2 or 3.', 'Contact resistance of the parallel ladder is compared as a recurrence.'),
'C11': ('Every ordering of the voltage, four limits and the sign of the current including equality and NaN.', ''),
'C12': ('Escape of an error through noexcept is invisible to tests until it ends the program.', 'Errors are propagated by type; formatted output and strings are assumed not to throw.'),
'D01': ('All 256 values of an identifier for each of the mechanisms.', 'Undefined identifiers must raise on every path (also when messages are switched off).'),
'D02': ('The order of updates is a property of all histories: typestate of the flag over every operation.', 'False alarm corrected: a time step of zero sub-steps changes no concentration and needs no recomputation.'),
'D03': ('Both values of the flag, all time steps, all member counts; found the repeated accumulation of contact heat (fix 58ff35b).', ''),
'D04': ('Symbolic rates: each sum is compared for every value of its summands, each model identifier separately.', 'Constants of the individual laws are not compared with the literature (no oracle in the repository).'),
'D05': ('Includes every error exit of the balance in all three compile-time thermal models; the tests only run T_MODEL 0.', 'False alarm corrected: values at landing pads were merged without the clean-up that had run on one of the edges.'),
'D06': ('NaN and error paths of T_MODEL 1 and 2, which the test build does not even compile in.', 'The statement is limited to coupled balances for the clock: an uncoupled cell has no second clock to compare with.'),
'D07': ('Every strategy x every order of temperatures and thresholds including equality.', ''),
'D08': ('Handing over once is a property of the reset order in arbitrary nesting; each repetition of the member loop is judged by its own effect.', 'False alarms corrected: a null member is skipped, `initialise` of a histogram is no counter.'),
'E01': ('All paths to each return of the four phases; the time stepped is a ghost counter.', 'A reading is only valid until the unit is operated again (version numbers); NaN readings satisfy no limit.'),
'E02': ('Any number of repetitions: the counters are compared with a ghost counter by their increments per repetition.', ''),
'E04': ('Includes exits by error from any phase and from the set-points in between.', 'That writing back a state vector restores the unit is C03.'),
'E05': ('Every exit of every procedure that balances, errors of any type included; the recursion for every concrete class.', 'Path joins with null pointers needed the null pointer to be the number zero in the term language.'),
'F03': ('All samples, bins of any size (also no range and no bins), NaN included.', ''),
'F04': ('Tables of any length >= 1 and any x.', 'Search loops are handled by induction over the loop-carried index.'),
'F05': ('Stream state is not observable in a test without every way a file can fail.', ''),
'G03': ('Packs of any size: the bound on members is proved at the only function that stores them, and used for every table.', 'Found: setSUs accepted more members than the tables can hold (fix c044c9b).'),
'G04': ('All enumerators, including those no test produces.', ''),
'G05': ('Every documented value of each setting (thorough: every pair); the tests build one configuration.', 'A compile-time witness: the type checker is the deciding step.'),
}
