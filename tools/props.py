#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

ECM='src/cells/Cell_ECM/Cell_ECM.hpp'; SPM='src/cells/Cell_SPM/Cell_SPM.cpp'; SPMh='src/cells/Cell_SPM/Cell_SPM.hpp'
DST='src/cells/Cell_SPM/Cell_SPM_dstate.cpp'; TH='src/cells/Cell_SPM/Cell_SPM_thermal.cpp'; DEG='src/cells/Cell_SPM/Cell_SPM_degradation.cpp'
SU='src/StorageUnit.hpp'; MOD='src/modules/Module.cpp'; MODh='src/modules/Module.hpp'; MS='src/modules/Module_s.cpp'; MP='src/modules/Module_p.cpp'
MSh='src/modules/Module_s.hpp'; MPh='src/modules/Module_p.hpp'; BAT='src/system/Battery.cpp'; BATh='src/system/Battery.hpp'
FREE='src/utility/free_functions.hpp'; CYC='src/procedures/Cycler.cpp'; PRO='src/procedures/Procedure.cpp'; STAT='src/types/Status.hpp'
PAR='src/utility/parallelisation.hpp'; CELL='src/cells/Cell.hpp'; COOL='src/cooling/CoolSystem.cpp'; HVAC='src/cooling/CoolSystem_HVAC.cpp'

prop('C01', 'A refused set-point leaves a cell unchanged',
 'When a cell (bucket, equivalent-circuit or single-particle) refuses a new current, terminal voltage, state of charge or state vector, every quantity stored in that cell has the value it had before the call, and the caller receives the refusing status. This holds for every requested value and for every reason the request can be refused.',
 ['inputs','histories'], 'Every requested set-point, every prior state, every refusing status.',
 'Tests refuse a few hand-picked currents and compare one or two quantities afterwards; they cannot cover each field, each refusal reason and each prior state.',
 [ECM,SPM,FREE], [('setCurrent / setSOC / setStates / setVoltage of Cell_ECM', ECM), ('setCurrent / setSOC / setStates of Cell_SPM', SPM)])

prop('C02', 'A refused set-point leaves every unit of a pack unchanged',
 'When a series module, parallel module or battery refuses a new current or state vector because one of its members refuses it, every member that was already changed - the first one included - is given back its own old value before the call returns. The refusing status of the member is always returned to the caller.',
 ['inputs','histories','fault_sequences'], 'Every number of members, every position of the refusing member, every old state.',
 'The tests only check packs of identical cells in which the first member refuses, so restoring the wrong member, or skipping one, goes unnoticed.',
 [MS,MP,MOD,BAT,BATh], [('Module_s::setCurrent rollback loop', MS), ('Module_p::setCurrent', MP), ('Module::setStates rollback loop', MOD), ('Battery::setCurrent / setStates', BAT)])

prop('C03', 'A saved state vector restores exactly the state it was taken from',
 'Reading the state vector of any unit and writing it back restores every stored quantity to its own place: reader and writer of every unit kind agree on which quantities are in the vector, in which order, and how many entries each unit consumes, so that a unit that follows in the same vector reads its own part.',
 ['configurations','inputs'], 'Every unit kind, every nesting of packs, every cell configuration.',
 'A test writes back a vector for one or two small packs; a missing or exchanged entry that has the same value in the samples is not seen.',
 [SPM,SPMh,ECM,MOD,BAT], [('getStates / setStates of every StorageUnit', SU)])

prop('C04', 'A copy is a complete, independent unit of the same kind',
 'Copying any storage unit or cooling system gives an object of exactly the same kind whose every stored quantity equals the original, which shares no changeable part with the original and whose members belong to the copy, not to the original. Later use of either one can therefore never change the other.',
 ['histories','configurations'], 'Every unit kind and nesting; every later operation on either object.',
 'Tests copy a few cell kinds and compare some getters; sharing and wrong ownership only show after particular later operations.',
 ['src/types/Deep_ptr.hpp',MODh,MSh,MPh,BATh,ECM,SPMh,'src/cells/Cell_SPM/Cell_KokamNMC.hpp','src/cells/Cell_SPM/Cell_LGChemNMC.hpp','src/cooling/CoolSystem_HVAC.hpp','src/cooling/CoolSystem_open.hpp'],
 [('copy() of every class; Deep_ptr copy', 'src/types/Deep_ptr.hpp')])

prop('C05', 'Blocking ageing on a unit blocks it on everything inside',
 'Switching degradation and thermal behaviour off (or on) for any storage unit applies the same choice to that unit and to every unit contained in it, at every depth, whichever type of handle the caller uses to reach the unit.',
 ['configurations','inputs'], 'Every nesting of cells, series and parallel modules and batteries.',
 'Balancing is not exercised by the tests, and a block that stops at the top level only shows up as slightly different ageing.',
 [SU,MODh,BAT,BATh], [('setBlockDegAndTherm', SU)])

prop('C06', 'A remembered voltage is never out of date',
 'A unit that remembers its terminal voltage returns the remembered value only if nothing the voltage depends on - current, concentrations, temperature, geometry, resistances, characterisation parameters, or anything in a member - has changed through any operation of the unit since it was computed.',
 ['histories'], 'Every sequence of operations on the unit.',
 'A stale value needs a particular order of a read, a change and another read; tests follow a handful of orders.',
 [SPM,SPMh,DST,'src/cells/Cell_SPM/Cell_SPM_fitting.cpp',MS,MP,MOD,MODh], [('Vcell_valid', SPMh), ('Vmodule_valid', MODh)])

prop('C07', 'A negative time step is refused before anything changes',
 'Advancing any cell or module with a negative time step raises an error, and when that error is raised nothing in the unit or in its members has changed yet. A zero or positive time step is never refused for this reason.',
 ['inputs'], 'Every negative time step, every unit kind and prior state.',
 'No test advances with a negative step.',
 [ECM,DST,MS,MP], [('timeStep_CC', SU)])

prop('C08', 'Every step advances time and throughput by exactly its own amount',
 'Each sub-step of a cell advances its age by the step length in seconds, its charge throughput by the magnitude of the current times the step in hours and its energy throughput by that charge times the cell voltage, and moves the state of charge by minus that signed charge over the capacity. No other operation than restoring a state vector changes these counters.',
 ['inputs','histories'], 'Every current sign and size, step length and number of sub-steps, every cell kind.',
 'Tests compare a few throughputs at coarse tolerance; a wrong unit in one branch, a missing absolute value or a counter updated once per call can hide.',
 [ECM,DST], [('timeStep_CC cumulative counters', DST)])

prop('C09', 'A unit belongs to at most one pack and knows which',
 'A pack accepts a unit only if the unit has no other owner, refuses the whole request with an error otherwise and leaves every unit untouched in that case; after acceptance each member names the pack as its owner and the number of cells and contact resistances of the pack matches its members.',
 ['inputs','histories'], 'Every list of units, any of which may already have an owner.',
 'Tests connect fresh units only.',
 [MOD,BAT,SU], [('Module::setSUs', MOD), ('Battery::setModule', BAT)])

prop('C10', 'Pack quantities follow the circuit',
 'A series module reports the sum of its members\' voltages (less contact drops), open-circuit voltages, limits and resistances, one member\'s current and the smallest capacity; a parallel module reports the sum of its members\' currents and capacities, the highest of their lower voltage limits and the lowest of their upper limits; a battery multiplies its module\'s voltages by its series count and its currents and capacity by its parallel count. Every member counts exactly once, and the highest and lowest cell voltages and the hot spot are extremes over all members.',
 ['configurations','inputs'], 'Every number and mixture of members, every state.',
 'Tests use two to five mostly identical members, for which sum, first, maximum and mean are easily confused.',
 [MS,MSh,MP,MPh,MOD,MODh,BATh,'src/utility/slide_algorithms.hpp'], [('pack getters', MSh), ('transform_sum / max / min / mean','src/utility/slide_algorithms.hpp')])

prop('C11', 'The voltage check classifies every voltage correctly',
 'Checking the voltage of a cell reports failure to compute when the voltage cannot be computed or is not positive; success inside the operating window (widened by the tolerance); a safety violation when the voltage is below the lower safety limit while discharging or above the upper safety limit while charging; an operating violation when it is only outside the operating window in those directions; and success otherwise.',
 ['inputs'], 'Every voltage, every ordering of the limits, every current sign.',
 'Tests reach a few voltages; each of the four limits is compared in one direction only for one current sign.',
 [FREE,CELL], [('free::check_voltage', FREE)])

prop('C12', 'Operations that promise not to fail cannot end the program',
 'An operation declared never to raise an error does not let any error raised inside it, or inside an operation it uses on any kind of unit, escape and end the program.',
 ['inputs','fault_sequences'], 'Every unit kind, every error raised anywhere below.',
 'The errors concerned need abnormal states that no test produces.',
 [CELL,MOD,BAT,DEG,SPM], [('noexcept functions', CELL)])

prop('D01', 'Every documented degradation choice has a model and others are refused',
 'For each degradation mechanism the documented identifiers select a model, identifier zero contributes nothing, and every other identifier raises an error before any result of that mechanism is used. The options for porosity and diffusion effects likewise accept only zero and one.',
 ['configurations'], 'Every combination of identifiers, including out-of-range ones.',
 'Tests pick a few valid combinations and never an unknown identifier.',
 [DEG,'src/cells/Cell_SPM/param/DEG_ID.hpp'], [('Cell_SPM::SEI / CS / LAM / LiPlating', DEG)])

prop('D02', 'Degradation never uses out-of-date mechanical stress',
 'Every degradation model that needs a stress refuses to run unless that same stress has been recomputed since the concentrations last changed; the stress is recomputed in every step whenever a selected model needs it, and changing concentrations or temperature marks it out of date.',
 ['configurations','histories'], 'Every model combination, every order of operations.',
 'Needs the right model combination after a particular order of operations.',
 [DEG,DST,SPM,'src/cells/Cell_SPM/Cell_KokamNMC.hpp'], [('sparam.s_dai*, s_lares*', 'src/cells/Cell_SPM/param/StressParam.hpp')])

prop('D03', 'A blocked unit neither ages nor heats; an unblocked one always does',
 'While degradation and thermal behaviour is blocked, advancing a cell or pack in time changes no degradation quantity, temperature, heat accumulator or thermal clock; while it is not blocked, every step applies the heat generation and all selected degradation models.',
 ['configurations','inputs'], 'Every unit kind, both settings, every step.',
 'Small drifts while blocked are far below test tolerances.',
 [DST,MS,MP,BAT], [('blockDegAndTherm', SU)])

prop('D04', 'Every ageing rate reaches its own quantity, scaled by the elapsed time',
 'In an unblocked step each aged quantity of a single-particle cell changes by its own rate, the sum of the contributions of all selected mechanisms, times the step length times the number of sub-steps; in every sub-step each concentration changes by its own rate times the step length. No contribution is dropped, applied twice or applied to another quantity.',
 ['inputs','configurations'], 'Every model combination, state, step length and number of sub-steps.',
 'Contributions are tiny in one step; tests look at qualitative ageing after few cycles.',
 [DST,DEG], [('dState_degradation, dState_diffusion, timeStep_CC', DST)])

prop('D05', 'Heat collected between thermal updates is used exactly once',
 'Whenever the thermal balance of a cell or module is evaluated, the heat and time collected since the previous evaluation are consumed and reset, on success as well as when the evaluation fails with an error, and a cell adds that heat to its lifetime total exactly once.',
 ['inputs','fault_sequences'], 'Every evaluation, including failing ones.',
 'No test makes the thermal balance fail and continues.',
 [TH,MOD], [('Therm_Qgen, Therm_time, Therm_Qgentot', TH), ('therm.time, therm.Qcontact', MOD)])

prop('D06', 'Impossible temperatures and mismatched thermal clocks are reported',
 'A computed temperature outside the allowed range, or not a number, is never stored or returned as a result but raises an error, and a coupled thermal balance whose elapsed time differs by more than a second from the caller\'s raises an error instead of being evaluated.',
 ['inputs'], 'Every computed temperature including not-a-number, every pair of clocks.',
 'No test drives a cell or coolant outside its temperature range.',
 [TH,MOD,COOL,BAT], [('thermalModel_*', TH), ('CoolSystem::setT', COOL)])

prop('D07', 'Cooling control follows the selected strategy',
 'A cooling system decides flow and air-conditioning power from the temperature its strategy names (local hot spot, global hot spot or coolant): on/off strategies switch on at or above their upper and off at or below their lower threshold and keep their setting in between, proportional strategies scale with the excess over their reference using their own gain and never go negative, and an always-on strategy never changes the flow.',
 ['inputs','histories','configurations'], 'Every strategy, every pair of temperatures, every previous setting.',
 'Tests run strategy 1 or 5 with few temperatures.',
 [COOL,HVAC,'src/cooling/CoolSystem_open.cpp'], [('CoolSystem::control', COOL), ('CoolSystem_HVAC::control', HVAC)])

prop('D08', 'Operating energy and losses are handed over exactly once',
 'Reading the cooling load of a pack returns the operating energy of its own cooling system plus that of all packs inside and clears each counter after it was read; every thermal step adds its operating energy to these counters. Converter losses are added to the resettable and the lifetime counter in each step, and reading the resettable one returns it and clears only it.',
 ['histories','configurations'], 'Every nesting and every sequence of steps and readings.',
 'The reported loads are not compared with anything in the tests.',
 [MOD,BAT,COOL,HVAC,'src/cooling/CoolSystem.hpp'], [('getCoolingLoad, reset_Eoperation', MOD), ('convlosses', BAT)])

prop('E01', 'The cycler reports the true reason why it stopped',
 'A constant-current phase reports the voltage limit only when the voltage passed the limit in the direction of the current, the time limit only when the requested time has elapsed, and otherwise the status of the operation that failed; a constant-voltage phase reports the current limit only when the voltage is at its set value with a current below the limit, the small-current status when the current vanished away from the set value, and an unsafe voltage always ends it.',
 ['inputs','histories'], 'Every current, limit and unit behaviour.',
 'Tests check the reason for a handful of scripted cycles.',
 [CYC], [('Cycler::CC / CV / rest / setCurrent', CYC)])

prop('E02', 'Throughput reported by a cycle covers every step taken',
 'Every time step taken by a constant-current, constant-voltage or rest phase adds its whole duration, and (except at rest) the charge and energy moved in it, to the caller\'s counters before the phase can return normally; a combined phase reports the sum of its two parts. Counters passed in are increased, never overwritten by a single phase.',
 ['inputs','histories'], 'Every phase, step size and stopping reason.',
 'Tests compare the charge of some cycles with the cell counters, not time or energy of all phases.',
 [CYC], [('th in Cycler::CC / CV / rest / CCCV_with_tlim', CYC)])

prop('E03', 'A failed operation is never taken for a success',
 'A status returned by a unit or by the cycler is always looked at: it is returned, compared or deliberately overridden by a documented recovery, never silently dropped, and no status that stands for a failure is turned into success on the way to the caller.',
 ['fault_sequences','inputs'], 'Every call of a status-returning operation, every failing status.',
 'Tests seldom let an inner operation fail.',
 [CYC,PRO,MP,MS,MOD,FREE,BAT], [('callers of Status functions', STAT)])

prop('E04', 'A capacity test leaves the tested unit as it found it',
 'Measuring the capacity of a unit returns the charge of the full discharge and always puts the unit back to the state it had before the test, whether the test completes or not.',
 ['histories','fault_sequences'], 'Every unit, initial state and failing phase.',
 'Tests look at the returned capacity, not at the state afterwards.',
 [CYC], [('Cycler::testCapacity', CYC)])

prop('E05', 'Balancing always gives ageing back',
 'When a procedure balances a pack it blocks ageing before the first balancing current flows and unblocks it afterwards on every way out, including failures, and it balances every cell of every kind at every depth.',
 ['fault_sequences','configurations'], 'Every pack, every failing cell.',
 'Balancing is disabled in most tests.',
 [PRO], [('Procedure::balanceCheckup / rebalance', PRO)])

prop('F01', 'Result files have one column per heading and one row per record',
 'In every result file that has a heading line the number and order of the columns written for each record is the number and order of the headings, and time-series files break lines exactly after each complete record.',
 ['configurations','inputs'], 'Every record and data-storage setting.',
 'Tests never read the files back.',
 [PRO,FREE,MODh,'src/types/data_storage/CellDataWriter.hpp','src/types/data_storage/CellDataStorage.hpp'], [('write_data, checkUp, checkMod, writeThroughput', PRO)])

prop('F02', 'Collected data is written once, into the results folder',
 'Data collected in memory is written out in the order collected, is cleared only after it was written, is not written twice, is appended to (not overwriting) earlier output of the same run, and goes to the configured results folder; a file that cannot be opened raises an error or leaves the data in memory.',
 ['histories','fault_sequences'], 'Every sequence of storing and writing, every open failure.',
 'Tests never read the files back or make opening fail.',
 [FREE,MODh,PRO,'src/cooling/data_storage/CoolSystemData.cpp','src/cooling/data_storage/CoolSystem_HVACData.cpp'], [('write_data, openFile', FREE)])

prop('F03', 'A histogram counts every sample exactly once',
 'Every sample added to a histogram increases exactly one bin by one: the first bin for samples below the range, the last for samples above it, and otherwise the bin whose edges enclose it, and no sample can touch memory outside the histogram, even one of no size.',
 ['inputs'], 'Every sample value, every histogram.',
 'No test adds samples outside the range or to an empty histogram.',
 ['src/types/Histogram.hpp'], [('Histogram::add', 'src/types/Histogram.hpp')])

prop('F04', 'Interpolation never reads outside its table',
 'Interpolating a table returns the tabulated end value outside the range or, when asked to check bounds, reports below and above separately as an error; inside the range it combines two neighbouring entries that exist.',
 ['inputs'], 'Every abscissa and table, equidistant or not.',
 'Tests use a few tables and no bounds failures.',
 ['src/utility/interpolation.hpp','src/types/XYdata.hpp'], [('linInt_noexcept, linInt', 'src/utility/interpolation.hpp')])

prop('F05', 'A data file that cannot be read is an error, never an empty table',
 'Every reader of an input file checks that the file could be opened before it reads from it and raises an error otherwise, and never stores more entries than its table has.',
 ['fault_sequences','inputs'], 'Every reader and file.',
 'Tests only read the files delivered with the program.',
 ['src/utility/io/read_CSVfiles.hpp'], [('loadCSV_*', 'src/utility/io/read_CSVfiles.hpp')])

prop('G01', 'Parallel execution runs every task exactly once and waits for all',
 'Distributing n tasks over workers runs each of the n tasks exactly once whatever the number of workers or processors, returns only after every worker has finished, and passes an error raised by a task on to the caller instead of ending the program.',
 ['schedules','configurations','fault_sequences'], 'Every n, worker count and processor count; every schedule.',
 'Tests run on one machine with one processor count and no failing task.',
 [PAR], [('run', PAR)])

prop('G02', 'Members stepped in parallel do not touch each other',
 'Advancing one member of a pack in time changes only that member and what it contains: nothing reachable from it writes to its owner, to a sibling, or to program-wide data that another member may use at the same time.',
 ['schedules'], 'Every schedule of the workers of every pack.',
 'A race needs a schedule; tests see few and cannot see benign-looking ones.',
 [MS,MP,DST,ECM,PAR], [('timeStep_CC and everything it reaches', SU)])

prop('G03', 'Fixed-size storage is never overrun',
 'No list of degradation models, pack member table or state view can be written or handed out beyond its fixed capacity: exceeding it raises an error before anything is stored.',
 ['inputs','configurations'], 'Every number of members and models.',
 'Tests stay far below the limits.',
 ['src/types/SmallVector.hpp',MOD,MS,MP,'src/cells/Cell_SPM/param/DEG_ID.hpp'], [('SmallVector::push_back', 'src/types/SmallVector.hpp'), ('MODULE_NSUs_MAX arrays', MP)])

prop('G04', 'Every status has one meaning everywhere',
 'Every status value has its own message, and the questions asked about a status (successful, failed, acceptable, bad, warning, safe, which limit was reached, voltage limit violated) partition the status values consistently with their severity order.',
 ['inputs'], 'Every status value, every predicate.',
 'Tests use a few of the values.',
 [STAT], [('Status, isStatus*, getStatusMessage', STAT)])

prop('G05', 'Every documented setting gives a program that builds',
 'For every documented value of the compile-time settings - data storage levels of cells, modules, cooling systems and batteries, thermal model, cumulative data and parallelism - the library still compiles.',
 ['configurations'], 'Every documented value of each setting.',
 'Tests are built with one configuration.',
 ['src/settings/settings.hpp'], [('settings', 'src/settings/settings.hpp')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    print(len(P))
