#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, tests, files, mech, tech=None, level='model_checking', note='', na=None,
         observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, tests=tests, files=files,
                  mech=mech, tech=tech, level=level, note=note, na=na, observe=observe))


BMC = 'symbolic execution of the generated RTL (own Verilog-to-SMT encoder) + z3 BMC, counterexamples replayed in Icarus'
TV = 'SMT equivalence of the generated RTL against an independent reference over all input values (z3)'

prop('C01', 'Emitted expressions compute what the Python expression says',
     'For every hardware expression built with the Python operators and helper constructors (arithmetic, comparison, '
     'bitwise, logical, shift, reduction, selects, slices, concatenation, replication, conditional, signed casts, n-ary '
     'and multiplexer helpers), the generated Verilog text, read with Verilog precedence, width and sign rules, has the '
     'value of the same operators applied in the same tree order to the same operands. This holds for reflected '
     'operators with Python ints on the left and for arbitrarily nested operands.',
     ['inputs', 'programs'], 'all operand values of the stated widths; all operator pairs nested to depth 2 in either position',
     'core tests compare the text of a handful of expressions; no test evaluates them, and operator nesting and operand values are sampled.',
     ['veriloggen/core/vtypes.py', 'veriloggen/verilog/to_verilog.py'],
     [('operator overloading and operator node classes', 'veriloggen/core/vtypes.py'),
      ('expression printing with parentheses', 'veriloggen/verilog/to_verilog.py')], TV, 'translation_validation')

prop('C02', 'Integer constants keep value, width, base and sign',
     'An integer constant given as a Python int or bool, or as a Verilog-style string (with or without width, base, '
     'sign, underscores or unknown digits), denotes the same value, width and signedness in the generated text and when '
     'its value is read back. Folding a constant expression in Python gives the value Verilog computes for it.',
     ['inputs'], 'all 12-bit values, every base and width form, signed and unsigned; all pairs of small constants per operator',
     'tests print about a dozen literals.', ['veriloggen/core/vtypes.py', 'veriloggen/verilog/to_verilog.py'],
     [('literal parsing and formatting', 'veriloggen/core/vtypes.py')],
     'symbolic (path-forking) execution of the real Python literal code with z3 integers', 'other')

prop('C03', 'Emitted statements execute with their intended control flow',
     'If/elif/else chains, case, casex, unique case, pattern conditionals, for and while loops, blocking and non-blocking '
     'assignments to whole signals, bits, slices, concatenations and array words, functions and tasks, built with the '
     'statement API, execute in the generated Verilog exactly as written: the selected branch, the order and the target '
     'bits of each assignment are the ones the builder calls describe.',
     ['inputs', 'programs'], 'all input and prior-state values of the stated widths, one and two clock steps',
     'tests compare text for one instance of each construct.', ['veriloggen/core/vtypes.py', 'veriloggen/core/function.py',
      'veriloggen/core/task.py', 'veriloggen/verilog/to_verilog.py'],
     [('statement classes', 'veriloggen/core/vtypes.py'), ('statement printing', 'veriloggen/verilog/to_verilog.py')],
     TV, 'translation_validation')

prop('C04', 'Hierarchy, parameters, ports and generate blocks compose correctly',
     'A design composed of module instances (by name, by position, by name matching, with parameter overrides), '
     'copied parameters/ports/signals, submodules, and generate for/if blocks behaves like the same logic written flat with '
     'the parameter values substituted. Every emitted design is legal Verilog in which each port is bound to the signal '
     'the builder named.',
     ['inputs', 'configurations'], 'all input values; parameter values 1..8; port binding styles',
     'tests compare text of one configuration per feature.', ['veriloggen/core/module.py', 'veriloggen/core/submodule.py',
     'veriloggen/verilog/to_verilog.py', 'veriloggen/core/rename_visitor.py'],
     [('module, instance and generate objects', 'veriloggen/core/module.py')], TV, 'translation_validation')

prop('C05', 'Imported Verilog means the same after re-emission',
     'Reading Verilog source text into module objects and emitting it again yields a design with the same ports, parameters '
     'and cycle-by-cycle behaviour as the original source for every input sequence.',
     ['inputs', 'programs'], 'all inputs and all register states for one step (inductive) and bounded runs from reset',
     'tests compare re-emitted text of a few samples with stored text.', ['veriloggen/verilog/from_verilog.py'],
     [('Verilog AST to object visitor', 'veriloggen/verilog/from_verilog.py')], TV, 'translation_validation')

prop('C06', 'Resolving constants and parameters preserves behaviour',
     'Replacing parameters and constant expressions in a module by their values, and constant-folding expressions, '
     'produces a design with the same ports and the same cycle-by-cycle behaviour as the unresolved one.',
     ['inputs', 'configurations'], 'all inputs and register states for one step and bounded runs; several parameter assignments',
     'tests compare text of three designs.', ['veriloggen/resolver/resolver.py', 'veriloggen/optimizer/optimizer.py'],
     [('resolve visitor', 'veriloggen/resolver/resolver.py'), ('constant folding', 'veriloggen/optimizer/optimizer.py')],
     TV, 'translation_validation')

prop('C08', 'Clocked sequences update registers exactly under their conditions',
     'In a clocked sequence, a register changes on a clock edge only when its reset or one of its guarded assignments fires, '
     'taking the last firing assignment in program order; chained, nested and else-if/else conditions mean the conjunction '
     'and negation of the conditions as written. While reset is asserted every such register with a declared initial value '
     'takes that value (for a partially written register, the written bits; array words included).',
     ['inputs', 'histories'], 'all condition/data values per cycle, runs up to 8 cycles from arbitrary register contents',
     'tests compare text or simulate one stimulus.', ['veriloggen/seq/seq.py', 'veriloggen/seq/reset_visitor.py'],
     [('condition stack', 'veriloggen/seq/seq.py'), ('reset generation', 'veriloggen/seq/reset_visitor.py')], BMC)

prop('C09', 'Delayed, kept and previous-value sequence actions happen on time',
     'An action delayed by n cycles takes effect exactly n cycles after its condition held, using values captured at '
     'that time when eager evaluation is requested and current values otherwise; a kept action repeats for exactly the '
     'requested number of cycles; and the k-step previous value of a signal equals its value k cycles earlier.',
     ['inputs', 'histories'], 'all condition/data sequences up to 10 cycles, delays 0..3, keep 1..4',
     'tests compare text or simulate one stimulus.', ['veriloggen/seq/seq.py', 'veriloggen/seq/subst_visitor.py'],
     [('delayed/kept conditions', 'veriloggen/seq/seq.py')], BMC)

prop('C10', 'State machines take exactly the declared transitions and actions',
     'A generated state machine leaves a state only along a declared transition whose condition holds (the last declared one '
     'if several hold; it stays if none does), '
     'performs the actions of a state only while in it and under their conditions (including delayed, kept and '
     'else-if/else actions), and reset returns it to the initial state.',
     ['inputs', 'histories'], 'all condition sequences up to 10 cycles',
     'tests compare text or simulate one stimulus.', ['veriloggen/fsm/fsm.py', 'veriloggen/seq/seq.py'],
     [('jump table and body per state', 'veriloggen/fsm/fsm.py')], BMC)

prop('C11', 'Alternative encodings of the same logic are equivalent',
     'Emitting a state machine as an if-chain, as a case statement or as a separate submodule, and emitting a clocked '
     'sequence inline or as a separate submodule, gives the same cycle-by-cycle behaviour on all inputs.',
     ['inputs', 'histories', 'configurations'], 'all inputs, runs up to 10 cycles from reset; the separate-submodule form for what it supports '
     '(whole registers as targets, non-array or one-dimensional array sources, no loops or function calls)',
     'tests compare text.', ['veriloggen/fsm/fsm.py', 'veriloggen/seq/seq.py'],
     [('make_always / make_if / make_case / as_module', 'veriloggen/fsm/fsm.py')], TV, 'translation_validation')

prop('C12', 'Synthesised thread code computes what the Python function computes',
     'For a Python function in the supported subset (assignments, augmented and tuple assignment, integer arithmetic, '
     'bitwise, comparison, chained comparison, boolean and conditional expressions, if/elif/else, bit access, hardware '
     'signal reads and writes and prints), running the synthesised state machine produces the same final values and the same '
     'sequence of effects as executing the function in Python, modulo the register width.',
     ['inputs', 'programs'], 'all 32-bit argument values (8-bit for multiplicative code) over a library of programs',
     'tests simulate fixed inputs and look at the printed log.', ['veriloggen/thread/compiler.py', 'veriloggen/thread/operator.py',
     'veriloggen/thread/scope.py'], [('AST to FSM compiler', 'veriloggen/thread/compiler.py')], BMC)

prop('C13', 'Thread function calls bind arguments, scopes and results as Python does',
     'Calls made inside synthesised thread code bind positional, keyword, default and starred arguments, local and enclosing '
     'variables, methods and nested calls as Python does, early returns deliver their value from any branch or loop, and '
     'a call site never sees the variables of another call.',
     ['inputs', 'programs'], 'all 32-bit argument values over a library of programs',
     'tests simulate fixed inputs.', ['veriloggen/thread/compiler.py', 'veriloggen/thread/scope.py', 'veriloggen/thread/thread.py'],
     [('call/return/scope handling', 'veriloggen/thread/compiler.py')], BMC)

prop('C14', 'Thread loops iterate, break and continue as Python does',
     'while and for loops in synthesised thread code (ranges with one, two or three bounds, lists, nested loops, break, '
     'continue, else-less early return) execute their bodies the same number of times, in the same order and with the same '
     'loop-variable values as Python for every bound within the register width.',
     ['inputs', 'programs'], 'symbolic bounds with trip counts up to 4 and symbolic data over a library of programs',
     'tests simulate fixed bounds.', ['veriloggen/thread/compiler.py', 'veriloggen/thread/scope.py'],
     [('loop compilation', 'veriloggen/thread/compiler.py')], BMC)

prop('C15', 'Threads start, run concurrently, join and return results correctly',
     'Starting a thread passes its arguments and begins exactly one execution; joining returns only after that execution finished and '
     'its result is then the value the function returned; a thread that was joined and reset can be run again and again, pools and parallel '
     'regions included, regardless of how long each thread takes.',
     ['schedules', 'inputs'], 'all thread durations (symbolic stall inputs) within a bounded run, all arguments',
     'tests simulate one schedule.', ['veriloggen/thread/thread.py', 'veriloggen/thread/pool.py', 'veriloggen/thread/compiler.py'],
     [('run/join/ret', 'veriloggen/thread/thread.py')], BMC)

prop('C16', 'Mutexes exclude and barriers wait for all',
     'At most one thread is inside a region guarded by the same mutex, a try-lock reports success exactly when it acquired, an '
     'uncontended or released mutex is eventually acquired, only requesters obtain it, and no thread passes a barrier before '
     'all participants reached it, for every timing and over repeated use; guarded shared registers only change by their holder\'s writes.',
     ['schedules', 'histories'], 'all arrival timings (symbolic stalls) for 2-3 threads in bounded runs',
     'tests simulate one schedule.', ['veriloggen/thread/ttypes.py'],
     [('mutex/barrier state', 'veriloggen/thread/ttypes.py')], BMC)

prop('C18', 'FIFOs deliver every accepted word once, in order, with exact flags',
     'A FIFO accepts a word whenever it is not full and delivers accepted words exactly once, unmodified and in order, for '
     'every interleaving of writes and reads; full, almost-full, empty, almost-empty and the occupancy count describe the actual '
     'content in every cycle; the space query never promises room that is not there.',
     ['histories', 'inputs', 'configurations'], 'all enqueue/dequeue/data sequences up to 12 cycles (depth 2..8), synchronous and asynchronous read',
     'tests simulate one producer/consumer pattern.', ['veriloggen/types/fifo.py', 'veriloggen/thread/fifo.py'],
     [('head/tail pointers', 'veriloggen/types/fifo.py')], BMC)

prop('C19', 'Thread-level FIFO operations never lose, duplicate or misreport words',
     'Blocking enqueue and dequeue from threads transfer each word exactly once in order whatever the speed of the other '
     'side; the non-blocking forms report success exactly when a word was stored or removed; status queries report the state at '
     'the time of the query; fixed-point FIFOs keep the value.',
     ['schedules', 'inputs'], 'all stall patterns of the other side in a bounded run',
     'tests simulate one schedule.', ['veriloggen/thread/fifo.py'], [('enq/deq/try_enq/try_deq', 'veriloggen/thread/fifo.py')], BMC)

prop('C20', 'RAM blocks return the last value written to the addressed word',
     'A RAM block returns, with its documented read latency on every port and with or without enables, the value most recently written to the '
     'addressed word by any port (or its initial content), independent of other words, for synchronous and asynchronous '
     'reads; ROM blocks return the table entry of the address.',
     ['histories', 'inputs', 'configurations'], 'all address/data/enable sequences up to 8 cycles, 1-3 ports, with and without enable',
     'tests simulate one access pattern.', ['veriloggen/types/ram.py', 'veriloggen/types/rom.py', 'veriloggen/core/module.py'],
     [('RAM definition', 'veriloggen/types/ram.py'), ('ROM definition', 'veriloggen/types/rom.py')], BMC)

prop('C21', 'Thread RAM accesses and bank interleaving address the right word',
     'Thread-level RAM reads and writes (plain, fixed-point, multi-bank interleaved and single-bank access, several ports and '
     'threads sharing a RAM) behave like operations on one array of words: a read returns the last value written to that index, '
     'and an interleaved index i maps to one unique bank word.',
     ['inputs', 'programs', 'schedules'], 'all addresses and data of bounded programs',
     'tests simulate fixed address sweeps.', ['veriloggen/thread/ram.py', 'veriloggen/thread/util.py', 'veriloggen/types/util.py'],
     [('read_rtl/write_rtl and bank decode', 'veriloggen/thread/ram.py')], BMC)

prop('C22', 'Fixed-point hardware operators compute the exact aligned result',
     'Fixed-point hardware expressions (add, subtract, multiply, compare, negate, absolute value, shifts, casts between '
     'point positions, mixed int/fixed operands) equal exact rational arithmetic on the represented values, with truncation or '
     'wrap only where the result format cannot represent the value.',
     ['inputs', 'configurations'], 'all operand bit patterns of the stated widths and point positions',
     'tests simulate a few constants.', ['veriloggen/types/fixed.py'], [('point alignment', 'veriloggen/types/fixed.py')],
     TV, 'translation_validation')

prop('C23', 'Fixed-point conversion helpers are consistent with each other',
     'Converting integers to fixed point and back is lossless for every non-negative point position, converting between point '
     'positions keeps the represented value whenever it is representable, and the software and hardware conversions agree.',
     ['inputs', 'configurations'], 'all integers of 12 bits, point positions 0..8 and negative positions',
     'tests use a few constants.', ['veriloggen/types/fixed.py', 'veriloggen/thread/fixed.py'],
     [('to_fixed/fixed_to_int/shift helpers', 'veriloggen/types/fixed.py')],
     'symbolic (path-forking) execution of the real Python conversion code with z3 integers, and RTL equivalence', 'other')

prop('C24', 'Saturating arithmetic clamps and never wraps',
     'Saturating add, subtract, multiply, increment, decrement and shift results equal the exact integer result clamped to the stated minimum and '
     'maximum (or the range of the target width), for every operand value.',
     ['inputs', 'configurations'], 'all operand values at 4-8 bits, signed and unsigned',
     'tests simulate one sequence.', ['veriloggen/types/saturate.py'], [('clamp conditions', 'veriloggen/types/saturate.py')],
     TV, 'translation_validation')

prop('C25', 'Pipelined multipliers, multiply-adders and dividers are exact and stall-safe',
     'Pipelined multiplier, multiply-add and divider blocks deliver for each accepted operand set the exact product, '
     'product-sum, quotient or remainder of the signed or unsigned operands after their stated latency, for every operand value and every '
     'stall/enable pattern, with no result lost, duplicated or reordered.',
     ['inputs', 'schedules', 'configurations'], 'all operands at 3-6 bits, all enable patterns in a bounded run, depths 1..6',
     'tests simulate a few operands.', ['veriloggen/types/mul.py', 'veriloggen/stream/mul.py', 'veriloggen/stream/madd.py',
     'veriloggen/stream/div.py', 'veriloggen/dataflow/mul.py', 'veriloggen/dataflow/div.py'],
     [('pipeline registers', 'veriloggen/types/mul.py')], BMC)

prop('C26', 'Stream operators compute their defined function on every element',
     'Each stream operator (arithmetic incl. fixed point, comparison, shift, logical, reduction, select, slice, split, concatenate, '
     'replicate, conditional, cast, lookup table, min/max/average/rounding shift, multiply-add, abs/sign/complement, custom) applied to input elements produces, for '
     'every element, the operator\'s defined value at the operand width, sign and point position.',
     ['inputs', 'configurations'], 'all operand values at 4-8 bits (multiplicative: 3-5 bits), signed/unsigned/fixed-point variants',
     'tests simulate a ramp of small positive numbers.', ['veriloggen/stream/stypes.py'],
     [('per-operator implementation', 'veriloggen/stream/stypes.py')], BMC)

prop('C27', 'Stream pipelines keep elements aligned whatever the operator latencies',
     'In a synthesised stream every output element k depends only on input elements k (and declared earlier ones), whatever the '
     'mix of operator latencies along different paths; sinks, previous-value taps and side outputs stay aligned, and '
     'handshake stalls at any time neither drop, duplicate nor reorder elements.',
     ['inputs', 'schedules', 'programs'], 'all input sequences and stall patterns in runs of up to ~14 cycles over a graph library',
     'tests simulate few graphs with one stall pattern.', ['veriloggen/stream/scheduler.py', 'veriloggen/stream/stream.py',
     'veriloggen/stream/allocator.py', 'veriloggen/stream/stypes.py', 'veriloggen/stream/visitor.py'],
     [('ASAP scheduling and delay insertion', 'veriloggen/stream/scheduler.py')], BMC)

prop('C28', 'Stream reductions and counters equal the fold of their inputs',
     'Stream accumulators (sum, difference, product, maximum, minimum, custom, argmax/argmin), counters and pulses, with their size, step, '
     'interval, offset, initial value, enable, reset and dependence options and their valid outputs, equal the sequential fold of the enabled '
     'elements since the last (re)start at every position.',
     ['inputs', 'histories', 'configurations'], 'all element, enable and reset sequences up to 8 elements',
     'tests simulate one ramp.', ['veriloggen/stream/stypes.py'], [('accumulator implementation', 'veriloggen/stream/stypes.py')], BMC)

prop('C29', 'Stream storage operators return the element of the declared age or address',
     'Line buffers, ring buffers, scratchpads and previous-value taps return, at each step, the element whose age, offset or address '
     'the program asked for, for every sequence of pushes, shifts, rotations and enables.',
     ['inputs', 'histories'], 'all element/enable sequences up to 10 steps, small buffers',
     'tests simulate one ramp.', ['veriloggen/stream/stypes.py'], [('LineBuffer/RingBuffer/Scratchpad', 'veriloggen/stream/stypes.py')], BMC)

prop('C30', 'Stream runs read and write exactly the configured memory words',
     'A thread-driven stream run reads each source from the words given by its offset, size, stride or '
     'pattern, computes the stream function and writes the results to the sink words given by its configuration, touching no '
     'other word, for every configuration value and memory content.',
     ['inputs', 'configurations'], 'all memory contents, symbolic offsets, strides and parameters, sizes up to 6',
     'tests simulate fixed offsets and sizes.', ['veriloggen/thread/stream.py'],
     [('source/sink address generators', 'veriloggen/thread/stream.py')], BMC)

prop('C31', 'Stream runs are repeatable and complete when joined',
     'Joining a stream returns only after all its results are stored; consecutive, overlapped and re-parameterised runs, '
     'empty and constant sources, conditional sinks, substreams, in-stream RAM and FIFO accesses and FIFO-fed runs give the results of independent '
     'runs, regardless of stalls.',
     ['histories', 'schedules', 'inputs'], 'all memory contents and FIFO stall patterns in bounded runs',
     'tests simulate one schedule.', ['veriloggen/thread/stream.py'], [('run/join state machines', 'veriloggen/thread/stream.py')], BMC)

prop('C32', 'AXI master transfers move exactly the requested words',
     'AXI master reads, writes and DMA transfers (full and lite, blocking and asynchronous, multi-bank, strided, packed and block variants) move exactly '
     'the requested words between bus addresses and local RAM locations in order, for every handshake timing and data, and '
     'report completion only when the data arrived or was accepted.',
     ['schedules', 'inputs', 'configurations'], 'all ready/valid timings and data in bounded runs, symbolic addresses, sizes up to 6',
     'tests use one memory model with one timing.', ['veriloggen/thread/axim.py', 'veriloggen/types/axi.py'],
     [('DMA state machines', 'veriloggen/thread/axim.py')], BMC)

prop('C33', 'AXI masters obey the bus protocol under every handshake timing',
     'On each AXI master channel a raised valid stays raised with stable payload until ready, every write burst has exactly the announced number of beats with '
     'the last flag on the final one only, burst length stays within the limit, no burst crosses a 4 KB boundary, and addresses advance '
     'without gap or overlap.',
     ['schedules', 'inputs'], 'all ready/valid timings in bounded runs, symbolic start addresses and sizes',
     'tests do not check the protocol.', ['veriloggen/types/axi.py', 'veriloggen/thread/axim.py'],
     [('channel handshake registers', 'veriloggen/types/axi.py')], BMC)

prop('C34', 'AXI slave registers are written and read as the bus and threads ask',
     'A bus write to a slave register updates exactly the addressed register and a bus read returns its current value '
     '(single and burst, full and lite); each request gets exactly one response with stable valid/payload; thread-side reads, writes, waits and flag registers '
     'observe and set the same registers, in every interleaving.',
     ['schedules', 'inputs'], 'all request timings, addresses and data in bounded runs',
     'tests use one master with one timing.', ['veriloggen/thread/axis.py', 'veriloggen/types/axi.py'],
     [('register slave state machine', 'veriloggen/thread/axis.py')], BMC)

prop('C35', 'AXI stream interfaces transfer every word once and in order',
     'AXI stream input and output interfaces and their DMA transfers to RAMs and FIFOs accept or emit every word exactly once in order '
     'with the last flag on the final word, hold valid and data stable until accepted, and complete only when all words moved, '
     'for every handshake timing.',
     ['schedules', 'inputs'], 'all ready/valid timings and data in bounded runs, sizes up to 5',
     'tests use one timing.', ['veriloggen/thread/axistreamin.py', 'veriloggen/thread/axistreamout.py', 'veriloggen/types/axi.py',
     'veriloggen/thread/axim_for_axistream.py'],
     [('stream DMA state machines', 'veriloggen/thread/axistreamin.py')], BMC)

prop('C36', 'The simulated AXI memory behaves like a memory',
     'The AXI memory models used for simulation answer every legal read burst with the current content of the addressed words and '
     'the last flag on the final beat, and apply every write burst to exactly the enabled bytes, answering each write once; memory image '
     'helpers place array elements at the addresses the hardware reads.',
     ['schedules', 'inputs'], 'all burst addresses, lengths, data, strobes and handshake timings in bounded runs',
     'tests use them with one master.', ['veriloggen/types/axi.py'], [('memory model state machines', 'veriloggen/types/axi.py')], BMC)

prop('C37', 'Dataflow graphs compute aligned, handshake-safe element-wise results',
     'A dataflow module computes, for each accepted set of input elements, the value of its expression graph (operators, '
     'accumulators, previous values), and with valid/ready control neither loses, duplicates nor '
     'reorders elements under any stall pattern.',
     ['schedules', 'inputs', 'programs'], 'all data and valid/ready sequences up to ~12 cycles over a graph library',
     'tests simulate a ramp with one stall pattern.', ['veriloggen/dataflow/dtypes.py', 'veriloggen/dataflow/scheduler.py',
     'veriloggen/dataflow/allocator.py', 'veriloggen/dataflow/dataflow.py'], [('dataflow nodes and scheduler', 'veriloggen/dataflow/dtypes.py')], BMC)

prop('C38', 'Pipelines built from stages keep data and control together',
     'Pipelines built from explicit stages deliver for each accepted input the value of the staged expression with the '
     'correct latency, accumulators fold exactly the accepted elements, previous-value taps return the declared earlier element, and valid/ready control never loses, '
     'duplicates or reorders elements.',
     ['schedules', 'inputs'], 'all data and valid/ready sequences up to 10 cycles',
     'tests simulate a ramp.', ['veriloggen/pipeline/pipeline.py'], [('stage and accumulator registers', 'veriloggen/pipeline/pipeline.py')], BMC)

prop('C39', 'Skid buffers decouple handshakes without losing data',
     'A skid buffer between a producer and a consumer passes every accepted word exactly once and in order, keeps its output '
     'stable while stalled, and accepts again as soon as it has room, for every stall pattern.',
     ['schedules', 'inputs'], 'all data and valid/ready sequences up to 10 cycles',
     'tests simulate one pattern.', ['veriloggen/types/skidbuffer.py'], [('two-entry buffer', 'veriloggen/types/skidbuffer.py')], BMC)

prop('C40', 'UART links deliver each byte unchanged',
     'The UART transmitter frames each byte as start bit, eight data bits (least significant first) and stop bit at the configured bit time, the receiver '
     'recovers every such frame, and thread-level send and receive transfer each byte once.',
     ['inputs', 'schedules'], 'all bytes; two consecutive frames; small clock/baud ratios',
     'the example simulates a few bytes.', ['veriloggen/thread/uart.py'], [('uart state machines', 'veriloggen/thread/uart.py')], BMC)

prop('C90', 'Generation is deterministic and names never clash',
     'Building the same design twice yields byte-identical Verilog, and automatically generated names never collide with user names.',
     ['programs', 'configurations'], 'all design programs', 'tests compare one build per design.',
     ['veriloggen/core/module.py', 'veriloggen/verilog/to_verilog.py'], [('temporary counters', 'veriloggen/core/module.py')],
     na='quantifies over whole generator runs (Python object graphs, dict order, global counters, text rendering through jinja2); there is no '
        'bounded symbolic input whose encoding would decide it, only enumeration of concrete builds')
prop('C91', 'IP-XACT packages describe the ports of the design',
     'The IP-XACT description exported for a design lists exactly its ports, parameters, bus interfaces and address ranges.',
     ['programs', 'configurations'], 'all designs with bus interfaces', 'tests only compare the RTL next to it.',
     ['veriloggen/types/ipxact.py', 'veriloggen/types/componentgen.py'], [('XML component generator', 'veriloggen/types/componentgen.py')],
     na='output is an XML DOM built by string/DOM manipulation from concrete object graphs and written to files; no symbolic execution engine '
        'here reaches xml.dom/jinja2, and concrete enumeration is not the family studied')
prop('C92', 'External simulator drivers report what the simulator printed',
     'Running a design in Icarus Verilog, Verilator, ModelSim or VCS through the helper functions simulates the emitted text and returns its output.',
     ['configurations', 'fault_sequences'], 'all tool options and exit states', 'tests run iverilog and verilator on good designs.',
     ['veriloggen/simulation/simulation.py'], [('command construction', 'veriloggen/simulation/simulation.py')],
     na='the behaviour is process launching and file I/O behind an FFI boundary; nothing to encode for a solver')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            o = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['qtext']},
                 'why_tests_cant': p['tests'],
                 'anchors': {'files': p['files'], 'state': [],
                             'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                             'observe_at': p['observe'] or ['generated Verilog text, executed'], 'hook_needed': None}}
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(o) + '\n')
    checks, na = [], []
    for p in P:
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
        elif os.path.exists(os.path.join(ROOT, 'checks', p['id'].lower() + '.py')):
            note = p['note'] or ('Holds for every value within the bounds listed in the evidence file (cycles, widths, sizes); nothing is '
                                 'claimed outside them. Trusts the Verilog-to-SMT encoder (validated against Icarus Verilog on a trace per '
                                 'scenario), z3, the reference models in checks/, two-valued semantics with arbitrary initial register contents.')
            checks.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'],
                           'thorough_cmd': 'VERIF_TIER=thorough ./check %s thorough' % p['id'],
                           'technique': p['tech'], 'level': p['level'], 'level_note': note})
        else:
            na.append({'property': p['id'], 'reason': 'not claimed yet: check not built'})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
