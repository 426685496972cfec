"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


prop('C01', 'Python expressions become the Verilog expressions they denote',
     "An expression written with Python operators, comparisons, shifts, indexing, slicing, concatenation, replication, "
     "reductions and conditional helpers over signals and constants is emitted as a Verilog expression that has, for "
     "every value of the signals, the value of that same operator applied to the same operands in the same order. This "
     "includes expressions whose left operand is a plain Python number (reflected operators), negative indices, "
     "open-ended and stepped slices, and arbitrarily nested sub-expressions (grouping is preserved).",
     ['inputs', 'programs'],
     "every expression tree over the public operator API, every operand width/signedness and every run-time value of the signals",
     "Tests compare the text of a few fixed designs; an operator whose operands are swapped or whose slice bound is off only for a reflected operand, a negative index or a particular nesting is never printed by them.",
     ['veriloggen/core/vtypes.py', 'veriloggen/verilog/to_verilog.py'],
     [('operator overloading builds nodes', 'veriloggen/core/vtypes.py:_Numeric'),
      ('indexing and slicing', 'veriloggen/core/vtypes.py:_Numeric.__getitem__, slice/bit helpers'),
      ('expression visitor', 'veriloggen/verilog/to_verilog.py:VerilogCommonVisitor, VerilogBindVisitor')],
     observe=['Module.to_verilog() text'])

prop('C02', 'Literals keep their value, width, base and sign',
     "Every Python int, bool or literal string used as a constant, and every explicit literal object with a width, "
     "base or sign, is emitted as a Verilog literal that denotes exactly that integer, and an explicitly requested "
     "width, base and signedness is the one that is emitted. Reading a literal string back (value, width, base, sign) "
     "agrees with the Verilog meaning of that string.",
     ['inputs'],
     "every integer (negative, zero, arbitrarily large), every width, base 2/8/10/16, signedness, and every literal string in Verilog syntax",
     "The tests contain a handful of literals, nearly all small, positive and decimal.",
     ['veriloggen/core/vtypes.py', 'veriloggen/verilog/to_verilog.py'],
     [('literal object', 'veriloggen/core/vtypes.py:Int'),
      ('literal text to value/width/base/sign', 'veriloggen/core/vtypes.py:str_to_value, str_to_width, str_to_signed'),
      ('literal emission', 'veriloggen/verilog/to_verilog.py:visit_Int, visit_int, visit_bool')],
     observe=['Module.to_verilog() text', 'Int attributes'])

prop('C03', 'The emitted module is the module that was described',
     "The emitted Verilog contains exactly the ports, nets, registers, parameters, arrays, assigns, processes, "
     "statements and instances that were added to the module, with the direction, width, signedness, array dimensions, "
     "initial value, sensitivity, assignment kind and port/parameter bindings they were given, so simulating it "
     "computes what the described design computes. Statements keep their order and nesting: if/else-if/else chains, "
     "case, for and while bodies execute under exactly the conditions they were written under.",
     ['programs', 'inputs'],
     "every module assembled through the public API from these constructs, and every input sequence to it",
     "Each existing test prints one fixed module; a dropped signedness, dimension or else-branch in a combination they do not contain is invisible.",
     ['veriloggen/verilog/to_verilog.py', 'veriloggen/core/module.py', 'veriloggen/core/vtypes.py'],
     [('module and statement visitors', 'veriloggen/verilog/to_verilog.py:VerilogModuleVisitor, VerilogAlwaysVisitor, VerilogBlockingVisitor'),
      ('module container', 'veriloggen/core/module.py:Module'),
      ('statements', 'veriloggen/core/vtypes.py:If, Case, For, While, Subst')],
     observe=['Module.to_verilog() text'])

prop('C04', 'Compile-time evaluation agrees with the hardware',
     "Whenever the library evaluates or rewrites a constant expression itself (the operators' constant evaluation, "
     "resolving of module parameters and local parameters, and constant folding by the expression optimiser), the "
     "value it obtains is the one the emitted Verilog expression would have over 32-bit integers: division and remainder "
     "truncate toward zero, right arithmetic shift keeps the sign, comparisons and logical operators yield 0 or 1, "
     "concatenation and replication take the bits of their operands' widths. Rewriting an expression or resolving a design "
     "leaves every non-constant sub-expression, statement and instance with the value and effect it had. (Domain: results fit a "
     "32-bit signed integer, parameters without explicit width, shift counts in range, logical right shift of nonnegative "
     "numbers, nonzero divisors.)",
     ['inputs', 'programs'],
     "every expression tree over the supported operators, every integer leaf value (both signs) and every assignment to the remaining signals",
     "Only a few positive constants are folded by existing tests; sign handling and nesting are infinite.",
     ['veriloggen/core/vtypes.py', 'veriloggen/resolver/resolver.py', 'veriloggen/optimizer/optimizer.py'],
     [('per-operator constant evaluation', 'veriloggen/core/vtypes.py:_BinaryOperator.op, _UnaryOperator.op'),
      ('parameter resolution', 'veriloggen/resolver/resolver.py:ReplaceVisitor, ModuleReplaceVisitor'),
      ('expression optimiser', 'veriloggen/optimizer/optimizer.py:try_optimize')])

prop('C05', 'Seq: guarded register updates happen in exactly the cycles written',
     "For any sequence of calls on a Seq object, a statement added under a chain of If/Elif/Else/Then conditions takes "
     "effect at a clock edge exactly when that chain's condition holds in that cycle, among the statements taking effect "
     "at one edge less delayed ones override more delayed ones and then later ones override earlier ones, and statements delayed by n cycles take effect exactly n cycles after their condition held, with the "
     "operand values those options (delayed or kept condition, delayed evaluation) specify. Conditions given to one "
     "statement never leak into a later one.",
     ['programs', 'histories'],
     "every sequence of Seq API calls, every delay, and every cycle-by-cycle history of the condition signals",
     "The order in which conditions are pushed, consumed and chained over arbitrary call sequences, and their values over all histories, cannot be sampled by fixed expected texts.",
     ['veriloggen/seq/seq.py', 'veriloggen/seq/subst_visitor.py'],
     [('condition stack', 'veriloggen/seq/seq.py:Seq.If, Elif, Else, Then, _clear_*'),
      ('statement insertion', 'veriloggen/seq/seq.py:Seq.add, _add_statement, _add_delayed_*'),
      ('body synthesis', 'veriloggen/seq/seq.py:Seq.make_code')],
     [('next_kwargs', 'pending options of the next statement', 'veriloggen/seq/seq.py:Seq'),
      ('last_cond', 'condition of the previous statement, for Then/Elif/Else', 'veriloggen/seq/seq.py:Seq')],
     observe=['emitted always block'])

prop('C06', 'FSM: states, jumps and state-guarded updates are exact',
     "In the emitted state machine, at each clock edge the next state is the target of the jump whose condition holds "
     "in the current state (the last-added true jump when several hold, and the same state when none hold), and a "
     "statement added in a state updates its registers exactly in cycles where the machine is in that state and the "
     "statement's condition holds. Statements delayed by n cycles fire exactly n cycles after that, whatever state the "
     "machine has reached by then, and both encodings of the machine (case and if) behave identically.",
     ['programs', 'histories'],
     "every sequence of FSM API calls, every state graph, and every history of condition signals",
     "A state machine has unboundedly many histories; tests fix one text per example.",
     ['veriloggen/fsm/fsm.py'],
     [('jump registration', 'veriloggen/fsm/fsm.py:FSM._go, goto, goto_from, goto_next, inc'),
      ('statement registration', 'veriloggen/fsm/fsm.py:FSM.add, _add_statement, delayed_*'),
      ('code synthesis', 'veriloggen/fsm/fsm.py:FSM.make_case, make_if, make_always')],
     [('state', 'current state register', 'veriloggen/fsm/fsm.py:FSM.state')],
     observe=['emitted always block'])

prop('C07', 'Thread code executes in Python order',
     "Hardware compiled from a Python function performs the function's assignments in the order, under the branch "
     "decisions and with the operand values that Python's semantics prescribe, for if/elif/else, while and for-range "
     "loops, break, continue, return, chained comparisons and calls to other functions (arguments bound by position, "
     "keyword or default), nested in any way. Control reaches the statement after a construct exactly when Python "
     "control would.",
     ['programs', 'inputs'],
     "every function in the supported Python subset and every value of the variables and inputs it reads",
     "Nesting is unbounded; tests simulate a few functions.",
     ['veriloggen/thread/compiler.py', 'veriloggen/thread/scope.py', 'veriloggen/thread/thread.py'],
     [('statement compilation', 'veriloggen/thread/compiler.py:CompileVisitor.visit_If, visit_While, visit_For, visit_Break, visit_Continue, visit_Return'),
      ('call inlining and argument binding', 'veriloggen/thread/compiler.py:CompileVisitor._call_Name'),
      ('scope frames', 'veriloggen/thread/scope.py:ScopeFrameList')])

prop('C08', 'Reset restores every initial value',
     "At a clock edge with reset asserted, every register that a Seq, FSM or thread assigns and that has an initial "
     "value takes exactly that value in every bit those assignments can change (words of an array: the words assigned by "
     "constant index), whether it is assigned whole, by bit, by slice or inside a concatenation, and "
     "however many statements of the same object assign it; no bit takes any other value. The bookkeeping "
     "registers the library adds itself (delay chains, kept conditions, state register) are reset as well.",
     ['programs', 'histories'],
     "every set of assignment shapes, every initial value and width, every pre-reset state",
     "Tests that reset designs start from x and rarely inspect partial assignment shapes or re-reset from an arbitrary state.",
     ['veriloggen/seq/reset_visitor.py', 'veriloggen/seq/seq.py', 'veriloggen/fsm/fsm.py'],
     [('reset statement generation', 'veriloggen/seq/reset_visitor.py:ResetVisitor'),
      ('reset block assembly', 'veriloggen/seq/seq.py:Seq.make_reset, veriloggen/fsm/fsm.py:FSM.make_reset')])

prop('C09', 'FIFO is a bounded queue under every schedule',
     "From reset on, for every schedule of enqueue and dequeue requests (including simultaneous and refused ones), the "
     "generated FIFO delivers exactly the accepted data values, in order, without loss, duplication or corruption; a "
     "request is refused only when the FIFO is full (respectively empty). The empty, full, almost-empty and almost-full "
     "flags and the occupancy count reported to the user always describe the true number of stored elements.",
     ['schedules', 'configurations', 'inputs'],
     "all request schedules, all data, all depths and data widths, both reset styles offered",
     "Simulations run one schedule at a couple of depths; wrap-around and simultaneous-request corner cases need every reachable pointer pair.",
     ['veriloggen/types/fifo.py', 'veriloggen/thread/fifo.py'],
     [('FIFO RTL', 'veriloggen/types/fifo.py:mkFifoDefinition'),
      ('interfaces and occupancy', 'veriloggen/thread/fifo.py:FIFO')],
     [('head, tail, mem', 'circular buffer', 'veriloggen/types/fifo.py')])

prop('C10', 'RAM and ROM are memories',
     "A generated RAM returns on each port the value last written to the addressed word by any port before that read "
     "(the initial value if none), with the documented read latency, and a write changes no other word; when several "
     "ports access different words in one cycle they do not interfere. A generated ROM returns, for every address, the "
     "value it was given for that address.",
     ['histories', 'configurations', 'inputs'],
     "all access histories, all port counts, widths, depths and initial contents",
     "Simulations visit a few addresses sequentially, mostly through one port.",
     ['veriloggen/types/ram.py', 'veriloggen/types/rom.py'],
     [('RAM RTL', 'veriloggen/types/ram.py:mkRAMDefinition'), ('ROM RTL', 'veriloggen/types/rom.py:mkROMDefinition')])

prop('C11', 'Valid/ready channels neither lose nor alter a transfer',
     "On every valid/ready channel the library drives (skid buffer, AXI master and slave address/data/response "
     "channels, AXI stream), once valid is asserted it and its payload stay unchanged until ready is seen, every item "
     "accepted from the producer side is delivered exactly once, in order and unaltered, and no item appears that was "
     "not accepted. This holds for every pattern of back-pressure.",
     ['schedules', 'inputs', 'configurations'],
     "all ready/valid schedules, payloads, widths and buffer depths",
     "A simulation explores one stall pattern; losing an item needs a stall in one particular cycle.",
     ['veriloggen/types/skidbuffer.py', 'veriloggen/types/axi.py'],
     [('skid buffer', 'veriloggen/types/skidbuffer.py:mkSkidBufferDefinition'),
      ('channel drivers', 'veriloggen/types/axi.py:AxiMasterWriteAddress.write_request, AxiMasterWriteData.write_data, AxiMasterReadAddress.read_request, AxiSlaveReadData.push_read_data, AxiStreamOutData.write_data')])

prop('C12', 'AXI DMA bursts tile the transfer and obey AXI limits',
     "For every start address and non-zero length, the address-channel requests issued for one DMA read or write cover "
     "exactly the requested (aligned) address range, in ascending order, without gap or overlap. Each burst has between "
     "1 and 256 beats and none crosses a 4 KB boundary; the local side moves exactly the requested number of words to "
     "or from the requested local addresses.",
     ['inputs', 'schedules', 'configurations'],
     "all addresses, lengths, data widths and stall patterns on the bus",
     "Tests transfer a few lengths from a few aligned addresses; boundary splitting needs particular address/length pairs.",
     ['veriloggen/thread/axim.py', 'veriloggen/types/axi.py'],
     [('burst splitting', 'veriloggen/thread/axim.py:AXIM._check_4KB_boundary, veriloggen/types/axi.py:AxiMaster.check_boundary, rest_boundary, mask_addr'),
      ('request state machines', 'veriloggen/thread/axim.py:_synthesize_read_req_fsm, _synthesize_write_req_fsm')])

prop('C13', 'Mutex and barrier synchronise threads under every schedule',
     "However the threads sharing a mutex are scheduled against each other, at most one of them is between a completed "
     "lock (or successful try-lock) and its unlock, a try-lock reports success only to the thread that obtained the "
     "lock, and a free mutex is obtained by some thread that requests it. No thread leaves a barrier before all "
     "participating threads have arrived at it in that round.",
     ['schedules', 'programs'],
     "all interleavings of any number of threads, with arbitrary delays between operations",
     "Each simulation is a single deterministic schedule.",
     ['veriloggen/thread/ttypes.py'],
     [('mutex', 'veriloggen/thread/ttypes.py:Mutex.lock, try_lock, unlock'), ('barrier', 'veriloggen/thread/ttypes.py:Barrier.wait')],
     [('lock_reg, lock_id', 'owner of the mutex', 'veriloggen/thread/ttypes.py:Mutex')])

prop('C14', 'Fixed-point numbers keep their value',
     "Conversions between integers, reals and fixed-point values and changes of the binary point preserve the "
     "represented number, rounding only where bits are dropped and only in the documented direction; addition, "
     "subtraction, multiplication, comparison and negation of fixed-point values represent the result of that operation "
     "on the represented numbers. Constants and run-time values follow the same rules, for either sign.",
     ['inputs', 'configurations'],
     "all raw values, signs, widths and binary point positions",
     "A few constants with one point position are tested; sign and rounding cases are not.",
     ['veriloggen/types/fixed.py'],
     [('conversion', 'veriloggen/types/fixed.py:to_fixed, fixed_to_int, fixed_to_real, shift_left, shift_right, adjust'),
      ('arithmetic', 'veriloggen/types/fixed.py:_FixedBase, _FixedBinaryOperator')])

prop('C15', 'Stream pipelines compute the operator on time-aligned operands',
     "For every dataflow expression, the value that leaves the generated pipeline for the i-th input set is the "
     "expression's mathematical value (at the declared widths and signedness) on exactly the i-th values of all its "
     "inputs, whatever the latencies of the individual operators on each path. Stalls or bubbles on the input never mix "
     "operands of different input sets.",
     ['programs', 'inputs', 'histories'],
     "all dataflow graphs over the supported operators, all input sequences and enable patterns",
     "Tests simulate particular graphs with incrementing data; misalignment by a cycle in another graph shape is unseen.",
     ['veriloggen/stream/stypes.py', 'veriloggen/stream/scheduler.py', 'veriloggen/stream/stream.py'],
     [('scheduling and delay insertion', 'veriloggen/stream/scheduler.py:ASAPScheduler'),
      ('operator implementation', 'veriloggen/stream/stypes.py:_BinaryOperator._implement, ...')])

prop('C16', 'Arithmetic cores are exact and have the promised latency',
     "The generated multiplier, multiply-add and divider cores produce, exactly their declared number of enabled cycles "
     "after the operands are presented, the mathematically exact product, sum of product, quotient and remainder for "
     "the declared signedness, for every operand pair (non-zero divisor) and every enable pattern. Saturating "
     "operations return the exact result clamped to the declared range.",
     ['inputs', 'configurations', 'schedules'],
     "all operand values, widths, signedness, depths and enable patterns",
     "Tests drive a few operand pairs at one width.",
     ['veriloggen/types/mul.py', 'veriloggen/stream/mul.py', 'veriloggen/stream/madd.py', 'veriloggen/stream/div.py', 'veriloggen/types/saturate.py'],
     [('multiplier', 'veriloggen/types/mul.py, veriloggen/stream/mul.py'), ('divider', 'veriloggen/stream/div.py'),
      ('saturation', 'veriloggen/types/saturate.py')])

prop('C17', 'No two objects of a module share a name',
     "Declaring a second port, net, register, parameter, function, task, instance or generate scope under a name already "
     "taken in the same module is rejected, except for the documented pairing of a port with its own net or register (and "
     "copying a port or parameter over one of the same kind, which replaces it); "
     "names the library invents for temporaries never repeat within a module. Every declared object can be found again "
     "under its name, and copying or connecting declarations of another module by pattern selects exactly the matching names.",
     ['programs', 'histories'],
     "every sequence of declarations through the module API and every name",
     "Tests declare distinct names; which pairs of kinds collide is never exercised.",
     ['veriloggen/core/module.py'],
     [('duplicate check', 'veriloggen/core/module.py:Module.check_existing_identifier, find_identifier'),
      ('temporary names', 'veriloggen/core/module.py:Module.get_tmp, Tmp*')])

prop('C18', 'Importing Verilog preserves the design',
     "Reading Verilog source into the library's module objects and emitting it again gives a design with the same ports, "
     "declarations and behaviour for every construct the importer accepts. A construct it cannot represent is rejected, "
     "not silently dropped.",
     ['programs', 'inputs'],
     "every source text in the accepted subset and every input history of the design",
     "Tests import a few files and compare text.",
     ['veriloggen/verilog/from_verilog.py', 'veriloggen/verilog/to_verilog.py'],
     [('importer', 'veriloggen/verilog/from_verilog.py:VerilogReadVisitor')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(p) + '\n')
