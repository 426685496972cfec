TECH['C09'] = 'deductive: step contracts over an abstract queue view, discharged by SMT on the RTL the real generator emits'
NOTE['C09'] = ('Proof for all histories, data and reachable states, by induction over the queue view; FIFO depth and width are '
               'enumerated. Trusts the Verilog semantics in lib/vsem.py (cross-checked with iverilog), pyverilog and z3.')
TECH['C10'] = 'deductive: memory step contracts and inductive burst invariants, discharged by SMT on the RTL the real generator emits'
NOTE['C10'] = ('Proof for all histories, addresses and data; widths, depths, port counts, bank counts and initial contents are enumerated. '
               'Excluded by precondition: two ports writing one address in the same cycle. Trusts lib/vsem.py, pyverilog and z3.')
TECH['C11'] = 'deductive: valid/ready channel contracts (queue view, hold invariants), discharged by SMT on the RTL the real generator emits'
NOTE['C11'] = ('Proof for all handshake schedules and payloads and all reachable states; widths, buffer depths and caller counts are '
               'enumerated. Two callers driving one channel in the same cycle are excluded. Trusts lib/vsem.py, pyverilog and z3.')
TECH['C16'] = 'deductive: transport, frame and per-stage divider contracts with ghost operands, discharged by SMT on the emitted RTL of the real cores'
NOTE['C16'] = ('Proof for all operands and enable patterns; widths, depths and signedness enumerated (divider up to 64 bits by stage contracts). '
               'Composition of stage contracts over time is pen and paper. Trusts lib/vsem.py, pyverilog and z3.')
TECH['C13'] = 'deductive: rely-guarantee step contracts for arbitrary thread states and an inductive barrier invariant, discharged by SMT on emitted RTL'
NOTE['C13'] = ('Proof for all programs, thread states and schedules; the number of sharing threads is enumerated (2-5 mutex, 2-9 barrier). '
               'Trusts lib/vsem.py, pyverilog and z3.')
TECH['C12'] = 'deductive: inductive invariants with ghost counters over the request and data machines, discharged by SMT on the RTL the real generator emits'
NOTE['C12'] = ('Proof for all addresses, sizes, strides and stall patterns; bus and RAM widths are enumerated. The composition with FIFO, RAM '
               'burst and channel contracts (C09-C11) is pen and paper; end-to-end transfers (banked, blocked, packed, broadcast, nested) are a bounded iverilog check.')
TECH['C01'] = 'deductive: per-operator postconditions proved by structural induction (emitted expression equals the fully parenthesised Verilog meaning), plus path-complete contracts of the index and slice arithmetic'
NOTE['C01'] = ('Each operator constructor and each expression visitor is proved for operands that are arbitrary (opaque) subexpressions and for all signal values; '
               'index/slice arithmetic for all integers by path enumeration with z3. Operand widths are enumerated. Trusts lib/vsem.py, lib/pyvc.py, pyverilog and z3.')
TECH['C02'] = 'deductive: path-complete symbolic execution of the literal constructors and visitors; the denotation of the emitted text equals the requested value, discharged by z3'
NOTE['C02'] = ('Proof for all integer values per requested width/base/sign (widths enumerated; unsized in base 2/8/16 up to 200 bits). The reading of literal strings is a '
               'bounded enumeration of digit shapes. Trusts lib/pyvc.py, pyverilog and z3.')
TECH['C03'] = 'deductive: postconditions of every declaring, structural and statement method: emitted text equals an independent reference text on all nets, next states and initial states (z3), by induction over opaque sub-statements; widths and array lengths symbolic'
NOTE['C03'] = 'Statement forms are proved over arbitrary sub-statements one and two levels deep, every state and input; declarations for all integer widths and lengths. Whole-module features (instances, generates, functions, hooks) are an enumerated set of programs, compared for all states and inputs; timing constructs by syntax tree and simulation. Trusts lib/vsem.py, lib/pyvc.py, pyverilog and z3.'
TECH['C17'] = "deductive: contract of every declaring method over the reachable states of a name's tables, for an opaque name (only equality and hashing are available, so the outcome holds for every name); temporaries' injectivity discharged by z3; copied and connected declarations compared with independent references"
NOTE['C17'] = "Names are opaque for the declaration contracts; the state space of one name's tables is closed under every declaring method. Temporaries: proved for all counter values over enumerated prefixes. Pattern selection: every truth assignment over at most three names and lists of at most three patterns (bounded). Trusts lib/pyvc.py, lib/vsem.py and z3."
TECH['C18'] = "deductive, per construct: every visitor's contract (import of a node, then emission, denotes the node) discharged over opaque operands: syntax-tree identity, otherwise z3 equivalence of all outputs and next states for all states and inputs; composed by structural induction over pairs of nested constructs"
NOTE['C18'] = 'Each visitor is checked on every operator, pairs of nested operators, every statement form in nine contexts, declarations with symbolic and numeric ranges, functions, tasks, instances and generates (an enumerated set of source texts, each decided for all states and inputs). The parser, preprocessor and code generator of pyverilog are trusted; their defects that reach the user are listed as known findings. Constructs the importer rejects loudly are outside. Trusts lib/vsem.py and z3.'
LEVEL['C18'] = 'translation_validation'
TECH['C05'] = 'deductive: every call of a Seq object refines an independent ghost chain of conditions and delays; the emitted block is proved equivalent (z3, all states, inputs and histories) to the ghost block'
NOTE['C05'] = 'Every sequence of up to three calls over 16 condition heads and 14 option sets (about 2000 programs), condition forms, statement forms, Prev, merging and resets; each is decided for all histories. Delay amounts are enumerated (0-3). as_module is a bounded simulation comparison. Trusts lib/vsem.py, lib/ghost.py, pyverilog and z3.'
TECH['C06'] = 'deductive: every call of a FSM object refines an independent ghost machine (jumps, statements and delays by state); the emitted block, as case and as if, is proved equivalent (z3, all states, inputs and histories) to the ghost machine'
NOTE['C06'] = 'Every sequence of up to three calls over 16 condition heads, jumps, moves, 13 option sets and explicit states (about 3000 programs, each in both encodings), argument and statement forms; each is decided for all histories. Delay amounts are enumerated (0-3). as_module is a bounded simulation comparison. Trusts lib/vsem.py, lib/ghost.py, pyverilog and z3.'
TECH['C08'] = 'deductive: reset contracts per assignment shape, initial value, width and object, and per register of every generated program and design, discharged by SMT on the emitted RTL from an arbitrary state'
NOTE['C08'] = 'Proof for all pre-reset states and inputs; assignment shapes, widths and initial values are enumerated (about 2300 combinations), plus all programs of C05/C06 and the designs of tests/extension used as programs (never their expected texts). Array words are read back by simulation (bounded). Known finding: bits selected by a signal. Trusts lib/vsem.py, pyverilog and z3.'
TECH['C04'] = "deductive: path-complete contracts of every operator's constant evaluation over symbolic integers (z3), visitor contracts over opaque operands, and per-tree equivalence of the optimised and resolved expression or module with the original, discharged for all values"
NOTE['C04'] = 'op() contracts hold for all 32-bit operand values; every resolver visitor is checked for every mix of constant and other children; the optimiser is proved on every tree of one or two operators (constants symbolic, except factors, divisors and shift digits, which are enumerated), in three contexts, for all signal values; resolved designs are an enumerated set, each decided for all states and inputs. Known finding: signed division by a power of two. Trusts pyverilog, lib/pyvc.py, lib/vsem.py and z3.'
