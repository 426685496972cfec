"""C18: Importing Verilog preserves the design."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vpath
import itertools, random, re, traceback
import vsem, equiv
import pyverilog.vparser.ast as va
from prove import Unit, main
import veriloggen as V
import veriloggen.verilog.from_verilog as fv

# ---------------------------------------------------------------- cases --
CASES = {}      # group -> [(name, text, must_accept, testbench)]


def case(group, name, text, must=True, tb=''):
    CASES.setdefault(group, []).append((name, text, must, tb))


def mod(body, ports='input CLK, input RST, input [7:0] a, input [7:0] b, input signed [7:0] s, input [2:0] i, output [15:0] y, output reg [15:0] q',
        params='parameter P = 4', name='dut', extra=''):
    return 'module %s %s(%s);\n%s\nendmodule\n%s' % (name, '#(%s)\n' % params if params else '', ports, body, extra)


# expressions: every operator, over opaque operands, and every pair of nested
# operators (grouping)
BIN = ['+', '-', '*', '/', '%', '<<', '>>', '>>>', '<', '>', '<=', '>=', '==', '!=', '===', '!==', '&', '|', '^', '~^', '&&', '||', '**']
UNA = ['-', '!', '~', '&', '~&', '|', '~|', '^', '~^']
LEAF = ['a', 's', '3', "8'd5", "4'sb1010", 'P', 'a[i]', 'a[5:2]', '{a, b}', '{2{i}}', 'f(a)', '(i? a : b)', 'a[P]', "8'hff", 'm[i]', 'm[i][2]']
ENV = 'reg [7:0] m [0:7];\nfunction [7:0] f; input [7:0] x; begin f = x + 1; end endfunction\n'
for o in BIN:
    for l, r in (('a', 'b'), ('s', 's'), ('s', 'a'), ('3', 'i'), ('a', 'P')):
        case('binary', '%s %s %s' % (l, o, r), mod('assign y = %s %s %s;' % (l, o, r)))
    for l in LEAF:
        case('binary', '%s %s i' % (l, o), mod(ENV + 'assign y = %s %s i;' % (l, o)))
for o in UNA:
    for l in LEAF:
        case('unary', '%s %s' % (o, l), mod(ENV + 'assign y = %s %s;' % (o, l)))
for o, p in itertools.product(BIN, BIN):
    case('nest %s' % o, '(a %s b) %s s' % (o, p), mod('assign y = (a %s b) %s s;' % (o, p)))
    case('nest %s' % o, 'a %s (b %s s)' % (o, p), mod('assign y = a %s (b %s s);' % (o, p)))
    case('nest %s' % o, 'a %s b %s s' % (o, p), mod('assign y = a %s b %s s;' % (o, p)))
for u, p in itertools.product(UNA, BIN):
    case('nest unary', '%s(a %s b)' % (u, p), mod('assign y = %s(a %s b);' % (u, p)))
    case('nest unary', '%s a %s b' % (u, p), mod('assign y = (%s a) %s b;' % (u, p)))
    case('nest unary', 'b %s (%s a)' % (p, u), mod('assign y = b %s (%s a);' % (p, u)))
for u, v in itertools.product(UNA, UNA):
    case('nest unary', '%s(%s a)' % (u, v), mod('assign y = %s(%s a);' % (u, v)))
for c in ('a? b : s', '(a > b)? a : (b? s : i)', '(a? b : i)? s : a', 'a[0]? (b? 1 : 2) : 3', 'a? b : s + i', '(a? b : s) + i', 'i == 1? a : i == 2? b : s'):
    case('conditional', c, mod('assign y = %s;' % c))
for e in ('{a}', '{a, b}', '{a, {b, i}}', '{a, 4\'d3, b[2:0]}', '{2{a}}', '{P{i}}', '{3{a[0], b[1]}}', '{(P+1){i[0]}}', '{{4{s[7]}}, s, 4\'b0}', '{2{{2{i}}}}'):
    case('concat', e, mod('assign y = %s;' % e))
for e in ('a[0]', 'a[7]', 'a[i]', 'a[i + 1]', 'a[P]', 'a[P-1]', 'a[7:4]', 'a[P+1:P]', 'a[P:0]', 'm[i]', 'm[i+1]', 'm[3][2]', 'm[i][P]', 'm2[1][i]', 'm2[1][i][3]',
          'd[7:0]', 'd[3]', 'u[4]', 'u[2:6]', 'n[5:4]', 'n[9]'):
    case('select', e, mod('reg [7:0] m [0:7];\nreg [7:0] m2 [0:1][0:3];\nreg [0:7] u;\nreg [9:2] n;\nwire [P*2-1:0] d;\nassign d = a;\nassign y = %s;' % e))
for e in ('m[i][5:2]', 'm2[i][2][4:1]', 'a[i +: 2]', 'a[i -: 2]', 'm[i][2 +: 3]', 'a[P +: 1]'):
    case('select', e, mod('reg [7:0] m [0:7];\nassign y = %s;' % e), must=False)
for v in ('0', '1', '12', '4\'d9', "8'hAf", "8'HaF", "6'o17", "4'b1_010", "16'd1_000", "'d7", "'hff", "'b101", "8'sd5", "8'shff", "4'sb1111", "'sd3", '4294967295', "32'hffff_ffff",
          "64'h123456789abcdef0", "1'b0", "8'b1010_0101", "3'd7", "12'habc", "-4'd3", '-1', "4'bx", "4'bz", "8'b1x0z_10xz", "8'hxz", "4'bX1Z0", "'bx", "16'hdead"):
    case('literal', v, mod('assign y = %s;' % v))
    case('literal', v + ' as an operand', mod('assign y = a + %s;' % v))
for v in ("4'b?1?0", "8'b?", "'bz?"):
    case('literal', v, mod('assign y = %s;' % v), must=False)
for e in ('a <<< 2', 's <<< i', 's <<< 1 >>> 1'):
    case('select', e, mod('assign y = %s;' % e), must=False)
for v in ('1.5', '0.25', '1e3', '2.5e-1', '10.0'):
    case('real literal', v, mod('initial begin $display("%%f", %s); end' % v), must=False)
for v in ('"abc"', '""', '"%d %b"', '"a b"', r'"x\n"', r'"\t%h\\"', r'"say \"hi\""'):
    case('string literal', v, mod('initial begin $display(%s); end' % v))
case('string literal', 'to a vector', mod('assign y = "ab";'))

# declarations
RANGES = ['', '[7:0]', '[0:7]', '[P-1:0]', '[P:0]', '[P*2-1:P]', '[9:2]', '[2:9]', '[0:0]', '[P+3:2]', '[(P-1):0]', '[L-1:0]', '[8-1:0]']
for r in RANGES:
    for sg in ('', 'signed '):
        for k in ('input', 'output', 'inout', 'output reg', 'input wire', 'output wire', 'inout wire'):
            if 'L' in r:
                continue
            nm = '%s %s%s' % (k, sg, r)
            body = '' if 'input' in k or 'inout' in k else 'always @(posedge CLK) x <= x + 1;' if 'reg' in k else 'assign x = 5;'
            case('port', nm, mod(body, 'input CLK, %s %s%s x' % (k, sg, r)), must=k != 'inout wire')
        for k in ('wire', 'reg'):
            body = 'localparam L = 6;\n%s %s%s x;\n' % (k, sg, r)
            body += 'always @(posedge CLK) x <= a;' if k == 'reg' else 'assign x = a;'
            case('net', '%s %s%s' % (k, sg, r), mod(body + '\nassign y = x;'))
            for dm in ('[0:3]', '[3:0]', '[1:5]', '[0:P-1]', '[0:1][0:2]', '[0:3][7:0]', '[P:0]'):
                case('array', '%s %s%s x %s' % (k, sg, r, dm), mod('localparam L = 6;\n%s %s%s x %s;' % (k, sg, r, dm)))
for k in ('integer', 'genvar', 'tri', 'supply0', 'supply1'):
    case('net', k, mod('%s x;' % k), must=k in ('integer', 'genvar'))
case('net', 'tri [3:0]', mod('tri [3:0] x;\nassign x = a;'), must=False)
case('net', 'list', mod('wire [3:0] x, z, w;\nreg [1:0] r, t [0:3];\ninteger j, k;\nassign x = a; assign z = x; assign w = z;'))
case('net', 'wire with assignment', mod('wire [3:0] x = a + b;\nassign y = x;'))
case('net', 'reg with initial value', mod('reg [3:0] x = 5;\nassign y = x;'), must=False)
case('net', 'integer with initial value', mod('integer x = 5;'), must=False)
case('net', 'two wires with assignments', mod('wire [3:0] x = a, z = b;\nassign y = x + z;'), must=False)
for v in ('8', "4'd3", 'P', 'P + 1', 'P * 2 - 1', '-1', "8'hff", 'P > 3', '(P > 3)? 1 : 2', '{P, 2\'b01}', 'P << 2', '"abc"', '1.5', "8'sd3", '-P', '(P + 1) * 2'):
    for k in ('parameter', 'localparam'):
        for r in ('', '[7:0] ', 'signed ', 'signed [7:0] ', '[P-1:0] '):
            case(k, '%s %sX = %s' % (k, r, v), mod('%s %sX = %s;\nassign y = X;' % (k, r, v)), must=v != '1.5')
    case('parameter', 'header X = %s' % v, mod('assign y = X;', params='parameter P = 4, parameter X = %s' % v), must=v != '1.5')
    case('parameter', 'header signed X = %s' % v, mod('assign y = X;', params='parameter P = 4, parameter signed [7:0] X = %s' % v), must=v != '1.5')
case('parameter', 'list', mod('parameter A = 1, B = 2;\nlocalparam C = A + B, D = C;\nassign y = D;'))
case('parameter', 'dependent widths', mod('wire [W-1:0] x;\nassign x = a;\nassign y = x;', params='parameter P = 4, parameter W = P'))
case('parameter', 'no parameters', mod('assign y = a;', params=''))

# ports in the old style
OLD = [('input a; output y; assign y = a;', 'a, y'), ('input [7:0] a; output [7:0] y; reg [7:0] y; input CLK; always @(posedge CLK) y <= a;', 'CLK, a, y'),
       ('output [3:0] y; input [3:0] a; wire [3:0] y; assign y = a;', 'a, y'), ('input signed [3:0] a; output signed [3:0] y; assign y = -a;', 'a, y'),
       ('input a, b, c; output y; assign y = a & b | c;', 'a, b, c, y'), ('inout io; input e; assign io = e? 1 : 1\'bz;', 'e, io'),
       ('parameter W = 4; input [W-1:0] a; output [W-1:0] y; assign y = a;', 'a, y'), ('input CLK; output reg [3:0] y; always @(posedge CLK) y <= y + 1;', 'CLK, y'),
       ('output y; input a; reg y; always @(a) y = a;', 'y, a')]
for b, p in OLD:
    case('old style ports', b, 'module dut(%s);\n%s\nendmodule\n' % (p, b.replace('; ', ';\n')))
case('old style ports', 'parameters in the header', 'module dut #(parameter W = 4)(a, y);\ninput [W-1:0] a;\noutput [W-1:0] y;\nassign y = a;\nendmodule\n')
case('old style ports', 'no ports', 'module dut;\nreg r;\ninitial begin r = 0; end\nendmodule\n')
case('old style ports', 'empty ports', 'module dut();\nreg r;\ninitial begin r = 0; end\nendmodule\n')

# assigns
for l in ('y', 'y[3]', 'y[i]', 'y[7:4]', 'y[P+1:P]', '{w, y}', '{w[1], y[3:0], w[0]}'):
    case('assign', l, mod('wire [3:0] w;\nassign %s = a + b;' % l))
case('assign', 'list', mod('wire [3:0] w;\nassign w = a, y = b;'), must=False)
case('assign', 'delay', mod('assign #3 y = a;'), must=False)
case('assign', 'strength', mod('assign (pull1, strong0) y = a;'), must=False)

# always blocks
for s in ('@(posedge CLK)', '@(negedge CLK)', '@(posedge CLK or negedge RST)', '@(posedge CLK, posedge RST)', '@(a)', '@(a or b)', '@(a, b, i)', '@(*)', '@*', '@(posedge a[0])', '@(a[3])',
          '@(m[1])'):
    for st in ('q <= a + b;', 'q = a;', 'begin q <= a; end', 'if(RST) q <= 0; else q <= q + 1;'):
        case('always', s + ' ' + st, mod('reg [7:0] m [0:3];\nalways %s %s' % (s, st)))
case('always', 'no event control', mod('reg c;\ninitial c = 0;\nalways #5 c = !c;'), must=False)
case('always', 'begin delay', mod('reg c;\ninitial begin c = 0; end\nalways begin #5; c = !c; end'), must=False)
STM = {'nonblocking': 'q <= a;', 'blocking': 'q = a;', 'two': 'q <= a; r <= b;', 'bit': 'q[3] <= a[0];', 'slice': 'q[7:4] <= a;', 'variable bit': 'q[i] <= a;', 'word': 'm[i] <= a;', 'word bit': 'm[i][2] <= a;',
       'word slice': 'm[i][3:1] <= a;', 'concat': '{q, r} <= a;', 'concat parts': '{q[3:0], r[1], m[2]} <= a;', 'if': 'if(a) q <= b;', 'if else': 'if(a) q <= b; else q <= s;',
       'if else if': 'if(a > b) q <= 1; else if(a == b) q <= 2; else q <= 3;', 'dangling else': 'if(a) begin if(b) q <= 1; end else q <= 2;',
       'dangling else inner': 'if(a) if(b) q <= 1; else q <= 2;', 'if block': 'if(a) begin q <= b; r <= a; end else begin r <= 0; end', 'if empty then': 'if(a) begin end else q <= b;',
       'if null': 'if(a) ; else q <= b;', 'nested if': 'if(a) begin if(b) begin q <= 1; end else begin if(i) q <= 2; else q <= 3; end end',
       'case': 'case(i) 0: q <= a; 1: q <= b; default: q <= s; endcase', 'case no default': 'case(i) 0: q <= a; 3\'d5: q <= b; endcase', 'case labels': 'case(i) 0, 1, 2: q <= a; 3, 4: begin q <= b; r <= a; end default: q <= 0; endcase',
       'case expression labels': 'case(1) a[0]: q <= 1; a[1] & b[0]: q <= 2; P > 3: q <= 3; endcase', 'casex': 'casex(a) 8\'b1xxx_xxx0: q <= 1; 8\'b01xxxxxx: q <= 2; default: q <= 3; endcase',
       'casez': 'casez(a) 8\'b1zzz_zzz0: q <= 1; 8\'b01xxxxxx: q <= 2; default: q <= 3; endcase', 'case in case': 'case(i) 0: case(a) 1: q <= 1; default: q <= 2; endcase default: q <= 5; endcase',
       'case in if': 'if(a) case(i) 1: q <= 1; 2: q <= 2; endcase else q <= 3;', 'case empty': 'case(i) 0: ; 1: q <= b; default: begin end endcase', 'default first': 'case(i) default: q <= s; 0: q <= a; endcase',
       'for': 'for(j = 0; j < 4; j = j + 1) q[j] = a[j];', 'for block': 'for(j = 0; j < 8; j = j + 1) begin m[j] <= a + j; if(a[j]) q = j; end', 'for down': 'for(j = 7; j >= 0; j = j - 1) if(a[j]) q = j;',
       'nested for': 'for(j = 0; j < 2; j = j + 1) for(k = 0; k < 3; k = k + 1) q[j * 3 + k] = a[k];', 'while': 'j = 0; while(j < 5) begin q[j] = b[j]; j = j + 1; end', 'while single': 'j = 0; while(j < 5) j = j + 1;',
       'block': 'begin q <= a; begin r <= b; q <= s; end end', 'named block': 'begin : blk q <= a; r <= q; end', 'block with declaration': 'begin : blk reg [3:0] t; t = a; q <= t; end',
       'repeat': 'repeat(3) q = q + 1;', 'repeat block': 'repeat(P) begin q = q + a; end', 'order': 'q = a; r = q; q = r + 1;', 'rdelay': 'q <= #2 a;', 'ldelay': '#2 q <= a;', 'task call': 't1(a);', 'task call 2': 't2(a, b);',
       'system task': '$display("q = %d %h", q, a + b);', 'system task no args': '$finish;', 'system function': 'q <= $signed(a) + $time;', 'function call': 'q <= f(a) + f(b + 1);', 'function call 2': 'q <= g(a, s);',
       'wait': 'wait(a) q = b;', 'wait only': 'wait(a);', 'event': '@(posedge RST); q = a;', 'event statement': '@(posedge RST) q = a;', 'delay': '#10; q = a;', 'disable': 'begin : d1 q <= a; disable d1; end', 'fork': 'fork q = a; r = b; join',
       'forever': 'forever begin #5; q = q + 1; end', 'forever single': 'forever #5 q = q + 1;', 'trigger': '-> ev;', 'null': ';', 'force': 'force q = a;', 'procedural assign': 'assign q = a;', 'unsigned': 'q <= $unsigned(s);',
       'unique if': 'if(a == 1) q <= 1; if(a == 2) q <= 2;', 'conditional': 'q <= a? b : s;', 'minus delay expression': 'q <= #(P + 1) a;', 'multiple concat': '{q[0], {r, q[2:1]}} <= a;'}
STM['casez with ?'] = "casez(a) 8'b1??????0: q <= 1; default: q <= 3; endcase"
STM['casex with ?'] = "casex(a) 8'b1??????0: q <= 1; default: q <= 3; endcase"
STM['unique case'] = 'unique case(i) 0: q <= 1; default: q <= 3; endcase'
SOFT = {'word slice', 'default first', 'casex with ?', 'casez with ?', 'unique case', 'casez', 'repeat', 'repeat block', 'named block', 'block with declaration', 'disable', 'fork', 'trigger', 'null', 'force', 'procedural assign', 'ldelay', 'if null', 'case empty', 'wait', 'wait only', 'event statement',
        'forever', 'forever single', 'task call', 'task call 2', 'delay', 'event', 'multiple concat', 'system task no args', 'minus delay expression', 'if empty then', 'rdelay'}
DECL = 'reg [3:0] r;\nreg [7:0] m [0:7];\ninteger j, k;\nfunction [7:0] f; input [7:0] x; begin f = x + 1; end endfunction\n' \
    'function [7:0] g; input [7:0] x; input signed [7:0] z; begin if(x > 3) g = z; else g = x - z; end endfunction\n'
TASKS = 'task t1;\ninput [7:0] x;\nbegin q = x; end\nendtask\ntask t2;\ninput [7:0] x;\ninput [7:0] z;\nreg [7:0] w;\nbegin w = x + z; q = w; end\nendtask\n'
for n, s in STM.items():
    d = DECL + (TASKS if n.startswith('task') else '')
    case('statement', n, mod(d + 'always @(posedge CLK) begin\n%s\nend' % s), must=n not in SOFT)
    case('statement in initial', n, mod(d + 'initial begin\n%s\nend' % s), must=n not in SOFT)
    if n not in ('block with declaration', 'named block', 'wait', 'wait only', 'event', 'event statement', 'fork', 'forever', 'forever single', 'delay'):
        case('statement in if', n, mod(d + 'always @(posedge CLK) begin\nif(RST) begin\n%s\nend else begin\nq <= 7;\n%s\nend\nend' % (s, s)), must=n not in SOFT)
        case('statement in else', n, mod(d + 'always @(posedge CLK) begin\nif(RST) q <= 1; else begin\n%s\nend\nend' % s), must=n not in SOFT)
        case('statement in case', n, mod(d + 'always @(posedge CLK) begin\ncase(i) 1: begin %s end 2: q <= 9; default: begin %s end endcase\nend' % (s, s)), must=n not in SOFT)
        case('statement in for', n, mod(d + 'integer o;\nalways @(posedge CLK) begin\nfor(o = 0; o < 2; o = o + 1) begin %s end\nend' % s), must=n not in SOFT)
        case('statement in while', n, mod(d + 'integer o;\nalways @(posedge CLK) begin\no = 0; while(o < 2) begin %s o = o + 1; end\nend' % s), must=n not in SOFT)
        if not n.startswith(('task', 'system task', 'function', 'order')):
            case('statement in task', n, mod(d + 'task t9;\ninput [7:0] x;\nbegin\n%s\nend\nendtask\nalways @(posedge CLK) begin t9(a); end' % s.replace('<=', '=')), must=False)

# functions and tasks
FUN = {'no range': 'function f; input x; begin f = !x; end endfunction', 'range': 'function [3:0] f; input [7:0] x; begin f = x[7:4]; end endfunction', 'range of a parameter': 'function [P-1:0] f; input [P-1:0] x; begin f = x + 1; end endfunction',
       'two inputs': 'function [7:0] f; input [7:0] x; input [3:0] z; begin f = x + z; end endfunction', 'input list': 'function [7:0] f; input [7:0] x, z; begin f = x - z; end endfunction',
       'local reg': 'function [7:0] f; input [7:0] x; reg [7:0] t; begin t = x * 2; f = t + 1; end endfunction', 'local integer': 'function [7:0] f; input [7:0] x; integer n; begin f = 0; for(n = 0; n < 8; n = n + 1) f = f + x[n]; end endfunction',
       'signed input': 'function [7:0] f; input signed [3:0] x; begin f = x; end endfunction', 'signed local': 'function [7:0] f; input [3:0] x; reg signed [3:0] t; begin t = x; f = t; end endfunction',
       'signed return': 'function signed [7:0] f; input [3:0] x; begin f = x; end endfunction', 'integer return': 'function integer f; input [3:0] x; begin f = x - 1; end endfunction', 'automatic': 'function automatic [7:0] f; input [7:0] x; begin f = x; end endfunction',
       'ansi ports': 'function [7:0] f(input [7:0] x, input signed [3:0] z); begin f = x + z; end endfunction', 'case': 'function [7:0] f; input [2:0] x; begin case(x) 0: f = 1; 1: f = 2; default: f = 3; endcase end endfunction',
       'single statement': 'function [7:0] f; input [7:0] x; f = x + 3; endfunction', 'reversed range': 'function [0:7] f; input [0:7] x; begin f = x[0:3]; end endfunction', 'name of a net': 'function [7:0] f; input [7:0] a; begin f = a + 1; end endfunction',
       'calls another': 'function [7:0] h; input [7:0] x; begin h = x + 5; end endfunction\nfunction [7:0] f; input [7:0] x; begin f = h(x) + h(x + 1); end endfunction', 'if only': 'function [7:0] f; input [7:0] x; if(x) f = 1; else f = 2; endfunction',
       'local reg array': 'function [7:0] f; input [7:0] x; reg [7:0] t [0:1]; begin t[0] = x; f = t[0]; end endfunction', 'reads a module signal': 'function [7:0] f; input [7:0] x; begin f = x + b; end endfunction'}
for n, s in FUN.items():
    args = 'a, b' if 'two' in n or 'list' in n or 'ansi' in n else 'a'
    case('function', n, mod('%s\nassign y = f(%s);' % (s, args)), must=n not in ('signed return', 'integer return', 'automatic', 'local reg array', 'single statement', 'if only', 'ansi ports'))
    case('function', n + ' in always', mod('%s\nalways @(posedge CLK) q <= f(%s) - 1;' % (s, args)), must=n not in ('signed return', 'integer return', 'automatic', 'local reg array', 'single statement', 'if only', 'ansi ports'))
TSK = {'one input': 'task t; input [7:0] x; begin q = x; end endtask', 'two inputs': 'task t; input [7:0] x; input [7:0] z; begin q = x - z; end endtask', 'local reg': 'task t; input [7:0] x; reg [7:0] w; begin w = x + 1; q = w; end endtask',
       'local integer': 'task t; input [7:0] x; integer n; begin for(n = 0; n < 4; n = n + 1) q[n] = x[n]; end endtask', 'output': 'task t; input [7:0] x; output [7:0] z; begin z = x + 1; end endtask', 'inout': 'task t; inout [7:0] x; begin x = x + 1; end endtask',
       'no input': 'task t; begin q = 5; end endtask', 'delay': 'task t; input [7:0] x; begin #10; q = x; end endtask', 'automatic': 'task automatic t; input [7:0] x; begin q = x; end endtask'}
for n, s in TSK.items():
    call = {'two inputs': 't(a, b);', 'output': 't(a, q);', 'inout': 't(q);', 'no input': 't;'}.get(n, 't(a);')
    case('task', n, mod('%s\nalways @(posedge CLK) begin %s end' % (s, call)), must=False)
    case('task', n + ' in initial', mod('%s\ninitial begin %s end' % (s, call)), must=False)
    case('task', n + ' declared only', mod(s), must=n not in ('output', 'inout', 'automatic', 'no input'))

# instances
SUB = 'module sub #(parameter W = 8, parameter D = 2)(input CLK, input [W-1:0] x, output [W-1:0] z, output reg [D-1:0] r);\nassign z = x + D;\nalways @(posedge CLK) r <= x;\nendmodule\n'
INS = {'named': 'sub u(.CLK(CLK), .x(a), .z(y[7:0]));', 'explicitly unconnected': 'sub u(.CLK(CLK), .x(a), .z(y[7:0]), .r());', 'named reordered': 'sub u(.z(y[7:0]), .x(a), .CLK(CLK));', 'positional': 'sub u(CLK, a, w, v);', 'positional short': 'sub u(CLK, a, w);', 'positional gap': 'sub u(CLK, a, , v);',
       'expression': 'sub u(.CLK(CLK), .x(a + b), .z(w));', 'constant': "sub u(.CLK(CLK), .x(8'd7), .z(w));", 'concat': 'sub u(.CLK(CLK), .x({a[3:0], b[3:0]}), .z({w[3:0], w[7:4]}));', 'unconnected': 'sub u(.CLK(CLK), .x(), .z(w), .r());',
       'named parameters': 'sub #(.W(4), .D(3)) u(.CLK(CLK), .x(a[3:0]), .z(w[3:0]));', 'positional parameters': 'sub #(4, 3) u(CLK, a[3:0], w[3:0], v);', 'one parameter': 'sub #(4) u(CLK, a[3:0], w[3:0]);',
       'parameter expression': 'sub #(.W(P * 2), .D(P - 1)) u(.CLK(CLK), .x(a), .z(w));', 'two statements': 'sub u1(CLK, a, w);\nsub u2(CLK, b, y[7:0]);', 'list': 'sub u1(CLK, a, w), u2(CLK, b, y[7:0]);',
       'array': 'sub u[1:0](CLK, {a, b}, y);', 'two parameterizations': 'sub #(.W(8)) u1(CLK, a, w);\nsub #(.W(4)) u2(CLK, b[3:0], y[3:0]);', 'no ports': 'nop u();', 'unknown module': 'other #(.Q(3)) u(.x(a), .y(w));',
       'unknown module positional': 'other #(3) u(a, w);', 'inside a hierarchy': 'mid u(CLK, a, w);', 'literal parameter': "sub #(.W(4'd8)) u(CLK, a, w);", 'deep and direct': 'mid u(CLK, a, w);\nsub u3(CLK, b, y[7:0]);'}
for n, s in INS.items():
    ex = (SUB if 'sub ' in s or 'mid' in s else '') + ('module nop;\nreg r;\ninitial begin r = 0; end\nendmodule\n' if 'nop' in s else '') + ('module mid(input CLK, input [7:0] x, output [7:0] z);\nsub #(.D(1)) u(CLK, x, z);\nendmodule\n' if 'mid' in s else '')
    t = mod('wire [7:0] w;\nwire [1:0] v;\n%s' % s)
    case('instance', n, t + ex, must=n not in ('array', 'unconnected', 'explicitly unconnected', 'unknown module', 'unknown module, definition first', 'positional gap', 'list', 'unknown module positional'))
    case('instance', n + ', definition first', ex + t, must=n not in ('array', 'unconnected', 'explicitly unconnected', 'unknown module', 'unknown module, definition first', 'positional gap', 'list', 'unknown module positional'))

# generate
GEN = {'for': 'generate for(g = 0; g < 4; g = g + 1) begin : lp assign y[g] = a[g]; end endgenerate', 'for up to a parameter': 'generate for(g = 0; g < P; g = g + 1) begin : lp assign y[g] = a[g] ^ b[g]; end endgenerate',
       'for with declarations': 'generate for(g = 0; g < 4; g = g + 1) begin : lp wire w; reg r; assign w = a[g]; assign y[g] = w; always @(posedge CLK) r <= w; end endgenerate',
       'for with instances': 'generate for(g = 0; g < 2; g = g + 1) begin : lp inv u(.x(a[g]), .z(y[g])); end endgenerate', 'if': "generate if(P > 3) begin : ta assign y = a; end endgenerate",
       'if else': 'generate if(P > 3) begin : ta assign y = a; end else begin : fa assign y = b; end endgenerate', 'if not taken': 'generate if(P < 3) begin : ta assign y = a; end else begin : fa assign y = b; end endgenerate',
       'if unnamed': 'generate if(P > 3) begin assign y = a; end else begin assign y = b; end endgenerate', 'else if': 'generate if(P == 1) begin : g1 assign y = 1; end else if(P == 4) begin : g2 assign y = 4; end else begin : g3 assign y = 9; end endgenerate',
       'two for': 'generate for(g = 0; g < 4; g = g + 1) begin : l1 assign y[g] = a[g]; end endgenerate\ngenerate for(g = 0; g < 4; g = g + 1) begin : l2 assign y[g + 4] = b[g]; end endgenerate',
       'two in one': 'generate for(g = 0; g < 4; g = g + 1) begin : l1 assign y[g] = a[g]; end for(g = 0; g < 4; g = g + 1) begin : l2 assign y[g + 4] = b[g]; end endgenerate',
       'nested for': 'generate for(g = 0; g < 2; g = g + 1) begin : l1 for(h = 0; h < 3; h = h + 1) begin : l2 assign y[g * 3 + h] = a[g] & b[h]; end end endgenerate',
       'if in for': 'generate for(g = 0; g < 4; g = g + 1) begin : l1 if(g > 1) begin : l2 assign y[g] = a[g]; end else begin : l3 assign y[g] = b[g]; end end endgenerate',
       'for in if': 'generate if(P > 2) begin : c1 for(g = 0; g < 4; g = g + 1) begin : l1 assign y[g] = a[g]; end end endgenerate', 'for in else': 'generate if(P > 20) begin : c1 assign y = 0; end else begin : c2 for(g = 0; g < 4; g = g + 1) begin : l1 assign y[g] = a[g]; end end endgenerate',
       'if in else': 'generate if(P > 20) begin : c1 assign y = 0; end else begin : c2 if(P > 3) begin : c3 assign y = a; end else begin : c4 assign y = b; end end endgenerate', 'if in if': 'generate if(P > 2) begin : c1 if(P > 3) begin : c3 assign y = a; end end endgenerate',
       'case': 'generate case(P) 1: begin : c1 assign y = 1; end default: begin : c2 assign y = 2; end endcase endgenerate', 'scope reference': 'generate for(g = 0; g < 4; g = g + 1) begin : lp wire w; assign w = a[g]; end endgenerate\nassign y[0] = lp[1].w;',
       'scope reference of an if': 'generate if(P > 3) begin : ta wire w; assign w = a[0]; end endgenerate\nassign y[0] = ta.w;', 'same label on both sides': 'generate if(P > 3) begin : t1 assign y = a; end else begin : t1 assign y = b; end endgenerate',
       'always in if': 'generate if(P > 3) begin : ta always @(posedge CLK) begin if(RST) q <= 0; else q <= a; end end endgenerate', 'always in for': 'generate for(g = 0; g < 4; g = g + 1) begin : l1 always @(posedge CLK) begin if(RST) q[g] <= 0; else q[g] <= a[g]; end end endgenerate',
       'for loop in always in for': 'generate for(g = 0; g < 2; g = g + 1) begin : l1 integer j; always @(posedge CLK) begin for(j = 0; j < 2; j = j + 1) begin q[g * 2 + j] <= a[j]; end end end endgenerate',
       'initial in for': 'generate for(g = 0; g < 2; g = g + 1) begin : l1 reg r; initial begin if(P) r = 0; else r = 1; end end endgenerate', 'initial for in if': 'generate if(P) begin : l1 integer n; initial begin for(n = 0; n < 4; n = n + 1) begin q[n] = 0; end end end endgenerate',
       'parameter in for': 'generate for(g = 0; g < 2; g = g + 1) begin : l1 localparam K = g + 1; assign y[g] = a[K]; end endgenerate', 'function in a generate': 'generate if(P) begin : l1 function [7:0] f1; input [7:0] x; begin if(x) f1 = 1; else f1 = x; end endfunction assign y = f1(a); end endgenerate',
       'single statement if': 'generate if(P > 3) assign y = a; else assign y = b; endgenerate', 'without keyword': 'for(g = 0; g < 4; g = g + 1) begin : lp assign y[g] = a[g]; end', 'if without keyword': 'if(P > 3) begin : ta assign y = a; end',
       'three in a row': 'generate if(P == 1) begin assign y[0] = 0; end if(P == 4) begin assign y[1] = 1; end if(P == 5) begin assign y[2] = 1; end endgenerate', 'genvar in the loop': 'generate genvar gg; for(gg = 0; gg < 4; gg = gg + 1) begin : lp assign y[gg] = a[gg]; end endgenerate',
       'if else of parts': 'generate if(P > 3) begin : ta assign y[3:0] = a; end else begin : fa assign y[7:4] = b; end endgenerate',
       'if in else of parts': 'generate if(P > 20) begin : c1 assign y[0] = 0; end else begin : c2 if(P > 3) begin : c3 assign y[1] = a[0]; end else begin : c4 assign y[2] = b[0]; end end endgenerate',
       'else if of parts': 'generate if(P == 1) begin : g1 assign y[0] = 1; end else if(P == 4) begin : g2 assign y[1] = 1; end else begin : g3 assign y[2] = 1; end endgenerate',
       'for in else in for': 'generate for(g = 0; g < 3; g = g + 1) begin : l1 if(g > 1) begin : l2 assign y[g] = a[g]; end else begin : l3 for(h = 0; h < 2; h = h + 1) begin : l4 wire w; assign w = a[h]; end assign y[g + 8] = l4[0].w; end end endgenerate',
       'always in else': 'generate if(P > 3) begin : t1 always @(posedge CLK) q <= a; end else begin : f1 always @(posedge CLK) q <= b; end endgenerate',
       'instances in else': 'generate if(P > 3) begin : t1 inv u(.x(a[0]), .z(y[0])); end else begin : f1 inv u(.x(a[1]), .z(y[1])); inv v(.x(a[2]), .z(y[2])); end endgenerate',
       'initial in a for': 'generate for(g = 0; g < 2; g = g + 1) begin : l1 reg r; initial begin r = g; end end endgenerate',
       'count by two': 'generate for(g = 0; g < 8; g = g + 2) begin : lp assign y[g] = a[g]; assign y[g + 1] = b[g]; end endgenerate', 'count down': 'generate for(g = 3; g > 0; g = g - 1) begin : lp assign y[g] = a[g]; end endgenerate'}
for n, s in GEN.items():
    for p in (4, 1):
        case('generate', '%s, P = %d' % (n, p), mod('genvar g, h;\n%s' % s, params='parameter P = %d' % p, extra='module inv(input x, output z);\nassign z = !x;\nendmodule\n' if 'inv' in s else ''),
             must=n not in ('if else', 'if not taken', 'if unnamed', 'if in else', 'same label on both sides', 'initial for in if', 'case', 'single statement if', 'without keyword', 'if without keyword', 'genvar in the loop', 'function in a generate', 'parameter in for', 'else if', 'else if of parts', 'for in else in for', 'scope reference of an if'))

# several modules, several constructs
MIX = {
    'counter': mod('reg [7:0] c;\nwire t;\nassign t = c == P;\nassign y = {8\'d0, c};\nalways @(posedge CLK) begin\nif(RST) begin c <= 0; q <= 0; end else begin\nif(t) c <= 0; else c <= c + 1;\nif(t) q <= q + a;\nend\nend'),
    'order of items': mod('wire [7:0] w1;\nassign w1 = a;\nreg [7:0] r1;\nalways @(posedge CLK) r1 <= w1;\nwire [7:0] w2;\nassign w2 = r1 + b;\nassign y = w2;\nalways @(posedge CLK) q <= w2;'),
    'two drivers of parts': mod('assign y[7:0] = a;\nassign y[15:8] = b;'),
    'memory': mod('reg [7:0] mem [0:15];\nalways @(posedge CLK) begin if(a[0]) mem[b[3:0]] <= a; q <= mem[a[3:0]]; end\nassign y = mem[i];'),
    'blocking chain': mod('reg [7:0] t, u;\nalways @(posedge CLK) begin t = a + 1; u = t * 2; t = u - b; q <= t; end'),
    'comb': mod('reg [7:0] t;\nalways @* begin t = 0; case(i) 1: t = a; 2, 3: t = b; endcase end\nassign y = t;'),
    'directives': '`define W 8\n' + mod('`ifdef X\nassign y = b;\n`else\nassign y = a[`W-1:0];\n`endif'),
    'comments': mod('// assign y = b;\n/* assign y = s; */\nassign y = a; // end'),
    'escaped name': mod('wire \\w+1 ;\nassign \\w+1 = a[0];\nassign y = \\w+1 ;'),
}
for n, t in MIX.items():
    case('design', n, t, must=n not in ('escaped name', 'directives'))


# ------------------------------------------------------------- deciding --
real_to_ast = fv.to_ast


def quick_to_ast(*filelist, **opt):
    """the parse of pyverilog by one parser object (its tables are built only
    once); unit 'preprocessing' relates it to the real one"""
    text = ''.join(open(f).read() for f in filelist)
    return real_to_ast(*filelist, **opt) if '`' in text or opt else vsem.parse(text)


def roundtrip(text, quick=True):
    V.reset()
    fv.to_ast = quick_to_ast if quick else real_to_ast
    mods = fv.read_verilog_module_str(text)
    return mods['dut'].to_verilog(), sorted(mods)


def difference(a, b):
    return equiv.same_ast(a, b)


def declared(mod):
    """every declaration: which name is declared as what"""
    out = {}
    for it in equiv.flat_items(mod):
        if isinstance(it, (va.Variable, va.Parameter)):
            out.setdefault(it.name, []).append(equiv.nf(it))
    return out


def nodes(n, out=None):
    out = {} if out is None else out
    k = type(n).__name__
    out[k] = out.get(k, 0) + 1
    for c in n.children():
        nodes(c, out)
    return out


def legal(text):
    import subprocess, tempfile
    with tempfile.NamedTemporaryFile('w', suffix='.v') as f:
        f.write(text)
        f.flush()
        p = subprocess.run(['iverilog', '-g2005-sv' if False else '-g2005', '-tnull', '-s', 'dut', f.name], capture_output=True, text=True)
    return p.returncode == 0, (p.stdout + p.stderr)[:600]


def u_case(rec, group):
    rec.function('VerilogReadVisitor.visit_* (%s)' % group)
    n_acc = n_rej = 0
    for name, text, must, tb in CASES[group]:
        nm = '%s: %s' % (group, name)
        info = dict(kind='import', source=text)
        try:
            vsem.parse(text)
        except Exception as ex:
            rec.holds('%s: the source is parsed' % nm, not must, repr(ex))       # outside pyverilog's grammar
            n_rej += 1
            continue
        try:
            got, names = roundtrip(text)
        except Exception as ex:
            n_rej += 1
            rec.holds('%s: a supported construct is accepted' % nm, not must, traceback.format_exc(), dict(info, error=repr(ex)))
            continue
        n_acc += 1
        info['emitted'] = got
        try:
            d = difference(got, text)
        except Exception as ex:
            ok, msg = legal(got)
            rec.holds('%s: legal Verilog' % nm, False, repr(ex), dict(info, error=repr(ex)[:300], iverilog=msg))
            continue
        if d is None:
            rec.holds('%s: the syntax tree is preserved' % nm, True)
            continue
        if 'unknown module' in name:
            rec.holds('%s: the syntax tree is preserved' % nm, False, d, dict(info, difference=str(d)[:800]))
            continue
        if group.endswith('param') or group == 'parameter':      # a string is the vector of its characters (1364-2005, 2.6.2)
            text, got = (t.replace('"abc"', "24'h616263") for t in (text, got))
        if not equiv.compare(rec, nm, got, text, 'dut', what='import of this source and emission'):
            continue
        if 'parameter P = 4' in text:     # the constants derived from a parameter follow it
            equiv.compare(rec, nm + ' with P = 6', got, text, 'dut', what='import of this source and emission, instantiated with P = 6', params={'P': (6, 32, True)})
    if group in ('port', 'binary', 'always', 'instance', 'statement'):
        rec.holds('%s: constructs are accepted' % group, n_acc > 10, '%d accepted' % n_acc)
    rec.sample('%s: %d accepted, %d rejected' % (group, n_acc, n_rej))


def u_files(rec):
    """the file level: preprocessing, several files, includes, defines, stubs"""
    rec.function('to_ast', 'to_module_dict', 'read_verilog_module', 'read_verilog_module_str', 'read_verilog_stubmodule', 'read_verilog_stubmodule_str')
    n = 0
    for g in sorted(CASES):
        for name, text, must, tb in CASES[g][:1] + CASES[g][-1:]:
            try:
                want = vsem.parse(text)
            except Exception:
                continue
            n += 1
            with open('t.v', 'w') as f:
                f.write(text)
            ast = real_to_ast('t.v')
            rec.holds('%s: %s: to_ast delivers the tree of the source' % (g, name), equiv.nf(ast) == equiv.nf(want), '', dict(kind='import', source=text))
            fv.to_ast = quick_to_ast
            try:
                stubs = fv.read_verilog_stubmodule_str(text)
            except Exception:      # rejected
                continue
            code = '\n'.join(m.get_code() for m in stubs.values())
            if g not in ('parameter', 'localparam'):
                d = equiv.same_ast(code, text)
                rec.holds('%s: %s: a stub module is the source' % (g, name), d is None, str(d), dict(kind='import', source=text, emitted=code, difference=str(d)[:500]))
            rec.holds('%s: %s: stub modules by name' % (g, name), sorted(stubs) == sorted(equiv.modules(text)) and all(k == m.name for k, m in stubs.items()), str(list(stubs)))
    os.mkdir('inc')
    with open('inc/defs.vh', 'w') as f:
        f.write('`define W 6\n')
    with open('top.v', 'w') as f:
        f.write('`include "defs.vh"\n' + mod('`ifdef NEG\nassign y = -a[`W-1:0];\n`else\nassign y = a[`W-1:0];\n`endif\nsub u(a[`K], q2);\nwire q2;'))
    with open('sub.v', 'w') as f:
        f.write('module sub(input x, output z);\nassign z = !x;\nendmodule\n')
    fv.to_ast = real_to_ast
    for defs, neg, k in ((['K=3'], '', '3'), (['NEG', 'K=5'], '-', '5'), (('K=3', 'NEG'), '-', '3')):
        for files in (('top.v', 'sub.v'), ('sub.v', 'top.v')):
            V.reset()
            nm = 'files %s, defines %s' % (files, defs)
            want = mod('assign y = %sa[6-1:0];\nsub u(a[%s], q2);\nwire q2;' % (neg, k)) + open('sub.v').read()
            try:
                mods = fv.read_verilog_module(*files, include=['inc'], define=defs)
                got = mods['dut'].to_verilog()
            except Exception as ex:
                mods, got = {}, ex
            rec.holds('%s: every module is delivered' % nm, sorted(mods) == ['dut', 'sub'], str(list(mods)))
            equiv.compare(rec, nm, got, want, 'dut', what='import of two files with an include and defines %s' % (defs,))
    left = sorted(set(os.listdir('.')) - {'parser.out', 'parsetab.py'})      # the tables of pyverilog's parser generator
    rec.holds('no file is left behind', left == ['inc', 'sub.v', 't.v', 'top.v'], str(left))
    rec.ran('the preprocessor and parser of pyverilog called by to_ast', '%d source texts' % n, n)


UNITS = [Unit('files', u_files, (), timeout=800)] + [Unit(g, u_case, (g,), timeout=800) for g in CASES]

if __name__ == '__main__':
    main('C18', UNITS, level='translation_validation', trusted=['pyverilog lexer and parser (the importer reads what it delivers)', 'lib/vsem.py (Verilog-2005 semantics of the subset)', 'z3'],
         assumptions=['a construct pyverilog does not parse is rejected by pyverilog'])
