# What each property's check builds and runs.
# job: src; defs - one build per entry; cfgs (tcfgs - further ones in the thorough tier); modes; n, t - cases per build and mode (quick, thorough)

def typed(fmt, part, groups=range(7)): return [(('FMT', fmt), ('GROUP', g), ('PART', part)) for g in groups]
def strict(part, groups=(0, 2, 6)): return [d + (('STRICT', 1),) for d in typed(0, part, groups)] # JSON with the grammar of numbers checked
def both(part, groups=range(7)): return typed(0, part, groups) + typed(1, part, groups)
T4A = [('a', (('FMT', f), ('GROUP', 4), ('PART', p))) for f in (0, 1) for p in (0, 1, 2)] # C++17 types

def tj(**k):
    k.setdefault('src', 'd_typed.cxx'); k.setdefault('skip', T4A); k.setdefault('tcfgs', []); k.setdefault('cost', 2)
    return k

def nj(fmt, part, modes, n, t, **k):
    k.update(src='d_node.cxx', defs=[(('FMT', fmt), ('PART', part))], modes=modes, n=n, t=t)
    k.setdefault('cfgs', ['a', 'b']); k.setdefault('tcfgs', ['o', 'o11']); k.setdefault('cost', 3)
    return k

def num(fmt, modes, n, t, **k):
    k.setdefault('defs', [(('FMT', fmt),)]); k.update(src='d_num.cxx', modes=modes, n=n, t=t)
    k.setdefault('cfgs', ['a', 'b']); k.setdefault('tcfgs', ['o', 'o11', 'o17']); k.setdefault('cost', 2); k.setdefault('shards', 2)
    return k

ZOO = '''random values of ~150 types (fundamental, strings of every character type, arrays, pointers, standard and Boost containers, tuples, variants, optionals, bit sets, smart pointers and their nestings)'''

PROPS = {}

C03 = dict(
    rule='JSON texts generated from random values in random spellings (escapes, number forms, white space), then mutated, cut off, made of random tokens or nested up to and over the limit; read into all four kinds of nodes; accepted if and only if the reference parser of RFC 8259 accepts, with the same value and stop position; distinct texts are counted',
    jobs=[nj(0, 0, ['accept'], 200000, 4000000, shards=4), nj(0, 0, ['accept'], 0, 200000, cfgs=['bn'], tcfgs=[])],
    need={'accept:accepted': 50000, 'accept:refused': 50000, 'accept:deep': 1000})
C06 = dict(
    rule='CBOR byte strings generated from random items in random encodings (argument widths, indefinite lengths, tags, half precision), then mutated, cut off, made of random heads or nested up to and over the limit; read into all four kinds of nodes; accepted if and only if the reference decoder of RFC 7049 accepts, with the same value and stop position; distinct inputs are counted',
    jobs=[nj(1, 0, ['accept'], 200000, 4000000, shards=4)],
    need={'accept:accepted': 50000, 'accept:refused': 50000, 'accept:deep': 1000})

PROPS['C01'] = dict(
    rule='JSON texts made from ' + ZOO + ' in random spellings, then structurally changed, mutated, cut off at any byte, or made of random tokens; read from exact-size heap copies and through checked iterators; distinct texts (with outcome) are counted',
    jobs=[
        tj(defs=typed(0, 0), cfgs=['a', 'b'], tcfgs=['o', 'o11'], modes=['safety'], nokeys='ec-|end-', n=60000, t=1500000),
        tj(defs=typed(0, 1), cfgs=['b'], tcfgs=['a', 'o11'], modes=['iters'], keys='past-end', n=30000, t=600000),
        tj(defs=strict(0), cfgs=['b'], tcfgs=['a', 'o11'], modes=['safety'], nokeys='ec-|end-', n=40000, t=1000000),
        tj(defs=typed(0, 0), cfgs=['v'], modes=['safety'], nokeys='ec-|end-', nv=1200, n=0),
        nj(0, 0, ['safety'], 60000, 1500000, nokeys='ec-|end-|safety:unstable'), nj(0, 1, ['iters'], 20000, 600000, cfgs=['a'], keys='past-end|crash'),
        nj(0, 0, ['safety'], 0, 0, nv=2000, cfgs=['v'], tcfgs=[], nokeys='ec-|end-|safety:unstable'),
    ], need={'safety:accepted': 10000, 'safety:refused': 10000})
PROPS['C02'] = dict(
    rule='CBOR byte strings made from ' + ZOO + ' in random encodings (argument widths, indefinite lengths, tags), then structurally changed, mutated, cut off at any byte, or made of random heads; read from exact-size heap copies and through checked iterators; distinct inputs (with outcome) are counted',
    jobs=[
        tj(defs=typed(1, 0), cfgs=['a', 'b'], tcfgs=['o', 'o11'], modes=['safety'], nokeys='ec-|end-', n=60000, t=1500000),
        tj(defs=typed(1, 1), cfgs=['b'], tcfgs=['a', 'o11'], modes=['iters'], keys='past-end', n=30000, t=600000),
        tj(defs=typed(1, 0), cfgs=['v'], modes=['safety'], nokeys='ec-|end-', nv=1200, n=0),
        nj(1, 0, ['safety'], 60000, 1500000, nokeys='ec-|end-|safety:unstable'), nj(1, 1, ['iters'], 20000, 600000, cfgs=['a'], keys='past-end|crash'),
        nj(1, 0, ['safety'], 0, 0, nv=2000, cfgs=['v'], tcfgs=[], nokeys='ec-|end-|safety:unstable'),
    ], need={'safety:accepted': 10000, 'safety:refused': 10000})
PROPS['C03'] = C03
PROPS['C04'] = dict(
    rule=ZOO + ', written as JSON, parsed by the reference parser, compared with the documented shape and read back; distinct outputs are counted',
    jobs=[tj(defs=typed(0, 0), cfgs=['b'], tcfgs=['a', 'o'], modes=['rt'], n=60000, t=1000000), nj(0, 0, ['rt'], 30000, 800000)], need={'rt:bytes': 100000})
PROPS['C05'] = dict(
    rule=ZOO + ', written as CBOR, decoded by the reference decoder (shortest form required), compared with the documented shape and read back; distinct outputs are counted',
    jobs=[tj(defs=typed(1, 0), cfgs=['b'], tcfgs=['a', 'o'], modes=['rt'], n=60000, t=1000000), nj(1, 0, ['rt'], 30000, 800000)], need={'rt:bytes': 100000})
PROPS['C06'] = C06
PROPS['C07'] = dict(
    rule='inputs as for C01 and C02 read through pointers, single-pass and forward iterators, std::list and std::string, outcome, stop position and value compared; values written through every kind of output; the same cases in builds of two language standards and without SIMD compared by digest; distinct inputs are counted',
    jobs=[tj(defs=both(1), cfgs=['a', 'b'], tcfgs=['bn', 'o', 'o11'], modes=['iters', 'seq', 'out'], digests=True, keys='iters|out|crash', n=12000, t=250000)] +
        [nj(f, 1, ['iters'], 25000, 500000, cfgs=['a', 'b'], tcfgs=['bn', 'o', 'o11'], digests=True) for f in (0, 1)] +
        [tj(defs=strict(1), cfgs=['b'], tcfgs=['a', 'o11'], modes=['iters', 'seq'], keys='iters|crash', n=12000, t=250000)] +
        [num(0, ['read', 'write'], 40000, 1000000, keys='crash|builds-differ', digests=True, tcfgs=['o', 'o11', 'o17'])],
    need={'iters:accepted': 10000, 'iters:refused': 10000})
PROPS['C08'] = dict(
    rule='inputs as for C01 and C02; whatever is accepted is read again alone and followed by other bytes, and pairs of values one after another from one single-pass stream; distinct inputs are counted',
    jobs=[tj(defs=both(0), cfgs=['b'], tcfgs=['a', 'o'], modes=['stop'], n=40000, t=600000),
          tj(defs=both(1, range(0, 4)), cfgs=['a'], tcfgs=['b'], modes=['seq'], n=20000, t=300000),
          nj(0, 0, ['stop'], 40000, 800000, cfgs=['a']), nj(1, 0, ['stop'], 40000, 800000, cfgs=['a'])],
    need={'stop:whole': 10000, 'stop:part': 1000, 'seq:pairs': 10000})
PROPS['C09'] = dict(
    rule=ZOO + ', written into exact-size ranges of every size up to the size of the output and one more (a sample of the sizes of long outputs), and through output iterators and into containers; distinct (output, range size) pairs are counted',
    jobs=[tj(defs=both(0), cfgs=['b'], tcfgs=['a', 'o'], modes=['bounded'], n=8000, t=150000),
          nj(0, 0, ['bounded'], 8000, 200000, cfgs=['a']), nj(1, 0, ['bounded'], 8000, 200000, cfgs=['a'])],
    need={'bounded:fits': 10000, 'bounded:short': 10000})
PROPS['C10'] = dict(
    rule='number texts around every limit of every arithmetic type, printed values, exact midpoints between neighbouring floating values and texts just above and below them, long digit strings and exponents, and texts that are almost numbers, read through five kinds of input; boundary and random values written at default and given precisions; compared with 128-bit integers, values known by construction and the C library; distinct (text, type, input) are counted',
    jobs=[num(0, ['read', 'write', 'grammar', 'limit'], 100000, 3000000), num(0, ['read', 'grammar', 'limit'], 60000, 2000000, defs=[(('FMT', 0), ('STRICT', 1))], cfgs=['a'])],
    need={'num:fp-in': 10000, 'num:int-out': 10000, 'num:int-in': 10000, 'num:grammar-out': 10000, 'num:limit-over': 10000, 'num:write-precision': 10000})
PROPS['C21'] = dict(
    rule='integers around every limit of every type in every width that holds them, tagged and truncated, all half precision numbers, random and boundary single and double ones, read through four kinds of input; values of every type written and decoded by the reference decoder; distinct (item, type, input) are counted',
    jobs=[num(1, ['integers', 'floats', 'write', 'half'], {'integers': 120000, 'floats': 100000, 'write': 120000, 'half': 65536}, {'integers': 4000000, 'floats': 3000000, 'write': 4000000, 'half': 65536})],
    need={'num:in': 100000, 'num:out': 10000, 'num:write': 10000})
PROPS['C11'] = dict(
    rule='texts of random code points (limits of every encoding length, specials at every offset of plain runs) written from strings, arrays, pointers, characters, map keys and nodes of every character type, compared with the reference parser and read back; strings in any spelling, with one of ~80 kinds of ill-formed UTF-8, control characters, bad escapes and unpaired surrogates put between characters, mutated or cut off, read through four kinds of input; accepted if and only if the reference accepts, as the same text; distinct (text, input) are counted',
    jobs=[dict(src='d_text.cxx', defs=[(('PART', 0),), (('PART', 1),)], cfgs=['a', 'b'], tcfgs=['bn', 'o', 'o11'], modes=['write', 'read', 'surrogates'], n={'write': 60000, 'read': 100000, 'surrogates': 20000}, t={'write': 1500000, 'read': 2500000, 'surrogates': 300000}, cost=3, shards=2),
          dict(src='d_text.cxx', defs=[(('PART', 0),)], cfgs=['bn'], tcfgs=[], modes=['write'], n=60000, t=0, cost=3)],
    need={'text:well-formed': 10000, 'text:ill-formed': 10000, 'text:written': 100000, 'text:surrogates': 10000})
def hist(als, modes, n, t, **k):
    k.update(src='d_hist.cxx', defs=[(('AL', a),) for a in als], modes=modes, n=n, t=t)
    k.setdefault('cfgs', ['a', 'b']); k.setdefault('tcfgs', ['o', 'o11', 'o17']); k.setdefault('cost', 3)
    return k
PROPS['C12'] = dict(
    rule='histories of up to 34 operations (assignments of values, copies, moves and swaps between four nodes, from and to their own elements, edits of containers, changes of kind) on the four kinds of nodes, with allocators of different propagation settings; after each operation all nodes are compared with a tree model; distinct (state, operation) are counted',
    jobs=[hist((4, 0, 1), ['history'], 12000, 400000, nokeys='alloc'), hist((2, 3), ['history'], 0, 200000, nokeys='alloc', tiers=['thorough'])],
    need={'op:copy-assign': 1000, 'op:copy-assign-descendant': 1000})
PROPS['C13'] = dict(
    rule='the histories of C12 with an allocator that records what it hands out, in four propagation settings, and three unequal instances; distinct (state, operation) are counted',
    jobs=[hist((0, 1, 2, 3), ['history'], 8000, 400000, keys='alloc|crash'), hist((0, 1, 2, 3), ['io'], 1500, 60000, keys='alloc|crash'),
          tj(defs=both(2), cfgs=['a'], tcfgs=['b', 'o'], modes=['leak'], n=12000, t=200000, keys='leak|crash')],
    need={'op:copy-assign': 1000, 'op:copy-assign-descendant': 1000, 'io:accepted': 1000, 'io:refused': 500})
PROPS['C17'] = dict(
    rule='documents in either format read into each of the four kinds of nodes, compared between the kinds (same acceptance, same value in the image JSON can express), with the reference value and its order (ordered nodes), written through either format and read back; distinct documents are counted',
    jobs=[nj(0, 1, ['cross'], 60000, 1200000, shards=2), nj(1, 1, ['cross'], 60000, 1200000, shards=2), nj(0, 0, ['accept'], 60000, 1000000, cfgs=['b'], keys='accept:order|crash'), nj(1, 0, ['accept'], 60000, 1000000, cfgs=['b'], keys='accept:order|crash')],
    need={'cross:accepted': 50000, 'cross:json': 50000})
PROPS['C23'] = dict(
    rule='well-formed JSON texts and CBOR items of the shape of a type, of another type, with elements or members added, removed, repeated or replaced, read into ' + ZOO + ' and compared with what the reference parser or decoder finds; distinct inputs are counted',
    jobs=[tj(defs=both(0), cfgs=['b'], tcfgs=['a', 'o'], modes=['carried'], nokeys='ec-|end-', n=60000, t=1000000)],
    need={'carried:accepted': 10000, 'carried:refused': 10000})
PROPS['C18'] = dict(
    rule='operations on nodes after random histories, documents read into and written from nodes, and values of ~150 types read and written in both formats, each repeated with its first, second, ... allocation failing (a sample of long runs); distinct (input, failing allocation) pairs are counted',
    jobs=[hist((0, 1, 2, 3, 4), ['oom'], 3000, 40000, nokeys='alloc:(content|elements|block)'), hist((0, 4), ['io'], 4000, 60000, nokeys='alloc:(content|elements|block|id)'),
          tj(defs=both(2), cfgs=['b'], tcfgs=['a', 'o'], modes=['oom'], n=15000, t=100000)],
    need={'io:read-failed': 1000, 'io:write-failed': 1000})
PROPS['C22'] = dict(
    rule='triples of nodes of each of the four kinds, random, equal, and changed in one place, and plain values against the nodes made from them; distinct pairs are counted',
    jobs=[dict(src='d_cmp.cxx', defs=[(('FMT', 0),), (('FMT', 1),)], cfgs=['a', 'b'], tcfgs=['o', 'o11', 'o17'], modes=['relations', 'plain'], n=30000, t=1500000, cost=3)],
    need={'cmp:equal-pairs': 10000, 'cmp:unequal-pairs': 10000, 'cmp:plain-equal': 10000})
PROPS['C15'] = dict(
    rule='objects of classes of one to twelve members (declared in the class and outside, nested, with defaults, skipped members, names that need escaping, empty names, names that are prefixes of each other or as long as allowed) read from texts of any subset of their members in any order and spelling, with one flaw (unknown, near-miss or repeated name, value missing or of another kind, separator missing or extra, cut off) or none, and mutated; written with and without default values; enumerations from declared values, near misses and arbitrary values; values kept as they are; distinct inputs are counted',
    jobs=[dict(src='d_class.cxx', defs=[(('FMT', 0),), (('FMT', 1),)], cfgs=['a', 'b'], tcfgs=['o', 'o11', 'o17'], modes=['read', 'write', 'enum', 'keep', 'whole'], n={'read': 80000, 'write': 25000, 'enum': 60000, 'keep': 25000, 'whole': 1}, t={'read': 3000000, 'write': 800000, 'enum': 1500000, 'keep': 800000, 'whole': 1}, cost=3)],
    need={'class:accepted': 50000, 'class:flaw-unknown': 2000, 'class:flaw-repeated': 2000, 'class:written': 10000, 'enum:in': 10000, 'enum:out': 10000, 'sink': 10000})
OG = [(o, g) for o in range(12) for g in (2, 6)] + [(o, g) for o in (2, 5, 6, 8) for g in (0, 1, 3, 4)]
OA = [(o, g) for o in range(12) for g in (0, 1, 2, 3, 4, 6)]
def og(l): return [(('GROUP', g), ('OPT', o)) for o, g in l]
PROPS['C16'] = dict(
    rule='twelve formats made of the options (comments, trailing separators, keys quoted and not, JavaScript NaNs, strict JavaScript, other dividers, separators and delimiters, the configuration notation, checks off, escapes assumed away): random values of ~150 types, generic nodes and classes (with and without braces, skipped members) written, parsed by a reference reader of the format, and read back; texts in the notation with comments, white space, trailing separators and any spelling of strings and keys read to the same value from pointers and streams; the same texts refused without the option; default documents, mutated, read as by default; distinct texts are counted',
    jobs=[dict(src='d_opt.cxx', defs=og(OG), cfgs=['b'], tcfgs=[], modes=['write', 'read', 'with'], n=6000, t=100000, cost=2, tiers=('quick',)),
          dict(src='d_opt.cxx', defs=og(OA), cfgs=['b', 'c'], tcfgs=[], modes=['write', 'read', 'with'], n=6000, t=60000, cost=2, tiers=('thorough',)),
          dict(src='d_optx.cxx', defs=[(('OPT', o),) for o in range(12)], cfgs=['b'], tcfgs=['a', 'c', 'o'], modes=['nodes', 'class'], n=10000, t=300000, cost=2)],
    need={'opt:comments': 10000, 'opt:trailing': 10000, 'opt:raw-keys': 5000, 'opt:bare-keys': 5000, 'opt:nans': 1000, 'opt:without': 10000, 'opt:written': 50000, 'opt:default-accepted': 10000, 'opt:node-read': 10000, 'opt:bare-class-read': 10000})
PROPS['C14'] = dict(
    rule=ZOO + ' and generic nodes written through the indenter (six widths, two characters, two notations) to a string, an inserter, a list, a deque, a stream and ranges long enough and too short; compared with the layout computed from the tokens of what is written plainly; texts of random values in any spelling and white space indented from strings, iterators and single-pass streams to every kind of output; distinct (text, setting) pairs are counted',
    jobs=[dict(src='d_tidy.cxx', defs=[(('GROUP', g),) for g in range(7)], cfgs=['b'], tcfgs=['c', 'o17'], modes=['types', 'nodes', 'tidy'], n={'types': 25000, 'nodes': 8000, 'tidy': 8000}, t={'types': 400000, 'nodes': 100000, 'tidy': 100000}, cost=2),
          dict(src='d_tidy.cxx', defs=[(('ALT', 1), ('GROUP', g)) for g in (2, 6)], cfgs=['b'], tcfgs=['c', 'o17'], modes=['types', 'nodes', 'tidy'], n=25000, t=400000, cost=2)],
    need={'indent:nested': 20000, 'indent:fits': 10000, 'indent:short': 10000, 'tidy:texts': 20000, 'tidy:fits': 1000, 'tidy:short': 1000})
PROPS['C20'] = dict(
    rule='nested values around five recursion limits and far over them, made of every nesting construct (arrays, values and keys of objects, tags, definite and indefinite lengths, keys with and without quotes) with siblings, read into and written from the four kinds of nodes in both formats, alone and in containers with the guard passed; inputs of 60000 and more repeated constructs (skipped and kept values, white space, comments, chunks, tags, nesting) on a stack of 2 MB; CBOR of any type with announced lengths replaced by huge ones, nested ones included, with what is allocated at once and in one request compared with the size of the input; distinct inputs are counted',
    jobs=[dict(src='d_deep.cxx', defs=[(('NODE', n),) for n in range(4)], cfgs=['b'], tcfgs=['a', 'o'], modes=['read', 'write', 'inside'], n={'read': 10000, 'write': 10000, 'inside': 4000}, t={'read': 250000, 'write': 250000, 'inside': 100000}, cost=3),
          dict(src='d_deep.cxx', defs=[(('NODE', 4),)], cfgs=['b'], tcfgs=['a'], modes=['long'], n=300, t=8000, cost=3, shards=6),
          dict(src='d_deep.cxx', defs=[(('GROUP', g), ('NODE', 5)) for g in range(7)], cfgs=['b'], tcfgs=['c', 'o17'], modes=['types'], n=15000, t=300000, cost=2),
          dict(src='d_deep.cxx', defs=[(('GROUP', 0), ('NODE', 5))], cfgs=['b'], tcfgs=['c', 'o17'], modes=['nodes'], n=30000, t=600000, cost=2)],
    need={'depth:first': 5000, 'depth:last': 5000, 'depth:array': 50000, 'depth:value': 50000, 'depth:key': 20000, 'depth:tag': 10000, 'long:accepted': 300, 'long:refused': 40, 'alloc:announced': 50000, 'alloc:some': 20000})
CG = [(('FMT', f), ('GROUP', g)) for f in (0, 1) for g in (0, 1, 2, 4, 6)]
PROPS['C19'] = dict(
    rule='four threads released at once, each performing the same eight operations in its own order, on objects of its own or on shared constant ones: values of ~150 types, nodes of the four kinds (written in three formats, compared, hashed, copied, indented), classes, enumerations written and read, texts refused by eleven types, messages of all errors; ThreadSanitizer watches, and each outcome (bytes, error, message, end) is compared with the one of the same operation performed alone afterwards; many processes, so that first uses meet; distinct outcomes are counted',
    jobs=[dict(src='d_conc.cxx', defs=CG, cfgs=['t'], tcfgs=[], modes=['threads'], n=4000, t=80000, cost=4, shards=6),
          dict(src='d_conc.cxx', defs=[(('FMT', f), ('GROUP', 0)) for f in (0, 1)], cfgs=['t11'], tcfgs=[], modes=['threads'], n=4000, t=80000, cost=4, shards=6)],
    need={'threads:overlapped': 10000, 'threads:shared': 5000, 'threads:separate': 5000, 'threads:operations': 300000})
NA = {}
