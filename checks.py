"""What each check consists of. See check.py and DESIGN.md."""

EMBEDDINGS = [("u8lo", 256), ("u8hi", 256), ("u8sp", 36), ("i8lo", 256), ("i8mid", 200), ("i8hi", 256), ("u16hi", 60000), ("i16mid", 30000),
              ("u32lo", 100000), ("u32hi", 100000), ("i32mid", 30000), ("i32hi", 100000), ("u64hi", 100000), ("u64sp", 10000), ("i64lo", 100000),
              ("usizehi", 100000), ("isizemid", 30000), ("charlo", 50000), ("charaz", 50000), ("chargap", 50000), ("chargap1", 50000),
              ("charhi", 50000), ("charsp", 50000), ("u8endsp", 256), ("i8endsp", 256), ("u32endsp", 60000), ("i64endsp", 100000), ("charendsp", 50000)]


ODD = [0, 7, 9, 0xa, 0xb, 0xc, 0xd, 0x1a, 0x1b, 0x20, 0x22, 0x27, 0x2e, 0x5c, 0x7e, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xdf, 0xff, 0x100, 0x130, 0x301, 0x3c2, 0x7ff, 0x800, 0x200b, 0x200d,
       0x2028, 0x2029, 0x212a, 0x3000, 0xd7fe, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600]
TYPES = ['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize', 'isize', 'char']


def char_embedding(rnd):
    how = rnd.randrange(4)
    if how == 0:
        return 'charaz'
    if how == 1:
        return 'char@%x' % max(0, rnd.choice(ODD) - rnd.randrange(3))
    return ('char@%x' % rnd.randrange(0x20, 0x7f)) if how == 2 else 'set:char:%d' % rnd.randrange(100000)


def embedding(rnd):
    how = rnd.randrange(6)
    if how == 0:
        return char_embedding(rnd)
    if how == 1:
        return '%s:%s:%d' % (rnd.choice(['at', 'set']), rnd.choice(TYPES), rnd.randrange(100000))
    return rnd.choice(EMBEDDINGS)[0]


def contiguous(rnd):
    if rnd.randrange(4) == 0:
        return 'at:%s:%d' % (rnd.choice(TYPES), rnd.randrange(100000))
    return rnd.choice(CONTIGUOUS)


def wrap_pattern(p, rnd):
    how = rnd.choice(['pat', 'dyn', 'box', 'dynbox', 'self'])
    yield {'kind': 'dfa', 'k': 2, 'emb': embedding(rnd), 'tt': 'u32', 'how': how, 'toks': [{'p': p, 'o': 0}]}


def wrap_tokens(ts, rnd):
    yield {'kind': 'dfa', 'k': 3, 'emb': embedding(rnd), 'tt': 'u32', 'how': rnd.choice(['tm', 'tmbox', 'tmgrow', 'tmagain', 'ndfa', 'tmgrowbox', 'tmearly']), 'toks': ts}


def wrap_program(q, rnd):
    # The specification does not say how operands are passed: choose a way for each
    def go(q):
        q = dict(q)
        if q['op'] == 'lit':
            q['as'] = rnd.choice(['vec', 'slice', 'str', 'pat', 'box', 'ref'])
        elif q['op'] in ('append', 'or'):
            ways = ['pat', 'box', 'ref', 'boxref'] + (['vec', 'slice', 'str'] * 2 if q['r']['op'] == 'lit' else [])
            q['as'] = rnd.choice(ways)
            q['l'], q['r'] = go(q['l']), go(q['r'])
        elif q['op'] in ('any', 'all'):
            q['l'] = [go(x) for x in q['l']]
        elif 'l' in q:
            q['l'] = go(q['l'])
        return q
    emb = char_embedding(rnd) if rnd.random() < 0.5 else embedding(rnd)
    yield {'kind': 'dfa', 'k': 2, 'emb': emb, 'tt': 'u32', 'how': 'prog', 'prog': go(q)}


def wrap_tape(b, rnd):
    yield {'kind': 'tape', 'type': rnd.choice(['usize', 'string', 'char', 'unord']), 'n': b['n'], 'ops': b['ops']}


def wrap_split(b, rnd):
    # Ends by reading with every reader that is left to the end, and dropping them from the leaves up
    n, ops = b['n'], list(b['ops'])
    pos, par, alive = [0, 0], [0, 0], [False, True]
    for o in ops:
        r = o[1]
        if o[0] == 's':
            pos += [pos[r]] * 2
            par += [r, r]
            alive += [True, True]
        elif o[0] == 'd':
            alive[r] = False
        else:
            pos[r] += o[2]
            a = par[r]
            while a:
                pos[a] = max(pos[a], pos[r])
                a = par[a]
    for r in range(len(pos) - 1, 0, -1):
        if alive[r]:
            if pos[r] < n + 1:
                ops.append(['r', r, n + 1 - pos[r]])
                pos[r], a = n + 1, par[r]
                while a:
                    pos[a] = max(pos[a], n + 1)
                    a = par[a]
            if r > 1:
                ops.append(['d', r, 0])
    yield {'kind': 'split', 'n': n, 'fused': rnd.random() < 0.3, 'root': rnd.choice(['plain', 'box']), 'ops': ops}


def wrap_tok(b, rnd):
    # How the tokenizer is made and what it reads are up to the harness
    yield {'kind': 'tok', 'k': 2, 'emb': rnd.choice(['u8lo', 'set:u8:%d' % rnd.randrange(1000), char_embedding(rnd), char_embedding(rnd)]), 'tt': rnd.choice(['u32', 'i8', 'str', 'rev']), 'how': rnd.choice(['ref', 'prep', 'box', 'dfa']),
           'reader': rnd.choice(['vec', 'slice', 'map', 'filter', 'tape', 'carry', 'left', 'right']), 'toks': b['toks'], 'w': b['w'], 'ops': b['ops']}


CONTIGUOUS = [e for e, n in EMBEDDINGS if not e.endswith('sp')]


def wrap_ndfa(b, rnd):
    yield {'kind': 'ndfa', 'k': b['k'], 'emb': 'opaque' if rnd.random() < 0.25 else contiguous(rnd), 'via': rnd.choice(['plain', 'clone', 'box', 'rc']), 'ops': b['ops'] + [['q']]}


def wrap_ndfa_fix(b, rnd):
    ops = list(b['ops'])
    ops.insert(rnd.randrange(len(ops) + 1), ['x'])
    yield {'kind': 'ndfa', 'k': b['k'], 'emb': contiguous(rnd), 'via': 'plain', 'ops': ops + [['q'], ['x'], ['q'], ['x'], ['q']]}


def wrap_compile(b, rnd):
    joins = any(o[0] == 'j' for o in b['ops'])
    yield {'kind': 'compile', 'k': b['k'], 'emb': 'opaque' if rnd.random() < 0.12 else embedding(rnd), 'tt': rnd.choice(['u32', 'i8', 'str', 'rev']),
           'machine': rnd.choice(['ndfa', 'new', 'box', 'rc'] + ([] if joins else ['own', 'ownbox', 'simple'] * 2)), 'ops': b['ops']}


def wrap_compile_on(b, rnd):
    # From the state, and then again from what was returned
    again = [{'at': -1, 'p': b['p']}] if rnd.random() < 0.2 else []
    yield {'kind': 'compile_on', 'k': 2, 'emb': embedding(rnd), 'ops': b['ops'], 'steps': [{'at': b['at'], 'p': b['p']}] + again}


def wrap_run(g, rnd):
    # Copies of the run are taken and finished at every point, before it has moved on or after
    b = []
    for s in g['b']:
        tr = [list(t) for t in s['tr']]
        if rnd.random() < 0.5 and len(tr) == 2 and tr[0][2] == tr[1][2] and tr[0][1] + 1 == tr[1][0]:
            tr = [[tr[0][0], tr[1][1], tr[0][2]]]
        b.append({'out': s['out'], 'tr': tr})
    ops, late, runs = [['b']], [], 1
    for x in g['w']:
        ops.append(['c', 1])
        runs += 1
        (ops if rnd.random() < 0.5 else late).append(['f', runs])
        ops.append(['s', 1, x])
    ops += [['f', 1]] + late
    tt = rnd.choice(['u32', 'u32', 'i8', 'str', 'rev'])
    yield {'kind': 'run', 'k': g['k'], 'tt': tt, 'emb': embedding(rnd) if tt == 'u32' else rnd.choice(['u8lo', 'set:u8:%d' % rnd.randrange(1000), char_embedding(rnd)]), 'via': rnd.choice(['plain', 'plain', 'clone', 'json', 'bin', 'prep']),
           'acc': rnd.randrange(3), 'b': b, 'ops': ops}


def wrap_ranges(b, rnd):
    k, adds = b['k'], list(b['adds'])
    if adds and rnd.random() < 0.3:
        adds.append(rnd.choice(adds))
    rnd.shuffle(adds)
    adds = [[a + 1, z + 1] for a, z in adds]
    # Every range there is, one wider than the ones in the map on either side
    qs = [[a, z] for a in range(k + 2) for z in range(a, k + 2)]
    ops = [['a', 1, adds]] + [['f', 1, q] for q in qs] + [['d', 1], ['d', 2]] + [['f', 2, q] for q in qs]
    # One more in each of them, then divided again
    m, more = rnd.choice([1, 2, 3]), rnd.choice(qs)
    ops += [['a', m, [more]], ['f', m, [0, k + 1]], ['d', m], ['f', 4, rnd.choice(qs)]]
    yield {'kind': 'ranges', 'k': k + 2, 'emb': contiguous(rnd), 'ops': ops}


def wrap_tagged(b, rnd):
    # Each list in one go, or a tag at a time from the last to the first
    n, s = b['n'], 1
    ops, lens = [['new', [i % 2 for i in range(n)], rnd.choice(['vec', 'slice', 'filter', 'map'])]], [n]
    for ts in b['lists']:
        length = lens[s - 1]
        ok = all(a <= z <= length for a, z, _ in ts) and all(t[1] <= u[0] for t, u in zip(ts, ts[1:]))
        if ok and rnd.random() < 0.4:
            if rnd.random() < 0.5:
                ops.append(['copy', s])
                lens.append(length)
                s = len(lens)
            ops += [['tag', s, t, a, z] for a, z, t in reversed(ts)]
            lens[s - 1] = length - sum(z - a for a, z, _ in ts) + len(ts)
        else:
            ops += [['over', s, t, a, z] for a, z, t in ts if rnd.random() < 0.3]
            ops.append(['with', s, ts])
            if ok:
                lens.append(length - sum(z - a for a, z, _ in ts) + len(ts))
                s = len(lens)
    ops += [['same', rnd.randint(1, len(lens)), s], ['read', s]]
    yield {'kind': 'tagged', 'k': 2, 'emb': embedding(rnd), 'tt': 'u32', 'toks': [{'p': {'t': 'lit', 's': [0]}, 'o': 0}], 'ops': ops}


def wrap_readers(b, rnd):
    # The layers by other names, over every kind of source that can give this
    ends, stop = -1 in b['script'], -2 in b['script']
    ways = {'pass': [['pass', 'box', 0]] + [['pass', x, 0] for x in ('left', 'right', 'alone')], 'keep': [['pass', 'tape', 0]], 'eager': [['eager', 'vec'], ['eager', 'tagged']]}
    layers = [rnd.choice(ways[l[0]]) if l[0] in ways else l for l in b['layers']]
    srcs = ['bytes', 'bytesnew', 'bytesref', 'bytesdyn', 'bytesbuf']
    if not stop:
        srcs += ['script'] * 5
    if not stop and not ends:
        srcs += ['vec', 'slice', 'filter', 'tagged', 'str'] * 2
    n = len(b['script']) + 2
    at = rnd.randrange(n + 1)
    ops = ['n'] * n if rnd.random() < 0.5 else ['n'] * at + ['v'] + ['n'] * (n - at) + ['v']
    yield {'kind': 'readers', 'k': b['k'], 'emb': embedding(rnd), 'from': rnd.choice(ODD), 'src': rnd.choice(srcs),
           'script': b['script'], 'chunks': rnd.choice([[1], [2], [3], [1, 2], [4]]), 'layers': layers, 'ops': ops}


def wrap_levels(b, rnd):
    via, mid = ['ref', 'box', 'prep', 'dfa'], ['none', 'none', 'box', 'tape', 'back', 'map', 'left', 'rest', 'vec', 'list']
    # Fewer layers between those above the first
    on = [{'toks': ts, 'via': rnd.choice(via), 'mid': rnd.choice(mid)} for ts in b['levels']]
    head = dict(on.pop(), top='tok')
    head['mid'] = rnd.choice(['none', 'none', 'box', 'tape', 'map', 'back'])
    ops = b['ops'] + ['it'] * (len(b['w']) + 1) + ['tok']
    yield {'kind': 'levels', 'k': 2, 'emb': embedding(rnd), 'levels': on, 'heads': [head], 'w': b['w'], 'ops': [[1, o] for o in ops]}


def wrap_drive(b, rnd):
    k = b['k']
    words = [[]]
    for n in range(3):
        words += [w + [x] for w in words if len(w) == n for x in range(k)]
    yield {'kind': 'drive', 'k': k, 'm': b['m'], 'runs': [[w, rnd.choice(['own', 'carry', 'box', 'quiet'])] for w in words]}


WRAP = {'drive': wrap_drive, 'levels': wrap_levels, 'readers': wrap_readers, 'tagged': wrap_tagged, 'run': wrap_run, 'compile_on': wrap_compile_on, 'compile': wrap_compile, 'ndfa': wrap_ndfa, 'ndfa_fix': wrap_ndfa_fix, 'ranges': wrap_ranges, 'tok': wrap_tok, 'split': wrap_split, 'pattern': wrap_pattern, 'tokens': wrap_tokens, 'program': wrap_program, 'tape': wrap_tape}

CHECKS = {
    'C01': {
        'models': [
            {'module': 'MCPattern', 'consts': {'quick': {'Level': 1, 'MaxLen': 5}, 'thorough': {'Level': 2, 'MaxLen': 5}}},
        ],
        'generators': [
            {'module': 'GenPatterns', 'wrap': 'pattern', 'sample': {'quick': 4000, 'thorough': None}},
        ],
        'traces': {'dfa': 'TraceDfa', 'match': 'TraceMatch'},
        'technique': 'TLA+ specification of pattern languages checked by TLC; product of the extracted automata with it, and validation of recorded matches',
        'covers': 'Design: the residual semantics of every pattern of the model agrees with its denotation on every word up to MaxLen. '
                  'Binding: for each pattern the automaton that the real code prepares is explored in product with the residuals over every '
                  'word of every length; and recorded results of every way of running a match over generated words are validated symbol by symbol.',
        'note': 'For every pattern tried the automaton is decided for all words. Patterns are enumerated exhaustively to a small depth by TLC and sampled above it, '
                'over many symbol types. Trusts TLC and that a matcher follows its table (decided by C16, and here by the recorded matches).',
    },
    'C02': {
        'models': [
            {'module': 'MCCombinators', 'consts': {'quick': {'Level': 2}, 'thorough': {'Level': 3}}},
        ],
        'generators': [
            {'module': 'GenPrograms', 'wrap': 'program', 'sample': {'quick': 3000, 'thorough': None}, 'consts': {'quick': {'Level': 2}, 'thorough': {'Level': 3}}},
        ],
        'traces': {'dfa': 'TraceDfa'},
        'technique': 'TLA+ specification of the combinators checked by TLC; product of the automata of real combinator programs with the naive meaning',
        'covers': 'Design: the flattening rules of append and or keep the language for every small program. Binding: programs of combinator calls are run by '
                  'the real combinators and the automaton of the result explored in product with the naive meaning of the program, over every word.',
        'note': 'For every program tried the result is decided for all words. Programs are enumerated exhaustively to a small depth and sampled above it, with every way of passing an operand.',
    },
    'C03': {
        'models': [
            {'module': 'MCPattern', 'consts': {'quick': {'Level': 1, 'MaxLen': 3}, 'thorough': {'Level': 1, 'MaxLen': 6}}},
            {'module': 'MCPipeline', 'consts': {'quick': {'Level': 1, 'MaxLen': 4}, 'thorough': {'Level': 2, 'MaxLen': 4}}},
        ],
        'generators': [
            {'module': 'GenPipeline', 'wrap': 'tokens', 'sample': {'quick': None, 'thorough': 40000}, 'consts': {'quick': {'Level': 1}, 'thorough': {'Level': 2}}},
        ],
        'traces': {'dfa': 'TraceDfa', 'match': 'TraceMatch'},
        'technique': 'TLA+ specification of token sets checked by TLC; product of token automata with it, and validation of recorded matches',
        'covers': 'Design: a model that goes the whole way of the implementation (compiling tokens, dividing ranges, sets of states, merging, running) gives the answers that patterns denote, for every pair of small tokens and every word up to MaxLen. '
                  'Binding: every one of those pairs, and token sets with clashes, duplicates and empty matches, in many insertion orders (all of them for some) and with four token types: the automaton is explored in product '
                  'with the tagged residuals over every word; results of matching words are validated.',
        'note': 'For every token set tried, outputs are decided for all words and do not depend on the hash order of the run. Pairs of small tokens are enumerated exhaustively, larger sets sampled.',
    },
    'C04': {
        'models': [
            {'module': 'MCTokenizer', 'consts': {'quick': {'MaxLen': 4}, 'thorough': {'MaxLen': 8}}},
        ],
        'generators': [
            {'module': 'GenTokenizer', 'wrap': 'tok', 'consts': {'quick': {'MaxLen': 3, 'MaxOps': 3}, 'thorough': {'MaxLen': 4, 'MaxOps': 4}}, 'sample': {'quick': 4000, 'thorough': 60000}},
        ],
        'traces': {'tok': 'TraceTokenizer'},
        'technique': 'TLA+ specification of a tokenizer, checked by TLC to be what the tokenizer over a tape computes; replay of its behaviours and validation of recorded traces',
        'covers': 'Design: a tokenizer that reads a tape, rewinds and cuts gives the answers, positions and end that the specification gives, for a range of token sets, every word and every mix of calls, and every call ends. Binding: behaviours of the specification and random ones (all ways of making a tokenizer, eight kinds of reader, long lookahead) are run on real tokenizers; every result, position and end is validated.',
        'note': 'Design exhaustive for eleven token sets and all words to MaxLen. Real tokenizers are validated on sampled token sets and inputs.',
    },
    'C05': {
        'models': [
            {'module': 'MCTokenizer', 'consts': {'quick': {'MaxLen': 4}, 'thorough': {'MaxLen': 8}}},
        ],
        'generators': [
            {'module': 'GenTokenizer', 'wrap': 'tok', 'consts': {'quick': {'MaxLen': 3, 'MaxOps': 3}, 'thorough': {'MaxLen': 4, 'MaxOps': 4}}, 'sample': {'quick': 4000, 'thorough': 60000}},
        ],
        'traces': {'tok': 'TraceTokenizer'},
        'technique': 'TLA+ specification of a tokenizer, checked by TLC to be what the tokenizer over a tape computes; replay of its behaviours and validation of recorded traces',
        'covers': 'As C04, judging the iterator: what it yields (by next, nth, count, last, fold, and its size hint), where it ends and that it ends, also after any mixture of direct calls.',
        'note': 'As C04.',
    },
    'C06': {
        'models': [
            {'module': 'MCTape', 'consts': {'quick': {'MaxN': 9, 'MaxCap': 16}, 'thorough': {'MaxN': 18, 'MaxCap': 32}}},
        ],
        'generators': [
            {'module': 'GenTape', 'wrap': 'tape', 'workers': 1, 'consts': {'quick': {'MaxN': 14, 'MaxCap': 8}, 'thorough': {'MaxN': 20, 'MaxCap': 16}}, 'sample': {'quick': 5000, 'thorough': 60000}},
        ],
        'traces': {'tape': 'TraceTape'},
        'technique': 'TLA+ specification of the tape, refinement of the circular buffer checked by TLC; replay of behaviours covering its graph, and validation of recorded traces',
        'covers': 'Design: the circular buffer refines the tape for all sources up to MaxN symbols and every mix of reads, rewinds, cuts and resizes. Binding: behaviours that take the buffer '
                  'through every transition of its graph, and long random ones, are run on the real tape and every observation is validated.',
        'note': 'Design exhaustive within the bounds; the real tape is validated on behaviours covering every shape of its buffer (capacity 4 and 8, 16 in the thorough tier) and on long random traces with many growths.',
    },
    'C07': {
        'models': [
            {'module': 'MCTape', 'consts': {'quick': {'MaxN': 9, 'MaxCap': 16}, 'thorough': {'MaxN': 18, 'MaxCap': 32}}},
        ],
        'generators': [
            {'module': 'GenTape', 'wrap': 'tape', 'workers': 1, 'consts': {'quick': {'MaxN': 14, 'MaxCap': 8}, 'thorough': {'MaxN': 20, 'MaxCap': 16}}, 'sample': {'quick': 5000, 'thorough': 60000}},
        ],
        'traces': {'tape': 'TraceTape'},
        'technique': 'TLA+ specification of the tape, refinement of the circular buffer checked by TLC; replay of behaviours covering its graph, and validation of recorded traces',
        'covers': 'As C06, judging which rewinds are accepted, requests made to a source that would carry on after its end, and at_end_of_reader after every operation.',
        'note': 'As C06. The source used would yield symbols again after its end, so one request too many is seen.',
    },
    'C08': {
        'models': [
            {'module': 'MCSplit', 'consts': {'quick': {'MaxN': 3, 'MaxSplits': 2}, 'thorough': {'MaxN': 3, 'MaxSplits': 3}}},
        ],
        'generators': [
            {'module': 'GenSplit', 'wrap': 'split', 'workers': 1, 'consts': {'quick': {'MaxN': 3, 'MaxSplits': 2}, 'thorough': {'MaxN': 5, 'MaxSplits': 2}}, 'sample': {'quick': None, 'thorough': 60000}},
        ],
        'traces': {'split': 'TraceSplit'},
        'technique': 'TLA+ specification of trees of split readers, checked by TLC against the queues of the implementation; replay of behaviours covering their graph, validation of recorded traces',
        'covers': 'Design: the queues give the answers of the specification, in every interleaving of reads, splits and drops. Binding: behaviours covering every transition of the '
                  'graph of the queues, and random ones, are run on real readers (nested up to 4 splits, long streams) and everything read is validated.',
        'note': 'Design exhaustive within the bounds (2 splits, 3 symbols; 3 splits in the thorough tier); the real readers are validated on behaviours covering it and on random traces.',
    },
    'C09': {
        'models': [
            {'module': 'MCSplit', 'consts': {'quick': {'MaxN': 3, 'MaxSplits': 2}, 'thorough': {'MaxN': 3, 'MaxSplits': 3}}},
        ],
        'generators': [
            {'module': 'GenSplit', 'wrap': 'split', 'workers': 1, 'consts': {'quick': {'MaxN': 3, 'MaxSplits': 2}, 'thorough': {'MaxN': 5, 'MaxSplits': 2}}, 'sample': {'quick': None, 'thorough': 60000}},
        ],
        'traces': {'split': 'TraceSplit'},
        'technique': 'TLA+ specification of trees of split readers, checked by TLC against the queues of the implementation; replay of behaviours covering their graph, validation of recorded traces',
        'covers': 'As C08, judging how often the source is asked, how many symbols are alive inside the readers after every operation, that drops complete, and where a reader carries on after a split.',
        'note': 'As C08. Symbols are counted through a token that every copy of them holds.',
    },
    'C10': {
        'models': [{'module': 'MCNdfa', 'consts': {'quick': {'MaxState': 2, 'MaxOps': 3, 'K': 1}, 'thorough': {'MaxState': 3, 'MaxOps': 4, 'K': 1}}}],
        'generators': [{'module': 'GenNdfa', 'wrap': 'ndfa', 'workers': 1, 'consts': {'quick': {'MaxState': 2, 'MaxOps': 3, 'K': 0}, 'thorough': {'MaxState': 2, 'MaxOps': 4, 'K': 0}}, 'sample': {'quick': 6000, 'thorough': 80000}}],
        'traces': {'ndfa': 'TraceNdfa'},
        'technique': 'TLA+ specification of a state machine under construction, checked by TLC; replay of its behaviours and validation of everything real machines report',
        'covers': 'Design: what is reported through joins agrees with the definition by paths and with the search that the implementation makes, for every way of building small machines. '
                  'Binding: those behaviours and random longer ones are run on the real Ndfa, and everything it reports (itself, cloned, and through Box and Rc) is validated.',
        'note': 'Design exhaustive within the bounds. The real machine is validated on every behaviour of up to 3 calls (4 in the thorough tier, sampled), and on random ones of up to 160 calls and 150 states.',
    },
    'C11': {
        'models': [{'module': 'MCNdfa', 'consts': {'quick': {'MaxState': 1, 'MaxOps': 4, 'K': 2}, 'thorough': {'MaxState': 1, 'MaxOps': 5, 'K': 3}}}],
        'generators': [{'module': 'GenNdfa', 'wrap': 'ndfa_fix', 'workers': 1, 'consts': {'quick': {'MaxState': 1, 'MaxOps': 3, 'K': 2}, 'thorough': {'MaxState': 1, 'MaxOps': 4, 'K': 2}}, 'sample': {'quick': 5000, 'thorough': 80000}}],
        'traces': {'ndfa': 'TraceNdfa'},
        'technique': 'TLA+ specification of removing overlaps as a relation between machines, checked by TLC; validation of what real machines report with and without it',
        'covers': 'Design: replacing ranges by the coarsest division keeps every move, in every small machine, and doing it again changes nothing. Binding: real machines are built with and '
                  'without overlaps removed (at any point, any number of times) and what they report is related by the specification.',
        'note': 'Design exhaustive within the bounds. Real machines are validated on enumerated behaviours of up to 3 or 4 calls and on random ones, over every symbol type and the ends of its domain.',
    },
    'C12': {
        'models': [{'module': 'MCRangeMap', 'consts': {'quick': {'K': 4, 'MaxRanges': 5}, 'thorough': {'K': 5, 'MaxRanges': 6}}}],
        'generators': [{'module': 'GenRangeMap', 'wrap': 'ranges', 'consts': {'quick': {'K': 3, 'MaxRanges': 10}, 'thorough': {'K': 4, 'MaxRanges': 15}}}],
        'traces': {'ranges': 'TraceRangeMap'},
        'technique': 'TLA+ specification of range maps with the dividing algorithm as a step machine, checked by TLC; exhaustive small and random large maps run on the real code and validated',
        'covers': 'Design: the algorithm ends with the coarsest division, in order, for every set of ranges within the bounds. Binding: every set of ranges over 4 symbols (5 in the thorough '
                  'tier) and random sets (mostly up to 50 ranges, some to 2100), built in one go or in histories of adding, looking up and dividing, over every symbol type and whole 8 bit domains, divided by the real code.',
        'note': 'Exhaustive for maps over 4 or 5 symbols, sampled above. The ranges of a map are observed by looking them up.',
    },
    'C13': {
        'models': [{'module': 'MCRangeMap', 'consts': {'quick': {'K': 3, 'MaxRanges': 10}, 'thorough': {'K': 5, 'MaxRanges': 6}}}],
        'generators': [{'module': 'GenRangeMap', 'wrap': 'ranges', 'consts': {'quick': {'K': 3, 'MaxRanges': 10}, 'thorough': {'K': 4, 'MaxRanges': 15}}}],
        'traces': {'ranges': 'TraceRangeMap'},
        'technique': 'TLA+ specification of range maps with the lookup, checked by TLC; exhaustive small and random large maps looked up in by the real code and validated',
        'covers': 'Design: the lookup finds exactly what overlaps, for every map within the bounds and every query. Binding: as C12, judging every lookup in the map and in its non-overlapping map.',
        'note': 'Exhaustive for maps over 4 or 5 symbols and every query, sampled above.',
    },
    'C14': {
        'models': [{'module': 'MCSubset', 'consts': {'quick': {'MaxState': 2, 'MaxTrans': 2, 'K': 1}, 'thorough': {'MaxState': 2, 'MaxTrans': 3, 'K': 1}}}],
        'generators': [{'module': 'GenNdfa', 'wrap': 'compile', 'workers': 1, 'consts': {'quick': {'MaxState': 2, 'MaxOps': 4, 'K': 1, 'Points': 'TRUE'}, 'thorough': {'MaxState': 2, 'MaxOps': 5, 'K': 1, 'Points': 'TRUE'}}, 'sample': {'quick': 6000, 'thorough': 80000}}],
        'traces': {'compile': 'TraceCompile'},
        'technique': 'TLA+ specification of the subset construction as a step machine, checked by TLC; the calls that the real compiler makes on a builder, and the automata built, explored in product with the machine',
        'covers': 'Design: the worklist ends and what it builds simulates the machine on every word, for every machine within the bounds. Binding: enumerated and random machines (Ndfa, boxed, and implementations of '
                  'StateMachine that are not the library\'s, with any labels and outputs) are compiled with a recording builder and with the library\'s; the calls are judged against the protocol and both automata are run beside the machine over every word.',
        'note': 'For every machine tried, the automaton is decided for all words. Machines are enumerated up to 4 calls (5 in the thorough tier, sampled) and random up to 25 states, chains and rings to 70000 (the largest judged by queries at chosen words).',
    },
    'C15': {
        'models': [{'module': 'MCThompson', 'consts': {'quick': {'Level': 2}, 'thorough': {'Level': 2}}}],
        'generators': [{'module': 'GenThompson', 'wrap': 'compile_on', 'consts': {'quick': {'Level': 2}, 'thorough': {'Level': 2}}, 'sample': {'quick': 3000, 'thorough': None}}],
        'traces': {'compile_on': 'TraceThompson'},
        'technique': 'TLA+ specification of compiling a pattern onto a machine, checked by TLC; the calls that the real code makes on a machine, replayed onto the specification and explored beside the old machine and the pattern',
        'covers': 'Design: the construction adds the language of the pattern and nothing else, for every small pattern from every state of machines with loops, rings of joins and outputs. Binding: '
                  'patterns are compiled by the real code onto small and random machines, singly and in sequence; the machine before and the one after the recorded calls are run side by side from every state over every word.',
        'note': 'For every machine, start state and pattern tried, words of every length are decided. Start states are states of the machine, as the library requires.',
    },
    'C16': {
        'models': [{'module': 'MCRunner', 'consts': {'quick': {'MaxState': 1, 'MaxLen': 5}, 'thorough': {'MaxState': 2, 'MaxLen': 4}}}],
        'generators': [{'module': 'GenRunner', 'wrap': 'run', 'consts': {'quick': {'MaxState': 1, 'MaxLen': 3}, 'thorough': {'MaxState': 1, 'MaxLen': 4}}}],
        'traces': {'run': 'TraceRunner'},
        'technique': 'TLA+ specification of running an automaton, checked by TLC against the longest accepted prefix; runs of real automata replayed and validated step by step',
        'covers': 'Design: a run finds the longest accepted prefix and its output, and ends only when no continuation is accepted, for every automaton and word within the bounds. Binding: every automaton of two states over two '
                  'symbols with every word of length 3 (4 in the thorough tier), and random automata, are built by the real builder, reported, stepped, copied and finished at every point, in any interleaving.',
        'note': 'Exhaustive for small automata and words, random above (up to 40 states, 200 symbols, 80 steps). Accepting or rejecting early, when nothing longer can be accepted, is allowed.',
    },
    'C17': {
        'models': [{'module': 'MCRunner', 'consts': {'quick': {'MaxState': 1, 'MaxLen': 4}, 'thorough': {'MaxState': 2, 'MaxLen': 4}}},
                   {'module': 'MCCodec', 'consts': {'quick': {'Depth': 5}, 'thorough': {'Depth': 8}}}],
        'traces': {'reuse': 'TraceReuse'},
        'technique': 'TLA+ specification of running an automaton and of writing one down, checked by TLC; histories of real matchers prepared, copied, serialized and used at once, validated against the automaton of the first',
        'covers': 'Design: runs have no state but their own and find the longest prefix; the accept table can be written and read back whenever outputs can. Binding: random histories in which matchers are prepared afresh, cloned, '
                  'written as JSON and bincode and read back, and used by matches, interleaved runs by hand and interleaved tokenizers that borrow or own them; every result is what the first automaton gives, every copy is the same automaton and every fresh one equivalent.',
        'note': 'Histories are sampled; equivalence of automata is decided for all words. Outputs are integers, strings, units and options.',
    },
    'C18': {
        'models': [{'module': 'MCTagged', 'consts': {'quick': {'N': 3, 'MaxOps': 2, 'MaxTags': 2}, 'thorough': {'N': 3, 'MaxOps': 3, 'MaxTags': 2}}}],
        'generators': [{'module': 'GenTagged', 'wrap': 'tagged', 'workers': 1, 'consts': {'quick': {'N': 3, 'MaxOps': 2, 'MaxTags': 2}, 'thorough': {'N': 4, 'MaxOps': 2, 'MaxTags': 2}}, 'sample': {'quick': 5000, 'thorough': 80000}}],
        'traces': {'tagged': 'TraceTagged'},
        'technique': 'TLA+ specification of tagged streams, checked by TLC; replay of its behaviours, allowed and refused, and validation of every stream after every call',
        'covers': 'Design: base symbols are kept in order, and any list of tags is the same as its tags one at a time, for every way of tagging a small stream. Binding: those behaviours with every list that is out of order, overlapping, reversed '
                  'or out of bounds, and random histories over several streams, copies and nested streams; all streams are validated in full after every call.',
        'note': 'Exhaustive for 3 symbols, two calls and two tags a call (sampled by the quick tier), random above. A refusal is a panic, as the library has it.',
    },
    'C19': {
        'models': [{'module': 'MCTagged', 'consts': {'quick': {'N': 3, 'MaxOps': 2, 'MaxTags': 2}, 'thorough': {'N': 3, 'MaxOps': 3, 'MaxTags': 2}}},
                   {'module': 'MCTokenizer', 'consts': {'quick': {'MaxLen': 3}, 'thorough': {'MaxLen': 6}}}],
        'traces': {'tagged': 'TraceTagged'},
        'technique': 'TLA+ specifications of tagged streams and tokenizers, checked by TLC; validation of real streams that were tokenized against the tags that the real tokenizer finds in the mapped symbols',
        'covers': 'Design: as C18 and C05. Binding: random streams, with tags in them or without, are tokenized with random matchers and maps (that depend on the position, too), once or again and again, and made directly from readers; the calls of the map, the resulting trees and the originals are validated.',
        'note': 'Histories are sampled. That the tokenizer finds the right tokens is C05.',
    },
    'C20': {
        'models': [{'module': 'MCReaders', 'consts': {'quick': {'MaxScript': 4, 'MaxLayers': 2, 'K': 3}, 'thorough': {'MaxScript': 4, 'MaxLayers': 3, 'K': 3}}}],
        'generators': [{'module': 'GenReaders', 'wrap': 'readers', 'consts': {'quick': {'MaxScript': 4, 'MaxLayers': 2, 'K': 3}, 'thorough': {'MaxScript': 4, 'MaxLayers': 3, 'K': 3}}, 'sample': {'quick': 9000, 'thorough': 120000}}],
        'traces': {'readers': 'TraceReaders'},
        'technique': 'TLA+ specification of pipelines of symbol readers, checked by TLC; replay of its inputs and pipelines on real readers and validation of every answer',
        'covers': 'Design: requests that go down a pipeline of maps, filters, eager layers and layers that keep to their end, over a source that fails and is interrupted, give the answers that the specification gives, and take no more from the source than was asked for; for every input and pipeline within the bounds. '
                  'Binding: those and random ones are run on real pipelines (vectors, strings, iterators, byte streams raw and buffered in any chunks, tapes, splits, boxes, maps, tagged streams); every answer and the symbols taken from the source are validated.',
        'note': 'Inputs to 4 requests and 2 layers (3 in the thorough tier) exhaustive in the design and sampled on the real code, random above. After an error or an end of a source that carries on, a reader may carry on or not.',
    },
    'C21': {
        'models': [{'module': 'MCDomain', 'consts': {'quick': {'Split': 1, 'Top': 6, 'Gap': 2, 'MaxRanges': 4}, 'thorough': {'Split': 2, 'Top': 8, 'Gap': 2, 'MaxRanges': 4}}},
                   {'module': 'MCPattern', 'consts': {'quick': {'Level': 1, 'MaxLen': 4}, 'thorough': {'Level': 1, 'MaxLen': 6}}}],
        'traces': {'domain': 'TraceDomain', 'dfa': 'TraceDfa', 'match': 'TraceMatch', 'tok': 'TraceTokenizer'},
        'technique': 'TLA+ specification of symbol types with gaps, checked by TLC; the neighbours of real symbols validated against it, and the automata, matches and tokens of the same patterns over every type and place in it',
        'covers': 'Design: dividing ranges over a type with a gap is what it is over the symbols numbered in order, asks for no neighbour that is not there, and next and prev undo each other. Binding: next and prev of every char, 8 bit and 16 bit symbol, and of windows of the others '
                  '(their ends, either side of powers of two, anywhere); the same token sets, words and inputs over all 46 placements in 12 types (at the ends, both ends, across the gap of char, spaced out), with the automaton explored in product with the residuals and matches and tokens validated.',
        'note': 'Neighbours are exhaustive for types up to 16 bits and char. Token sets are sampled, and the same for every placement.',
    },
    'C22': {
        'models': [{'module': 'MCInterval', 'consts': {'quick': {'N': 4}, 'thorough': {'N': 7}}}],
        'traces': {'interval': 'TraceInterval'},
        'technique': 'TLA+ specification of ranges as sets of symbols, checked by TLC; every pair of small real ranges, over every type, validated against it',
        'covers': 'Design: the laws of ranges, and computing with their ends, for every three ranges within the bounds. Binding: every pair of ranges over up to 5 symbols (7 in the thorough tier) and random ones over up to 32, over 48 types and placements (also types that are ordered but can not be counted): '
                  'what they include, whether they overlap, their join, their order by every operator, sorting, and which ends make a range.',
        'note': 'Exhaustive for pairs over 5 symbols (7 in the thorough tier); the operations only compare ends, of which a pair has four.',
    },
    'C23': {
        'models': [{'module': 'MCLevels', 'consts': {'quick': {'Depth': 3, 'MaxLen': 4}, 'thorough': {'Depth': 3, 'MaxLen': 7}}}],
        'generators': [{'module': 'GenLevels', 'wrap': 'levels', 'consts': {'quick': {'Depth': 2, 'MaxLen': 4, 'MaxOps': 2}, 'thorough': {'Depth': 3, 'MaxLen': 4, 'MaxOps': 2}}, 'sample': {'quick': 4000, 'thorough': 60000}}],
        'traces': {'levels': 'TraceLevels'},
        'technique': 'TLA+ specification of tokenizers that read tokenizers, checked by TLC to be what tokenizers pulling through tapes compute; its behaviours replayed on real stacks, and those and random ones validated',
        'covers': 'Design: up to three tokenizers that pull from each other, each over a tape that reads only what a match needs, give at the top what the last says of the word that the others give. Binding: enumerated and random stacks '
                  'of up to 6 tokenizers, made in every way, with tapes, splits, maps and vectors in between, read by one reader or by two halves, by any mixture of calls; every answer, position and end is validated.',
        'note': 'Exhaustive for small stacks in the design, sampled on the real code.',
    },
    'C24': {
        'models': [{'module': 'MCLazy', 'consts': {'quick': {'MaxLen': 4, 'Beyond': 3}, 'thorough': {'MaxLen': 6, 'Beyond': 4}}}],
        'traces': {'lazy': 'TraceLazy'},
        'technique': 'TLA+ specification of how far a match has to look, checked by TLC against languages and tokenizing over a tape; what real matches and tokenizers ask of their source validated against it',
        'covers': 'Design: a tokenizer over a tape never reads beyond the first symbol with which nothing could be matched, and that point is where no word of the language begins any more, for small token sets and words. Binding: real matches and '
                  'tokenizers over a source that counts what it is asked, and carries on after its end; after every call what was read is validated.',
        'note': 'Token sets and inputs are sampled. Patterns with parts that cannot be matched are left out, and one copy more of a bounded repetition may be looked for.',
    },
    'C25': {
        'models': [{'module': 'MCDrive', 'consts': {'quick': {'MaxState': 1, 'K': 1, 'MaxLen': 3}, 'thorough': {'MaxState': 1, 'K': 1, 'MaxLen': 5}}}],
        'generators': [{'module': 'GenDrive', 'wrap': 'drive', 'consts': {'quick': {'MaxState': 1, 'K': 1, 'MaxLen': 3}, 'thorough': {'MaxState': 1, 'K': 1, 'MaxLen': 3}}}],
        'traces': {'drive': 'TraceDrive'},
        'technique': 'TLA+ specification of the protocol between driver, matcher and source, checked by TLC; behaviours of every small matcher replayed with the real driver, and what it asks of matchers and sources validated event by event',
        'covers': 'Design: for every matcher of up to two states and every word within the bounds, the protocol ends with the answer of the matcher, having taken just the symbols that led to it. Binding: the real match_pattern drives matchers that are not the '
                  'library\'s (given by tables, over symbols that can only be compared and outputs that can\'t be copied) over sources that note what they are asked; every event, the answer and what is left of the source are validated.',
        'note': 'Exhaustive for matchers of up to two states over two symbols and words of up to 3 symbols, sampled above (words of up to 70000 symbols).',
    },
    'C26': {
        'models': [{'module': 'MCKept', 'consts': {'quick': {'MaxLen': 4}, 'thorough': {'MaxLen': 7}}}],
        'traces': {'kept': 'TraceKept'},
        'technique': 'TLA+ specification of what a tokenizer over a tape has to keep, checked by TLC; how many symbols are alive while real tokenizers and tapes run, validated against it',
        'covers': 'Design: a tokenizer over a tape never keeps more than the longest match looked at, for small token sets, all words and every mixture of calls. Binding: real tokenizers, stacks of them, tapes and matches run over '
                  'sources of 20000 symbols and more, whose type counts its instances; the largest number alive during each call is held against the longest stretch that the specification says a match looks at, and what is alive after all was dropped against none.',
        'note': 'Token sets and inputs are sampled. How things are kept is free within four times that stretch and 500 symbols. Patterns with parts that cannot be matched are left out.',
    },
}
