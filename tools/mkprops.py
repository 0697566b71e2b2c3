import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
S='src/'
p('C01','matches returns the longest prefix in the pattern\'s language',
 "For every pattern and every finite input, matching returns the length of the longest prefix of the input (possibly empty) that belongs to the pattern's regular language, and no match exactly when no prefix belongs to it. This holds for every way of running the match: a pattern, a prepared pattern, a state machine or a string used as a pattern, over string, vector or other readers.",
 ['inputs'],"every pattern built from the seven constructors (nested to any depth, any repeat bounds, any number of alternatives) and every input string",
 "About 20 assertions use 'abc'/'def'; nesting of repeats, empty alternatives, overlapping ranges and long backtracking are never exercised together.",
 [S+'matches.rs',S+'regular_pattern.rs',S+'dfa_compiler.rs',S+'symbol_range_dfa.rs',S+'ndfa.rs',S+'prepare.rs'],
 [('SymbolRangeState.accept','longest accepting prefix so far',S+'symbol_range_dfa.rs')],
 [('Pattern::compile','src/regular_pattern.rs'),('DfaCompiler::compile','src/dfa_compiler.rs'),('match_pattern','src/matches.rs'),('SymbolRangeState::next','src/symbol_range_dfa.rs')],
 ['matches','matches_prepared','match_pattern','StateMachine methods of the prepared matcher'])
p('C02','Pattern combinators are concatenation, union and bounded repetition',
 "For any patterns p and q built by any sequence of combinator calls, p.append(q) matches exactly the concatenations, p.or(q) exactly the union, p.repeat(m..n) exactly m to n-1 consecutive copies (nothing at all if m>=n), and p.repeat_forever(n) exactly n or more copies. A string, slice, vector, boxed pattern or reference used as an operand denotes the same language as the pattern it converts to.",
 ['programs','inputs'],"every expression built with exactly/append/or/repeat/repeat_forever from any convertible operand, and every word",
 "Tests compare a dozen constructed trees for equality; they do not check that the merged trees still denote concatenation/union for arbitrary shapes.",
 [S+'regular_pattern.rs'],[],
 [('PatternCombiner::append/or','src/regular_pattern.rs'),('PatternTransformer','src/regular_pattern.rs'),('ToPattern/IntoPattern','src/regular_pattern.rs'),('Pattern::compile','src/regular_pattern.rs')],
 ['constructed Pattern value','prepared matcher of the constructed pattern'])
p('C03','A clash between token patterns always yields the lowest-ordered token',
 "For any set of token patterns and any input, matching yields the longest prefix in any of the token languages, together with the lowest-ordered token among those whose language contains that prefix, including the empty prefix. The answer does not depend on the order in which the patterns were added, on duplicates, or on the run.",
 ['configurations','inputs'],"every list of (pattern, token) pairs including duplicates and patterns that match the empty string, every insertion order and every input",
 "One test has one clash on three inputs; clashes of joined states, empty matches and insertion orders are not sampled, and hash order makes some failures random.",
 [S+'tokenizer.rs',S+'dfa_compiler.rs',S+'ndfa.rs'],
 [('DfaTransitions.output','output symbols of a DFA state',S+'dfa_compiler.rs')],
 [('TokenMatcher::to_ndfa','src/tokenizer.rs'),('DfaTransitions::output_symbol','src/dfa_compiler.rs'),('Ndfa::output_symbols_for_state','src/ndfa.rs')],
 ['match_pattern(prepared TokenMatcher)'])
p('C04','next_token is maximal munch at the current position',
 "From any position of any input, next_token (and next_symbol) returns the longest non-empty token starting there with its exact range and advances the position to its end, or returns nothing and leaves the position where it was; skip_input returns the symbol at the position and advances by one. Interleaving these calls in any order never loses, repeats or reorders input, and a failed attempt at the end of the input makes at_end_of_reader true while it is false whenever input remains.",
 ['histories','inputs'],"every token set, input and interleaving of next_token, next_symbol, skip_input, get_source_position and at_end_of_reader, with lookahead of any length",
 "Tests run four fixed short inputs with one-symbol lookahead; they never rewind far, across buffer growth, or mix skips with failed attempts at length.",
 [S+'tokenizer.rs',S+'tape.rs',S+'symbol_range_dfa.rs'],
 [('Tokenizer.tape','position and lookahead',S+'tokenizer.rs')],
 [('Tokenizer::next_token','src/tokenizer.rs'),('Tape::rewind/cut','src/tape.rs')],
 ['return values and get_source_position/at_end_of_reader after each call'])
p('C05','Iterating a tokenizer terminates and covers the input exactly',
 "Used as an iterator over a finite input, a tokenizer terminates; the ranges it yields are non-empty, ascending and disjoint, each is the maximal-munch token at its start, and every symbol outside them is one at which no non-empty token starts when scanning left to right. The iterator ends only when the whole input has been consumed, whatever mixture of direct calls preceded it.",
 ['inputs','histories'],"every token set (including ones matching the empty string or nothing) and every finite input",
 "Two inputs are iterated; termination and exact coverage are universal claims over inputs and token sets.",
 [S+'tokenizer.rs',S+'tape.rs'],[('Tape.end_of_reader','source exhausted',S+'tape.rs')],
 [('Iterator for Tokenizer','src/tokenizer.rs')],['items yielded by the iterator'])
p('C06','A tape replays the source exactly under any mix of read, rewind and cut',
 "After any sequence of reads, rewinds, cuts and resizes, a tape at position k returns exactly the k-th symbol of its source and then moves to k+1, whatever the amount of buffered data. The reported position is always the number of symbols between the start of the source and the read head, and the reported buffer size is the distance from the cut (or the start) to the furthest symbol read.",
 ['histories'],"every finite sequence of next_symbol, rewind, cut, resize over sources of any length",
 "Three linear tests on at most 9 symbols; the circular buffer's wrap-around, growth while wrapped and repeated cuts interact in ways only histories expose.",
 [S+'tape.rs'],
 [('buffer/read_index/first_symbol_index/last_symbol_index','circular buffer',S+'tape.rs'),('source_position','absolute position',S+'tape.rs')],
 [('Tape::next_symbol/resize/rewind/cut','src/tape.rs')],['return values','get_source_position','buffer_size'])
p('C07','A tape never crosses its cut, over-reads its source or forgets its end',
 "A rewind succeeds exactly when it stays at or after the last cut (or the start) and otherwise panics leaving the tape unchanged. The source is read lazily, one symbol per read beyond the furthest point reached, and never again once it has reported its end; at_end_of_reader is true exactly when the end has been reported and the head is at it.",
 ['histories','fault_sequences'],"every history including refused rewinds, and sources that yield again after reporting their end",
 "No test attempts a refused rewind or counts reads of the source.",
 [S+'tape.rs'],[('end_of_reader','latched end',S+'tape.rs'),('first_symbol_index','cut point',S+'tape.rs')],
 [('Tape::rewind guard','src/tape.rs'),('Tape::next_symbol','src/tape.rs')],['panics','calls made on the source reader','at_end_of_reader'])
p('C08','Both halves of a split reader see the whole stream in any interleaving',
 "Whatever the interleaving of reads on the two readers made by a split, including nested splits and after the other reader is dropped, the n-th read of each returns exactly what the n-th read of the source returned, up to and including its end.",
 ['schedules','histories'],"every interleaving of reads and drops, streams of any length, nested splits, and sources that report an end more than once",
 "Two interleavings on three symbols are tested; neither drops a reader early nor nests.",
 [S+'split_reader.rs'],[('positions','offset of each reader in the shared buffer',S+'split_reader.rs'),('buffer','symbols read by only one reader',S+'split_reader.rs')],
 [('SplitSymbolReaderBuffer::read','src/split_reader.rs')],['values returned by each reader'])
p('C09','Split readers read the source once, free what both read, and drop safely',
 "The source of a split is read once per symbol, only when the leading reader asks, so after the split ends it continues right after the furthest symbol read. Buffered symbols are only those the slower live reader has yet to read, and dropping the readers at any point in any order always completes.",
 ['schedules','histories'],"every interleaving of reads and drops in either order, at any lead",
 "Tests only drop readers that are level; drop order and memory held are never observed.",
 [S+'split_reader.rs'],[('positions','usize::MAX once dropped',S+'split_reader.rs')],
 [('clear_buffer','src/split_reader.rs'),('Drop for SplitSymbolReader','src/split_reader.rs')],['reads made of the source','live clones of symbols','termination of drop','source after the split'])
p('C10','An NDFA answers exactly what was added to it, through all joins',
 "After any sequence of add_transition, create_state, join_states and set_output_symbol calls, the transitions reported for a state are exactly those added to it or to any state reachable from it by joins (before or after the join was made), the state count is one more than the highest state mentioned, and a state reports an output symbol exactly when it or a state it is joined to has one, always one of those last set. Joins are one-way and may be cyclic.",
 ['histories'],"every sequence of building calls in any order on any states, including cycles and self-joins",
 "Tests use at most three states and five calls; order-independence and closure over arbitrary join graphs is a universal claim.",
 [S+'ndfa.rs',S+'state_machine.rs'],[('transitions/joined_with/output_symbols/max_state','the automaton',S+'ndfa.rs')],
 [('get_join_closure','src/ndfa.rs')],['count_states','get_transitions_for_state','output_symbol_for_state'])
p('C11','Removing overlapping ranges keeps every state\'s moves',
 "After overlapping ranges are removed from an NDFA, any two transition ranges in the whole machine are either equal or share no symbol, and for every state and every symbol the set of states it can move to is the same as before. Outputs, joins and the state count are unchanged, and repeating the operation changes nothing.",
 ['inputs'],"every NDFA and every symbol of the domain",
 "Only indirect coverage through a few patterns with one overlap.",
 [S+'ndfa.rs',S+'overlapping_symbols.rs'],[('transitions','ranges to targets',S+'ndfa.rs')],
 [('Ndfa::fix_overlapping_ranges','src/ndfa.rs'),('SymbolMap::to_non_overlapping_map','src/overlapping_symbols.rs')],['get_transitions_for_state before and after'])
p('C12','to_non_overlapping_map partitions exactly the covered symbols',
 "For any set of ranges added in any order, the non-overlapping map consists of ascending disjoint ranges that cover exactly the symbols covered by the originals, every original range is exactly a union of them, and it is the coarsest such partition. It completes for every set of ranges, and adding a range twice changes nothing.",
 ['inputs'],"every finite set of ranges over any countable symbol type, in any insertion order",
 "Eleven hand-picked sets of at most three ranges; the splitting algorithm has order-sensitive cases for three or more ranges sharing ends.",
 [S+'overlapping_symbols.rs',S+'countable.rs'],[('ranges','sorted ranges',S+'overlapping_symbols.rs')],
 [('to_non_overlapping_map','src/overlapping_symbols.rs'),('add_range','src/overlapping_symbols.rs')],['find_overlapping_ranges over the whole domain'])
p('C13','find_overlapping_ranges returns exactly the ranges that overlap',
 "For any map (overlapping or not) and any query range, the lookup returns every distinct range of the map that shares at least one symbol with the query, once each, in ascending order, and no other.",
 ['inputs'],"every set of ranges in the map and every query range",
 "Seven lookups are tested, and the source carried a TODO doubting the lookup.",
 [S+'overlapping_symbols.rs'],[('ranges','sorted ranges',S+'overlapping_symbols.rs')],
 [('find_overlapping_ranges','src/overlapping_symbols.rs')],['returned ranges'])
p('C14','A compiled DFA is deterministic, well formed and equivalent to its NDFA',
 "For every NDFA without partially overlapping symbols (cycles, joins, unreachable states, any outputs), the compiler drives the builder by its protocol - one block per state, at most one accept, each symbol at most once and in ascending order, targets that exist, start state first - and the automaton built reaches, on every input word, an output equal to the lowest output among the NDFA states reached, or none exactly when there is none.",
 ['inputs','programs'],"every NDFA, every input word of any length, and every builder or state-machine implementation",
 "Three tests compile 'abc'-like patterns; subset construction is a claim over all automata and all words.",
 [S+'dfa_compiler.rs',S+'dfa_builder.rs',S+'symbol_range_dfa.rs'],
 [('known_states/to_process/states','worklist of the subset construction',S+'dfa_compiler.rs')],
 [('DfaCompiler::compile','src/dfa_compiler.rs'),('merge_states','src/dfa_compiler.rs'),('SymbolRangeDfaBuilder','src/symbol_range_dfa.rs')],['calls made on a DfaBuilder','StateMachine methods of the built DFA'])
p('C15','Compiling a pattern onto a state machine adds exactly its language',
 "Compiling a pattern onto any mutable state machine from any start state adds paths such that the words leading from the start state to the returned state are exactly those the machine plus one move by the pattern's language would allow. Nothing already in the machine changes: all states, transitions, joins and outputs stay, and words leading between existing states are the same as before.",
 ['inputs','programs'],"every pattern, every existing machine and start state, every word",
 "No test calls compile directly or compiles two patterns in sequence onto one machine from different states.",
 [S+'regular_pattern.rs',S+'ndfa.rs',S+'tokenizer.rs'],[],
 [('Pattern::compile','src/regular_pattern.rs')],['calls made on a MutableStateMachine','returned state'])
p('C16','Stepping a DFA reports the longest accepted prefix, once it is decided',
 "Stepping a DFA built through the builder over any word asks for more while some longer prefix can still be accepted, and ends with acceptance of the longest accepted prefix and that prefix's output, or rejection if no prefix (including the empty one) is accepted; finish always ends. Copies of a matching state evolve independently, and the built automaton's reported states, transitions and outputs are those given to the builder.",
 ['inputs','histories'],"every well-formed sequence of builder calls, every word, every point at which finish is called or a state is cloned",
 "One two-state automaton is stepped in the tests.",
 [S+'symbol_range_dfa.rs',S+'pattern_matcher.rs',S+'matches.rs'],
 [('SymbolRangeState','state, count, last accept',S+'symbol_range_dfa.rs')],
 [('SymbolRangeState::next/finish','src/symbol_range_dfa.rs'),('SymbolRangeDfaBuilder::start_state merging','src/symbol_range_dfa.rs')],['MatchAction of every step','StateMachine methods of the DFA'])
p('C17','A prepared or deserialized matcher behaves the same on every use',
 "A prepared matcher gives the same answers however many matches are run with it, interleaved or in sequence, by direct matching or by tokenizers borrowing or owning it, and whether it was prepared once or afresh. A matcher serialized and deserialized, or cloned, is the same automaton and gives the same answers.",
 ['histories','inputs'],"every matcher, every interleaving of uses and copies, every input",
 "One prepared pattern is used three times in sequence; no test serializes anything.",
 [S+'prepare.rs',S+'symbol_range_dfa.rs',S+'symbol_range.rs',S+'tokenizer.rs'],
 [('SymbolRangeDfa','states, transitions, accept tables',S+'symbol_range_dfa.rs')],
 [('PrepareToMatch','src/prepare.rs'),('Serialize/Deserialize derives','src/symbol_range_dfa.rs')],['results of interleaved matches','tables of the deserialized DFA'])
p('C18','Tagging never changes, loses or reorders the underlying symbols',
 "Any sequence of tag, tag_range and with_tags operations leaves the sequence of base symbols, read through all nested tags from left to right, unchanged; each operation replaces exactly the given ranges by one tag holding exactly the symbols that were there, in order, and leaves everything else (and, for the non-mutating ones, the original) as it was. Ranges that are out of bounds, reversed, out of order or overlapping are refused without changing the stream.",
 ['histories','inputs'],"every stream, every sequence of tagging operations with any ranges, including empty and invalid ones",
 "Six tests tag two halves of 'HelloWorld'; nesting, gaps, empty ranges and refusals are not covered.",
 [S+'tagged_stream.rs'],[('data','symbols and nested tags',S+'tagged_stream.rs')],
 [('TaggedStream::tag/tag_range/with_tags','src/tagged_stream.rs')],['len, index, read_symbols, equality'])
p('C19','Tokenizing a tagged stream tags exactly the tokens of the mapped symbols',
 "Tokenizing a tagged stream with any matcher and mapping tags exactly the ranges, with the tokens, that iterating a tokenizer over the mapped symbols yields, and leaves all other symbols and the original stream as they were; the mapping is applied to each symbol once, in order. Building a tagged stream directly from a tokenized reader gives the same result as reading it and then tokenizing it.",
 ['inputs'],"every tagged stream (including already tagged ones), token set and mapping function",
 "One input, one token set.",
 [S+'tagged_stream.rs',S+'tokenizer.rs',S+'symbol_reader.rs'],[],
 [('TaggedStream::tokenize','src/tagged_stream.rs'),('from_tokenized_reader','src/tagged_stream.rs')],['resulting tree','calls of the mapping function'])
p('C20','Symbol readers deliver every symbol once, in order, and then end',
 "Any composition of the library's readers (vectors, owned vectors, strings, filtered iterators, byte streams, boxed readers, mapped readers, tagged streams, splits, tapes) delivers exactly the source's symbols, transformed by the mappings, once each and in order, pulls no more of the source than was asked for, and then reports its end and keeps reporting it for a finished source. For a byte stream this holds for every chunking and interruption of the underlying reads, and an I/O error reads as an end with no byte lost, repeated or invented before it.",
 ['inputs','fault_sequences','configurations'],"every source, composition of adapters, chunking, interruption and error position",
 "Each reader is read once over three symbols, with no error and no composition.",
 [S+'symbol_reader.rs',S+'tape.rs',S+'split_reader.rs',S+'tagged_stream.rs'],[],
 [('SymbolReader impls','src/symbol_reader.rs'),('MappedStream','src/symbol_reader.rs'),('ByteSymbolReader','src/symbol_reader.rs'),('to_vec','src/symbol_reader.rs')],['each next_symbol','calls of the mapping function and of the underlying Read'])
p('C21','Matching is the same over every symbol type, to the ends of its domain',
 "Matching and tokenizing depend only on the order of the symbols: renaming the symbols of a pattern and input by an order-preserving map into any supported symbol type gives the same results, including symbols at the minimum and maximum of the type and either side of the gap in char. For every value with a neighbour, next and prev give the adjacent value of the type and undo each other.",
 ['inputs','configurations'],"every supported symbol type (8- to 64-bit integers, sized integers, char), every pattern, input and placement in the domain",
 "next/prev are tested at one value per type, and almost all matching tests use lower-case letters.",
 [S+'countable.rs',S+'overlapping_symbols.rs',S+'symbol_range_dfa.rs'],[],
 [('Countable impls','src/countable.rs'),('to_non_overlapping_map','src/overlapping_symbols.rs'),('transition merging','src/symbol_range_dfa.rs')],['Countable::next/prev','matches over embedded symbols'])
p('C22','Symbol range operations agree with inclusive intervals',
 "For all ranges and symbols: a range includes exactly the symbols from its lowest to its highest inclusive, two ranges overlap exactly when some symbol is in both, join is the smallest range covering both, the order on ranges is total and lexicographic by lowest then highest, and creating a range with its ends reversed is refused.",
 ['inputs'],"every pair of ranges and every symbol of any ordered type",
 "About fifteen point checks; the algebra is claimed for all ranges.",
 [S+'symbol_range.rs'],[],[('SymbolRange::includes/overlaps/join/cmp/new','src/symbol_range.rs')],['return values'])
p('C23','Tokenizers stack: the tokens of one level are the symbols of the next',
 "A tokenizer is itself a reader, whose symbols are the outputs of its tokens; it ends where no token starts. For any stack of tokenizers reading tokenizers (also through tapes, splits, maps, boxes and vectors), each level's answers, positions and end are exactly those of a single tokenizer reading the word of outputs that the level below gives, however the calls at the top are mixed, and two halves of a split level each see the whole of it.",
 ['inputs','configurations','histories'],"every stack of token sets, every input and every mixture of calls at the top",
 "One test stacks a tokenizer (as a reader); none puts tokenizers over tokenizers or reads one through a split or a tape.",
 [S+'tokenizer.rs',S+'tape.rs',S+'symbol_reader.rs',S+'split_reader.rs'],
 [('Tokenizer.source','tape over the level below',S+'tokenizer.rs')],
 [('impl SymbolReader for Tokenizer','src/tokenizer.rs'),('Tokenizer::next_token','src/tokenizer.rs'),('Tape::next_symbol','src/tape.rs')],['next_token, next_symbol, skip_input and next at every level','get_source_position','at_end_of_reader'])
p('C24','Matching and tokenizing read no more of a source than decides the answer',
 "A match, or a tokenizer asked for a token, reads its source one symbol at a time and no further than the first symbol with which nothing could be matched any more, and never again once the source has ended; it has read at least what it matched. What it did not read is there for whoever uses the source next, and a tokenizer's position and end are told without reading. (For patterns none of whose parts is impossible to match; a bounded repetition may look for one copy more than it allows.)",
 ['inputs','histories'],"every such token set, every source and every sequence of calls",
 "No test looks at how much of a reader has been used.",
 [S+'matches.rs',S+'tokenizer.rs',S+'tape.rs',S+'symbol_range_dfa.rs'],
 [('Tape.buffer','symbols read ahead',S+'tape.rs')],
 [('match_pattern','src/matches.rs'),('Tokenizer::next_token','src/tokenizer.rs'),('SymbolRangeState::next','src/symbol_range_dfa.rs')],['calls of next_symbol on the source'])
p('C25','match_pattern drives any pattern matcher by its protocol',
 "match_pattern runs any matcher (anything that implements MatchingState, over symbols of which only the order is known) from the action it is given, over any reader. While the matcher asks for more it is given the next symbol of the reader, each once and in order; when the reader ends the matcher is told so, once; and as soon as it has accepted or rejected, nothing more is read or asked and its answer is returned as it is, whatever length it claims. An action that has already decided is returned without reading anything. is_accepted says exactly whether an action accepted with the given output.",
 ['inputs','configurations'],"every matcher, every first action and every reader",
 "Every test drives the library's own automata, whose lengths and order of calls are always the usual ones.",
 [S+'matches.rs',S+'pattern_matcher.rs'],
 [('current_state','last action of the matcher',S+'matches.rs')],
 [('match_pattern','src/matches.rs'),('MatchAction::is_accepted','src/pattern_matcher.rs')],['calls of next, finish and next_symbol','the action returned','what is left of the reader'])
p('C26','Tokenizing a stream of any length keeps no more of it than a match looks at',
 "However long its source is, a tokenizer (used directly, as an iterator, as a reader or under another tokenizer) keeps no more of its symbols than the longest stretch that one match has to look at, within a constant factor, whether tokens are found or symbols are skipped where there are none; a tape keeps no more than was ever read beyond its cut; and matching keeps nothing of what it has read. When tokenizers, tapes, matchers and automata are dropped, every symbol that they kept is released.",
 ['inputs','histories'],"every token set, every mixture of calls and inputs of any length",
 "Inputs of tests are a few symbols long, so that keeping all of them is never noticed; no test counts what is alive.",
 [S+'tokenizer.rs',S+'tape.rs',S+'matches.rs'],
 [('Tape.first_symbol_index','the cut',S+'tape.rs'),('Tape.buffer','what is kept',S+'tape.rs')],
 [('Tokenizer::next_token/skip_input','src/tokenizer.rs'),('Tape::cut/resize','src/tape.rs'),('match_pattern','src/matches.rs')],['instances of a symbol type that counts them'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
