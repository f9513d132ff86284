# -*- coding: utf-8 -*-
'what is symbolic, and what it is compared to, for DESIGN.md'
HOW = {
'C01': 'Blinding values are arbitrary integers below the modulus, increments and noise arbitrary numbers. The code of collectors, keepers '
       'and tally server runs on them; the oracle is the plain integer sum. Moduli: symbolic for the signed adjustment, listed for whole rounds.',
'C02': 'The random generator returns a fresh symbol for each draw. The obligation is that the result is exactly the first draw in range (so it '
       'is uniform if the draws are), and that for each two counts and the same sum there are blinding values that explain both.',
'C03': 'Value, increment and bin bounds are symbols; the oracle is "lower <= value < upper, or infinity in an open bin", computed by the harness.',
'C04': 'Counts are symbols, one participant is damaged in one of seven ways; the oracle is acceptance exactly of the undamaged, and the sum.',
'C05': 'Samples of the generator are symbols; each bin must receive its own one, and the scale asked for must be weight times sigma.',
'C06': 'Bounds are symbols; the oracle is the definition (non-empty, disjoint pairwise) and not the sorted sweep of the code.',
'C07': 'Weights and threshold are symbols; the oracle quantifies over the set of weights directly.',
'C08': 'Sigmas, times, delays and tolerance are symbols; the oracle is an independent model of the reference round and the earliest start.',
'C09': 'Settings are symbols; oracles are the documented limits.',
'C10': 'Rounds with symbolic sigmas and times, and commands with one defect each; the oracle is C08\'s model on the side of the node, and the '
       'counts that were handed over, as objects, exactly once.',
'C11': 'Keys are stand-ins that only open for their owner; blinding values are symbols that must arrive at exactly one keeper each. Commands come at symbolic times.',
'C12': 'Increments, samples, weights and blinding values are symbols; the oracle is the linear expression that may be released.',
'C13': 'The whole round is run: collectors, keepers and tally; the released total must equal the sum of streams and noise as terms. Shares are broken in nine ways.',
'C14': 'Port, sizes and times are symbols in the text of the event; the oracle is a table from category to the counters, written from the documentation of the counters.',
'C15': 'Names are abstract strings (symdom.py): sequences of symbolic labels, whose equality the solver decides. The oracle compares labels from the right.',
'C16': 'Flags are exhausted, amounts are symbols; the oracle is a table of categories. Two runs check that streams count once and that sampling counts nowhere.',
'C17': 'Amounts and times are symbols, addresses are members of stand-in prefix tables; the oracle is a table as in C16.',
'C18': 'As C17, for descriptors.',
'C19': 'One field of an otherwise good event is absent, one of many malformed texts, or an arbitrary number; obligations: no exception, no count if '
       'outside the documented domain, and a good event afterwards counts.',
'C20': 'Start times, cell counts and the times of the rotations are symbols; the oracle keeps a list of windows and circuits.',
'C21': 'Delays are symbols in the JSON of the path; the oracle walks the path over the model once more and forms the expected increments. '
       'Rounded logarithms are integers with axioms for where the rounding changes.',
'C22': 'The search is proven on its own contract; then allocation runs with the search replaced by any function that satisfies the contract.',
'C23': 'An attacker chooses each line from: what either end said, replays of a former session, reflections, parts put together anew, and inventions. '
       'The oracle keeps who proved what with real HMACs.',
'C24': 'The length of a line is a symbol (the object only has a length); and real bytes are cut at all places.',
'C25': 'Numbers inside the messages are symbols that pass through the JSON of both ends; callbacks of the node are recorded and compared.',
'C26': 'Kinds of replies are exhausted in any order; the oracle is what a controller that follows the specification may send.',
'C27': 'All strings over an alphabet of the special characters are sent and read back by the other end\'s real decoder.',
'C28': 'Sample rate and cell limit are symbols in the commands; the oracle is a state machine of what must have been asked.',
'C29': 'Two aggregators, one with a counter alone and one with others, get the same symbolic events; the counts must be equal as terms.',
'C30': 'Round trips, ages, thresholds, times and delays are symbols; the oracle is the conjunction of the documented conditions.',
'C31': 'A reference model of the phases of a round; incidents (silence, errors, a missing share, stop of the operator, expiry) at any step.',
'C32': 'Counts and times are symbols that must appear in what is written; file names by the times.',
'C33': 'Everything that the nodes return at the end is searched for the secrets, paths, keys and lists that were configured.',
'C34': 'Ciphers are ideal stand-ins (a sealed box that only the right key opens); obligations: round trip, refusal of others, nothing shorter. Key files are stand-ins.',
'C35': 'Abstract names as in C15, in several lists; the oracle is the first list, or none for a name on two.',
'C36': 'A stand-in file system with abstract names; lists are loaded, edited in one of many ways and loaded again; oracle: what is in the files now.',
'C37': 'Probabilities and tallies are symbols, as real numbers; the oracle is the mean of old and counted value, and the sum one.',
'C38': 'Times are symbols; a rendering is parsed back with the symbolic numbers in it, and must be the value, rounded as documented.',
'C39': 'Settings are symbols, one group at a time; the oracle is the documented limits and defaults; the configuration before must be untouched on a mistake.',
'C40': 'Times of the events, the window and the clock are symbols in the text of the log; the reactor is played by the harness, which compares every line that is sent.',
'C41': 'Ports are symbols, forms and mistakes are exhausted; the oracle lists what has to be opened.',
'C42': 'Texts of all lengths near the limits with a bad character at any place, answers in any order, symbolic weights; the oracle keeps what was said last.',
'C43': 'Times, round trips and periods are symbols; the oracle keeps the statuses, and computes the limits and numbers itself.',
'C44': 'Which files exist, what is in them and how long it is are choices of the solver; the oracle compares the files afterwards and the bytes that were asked of the system.',
'C45': 'Real nodes and protocols with a stand-in event loop; ports and periods are symbols, what happens to each connection is a choice of the solver; the oracle is whether the node has checked in.',
'C46': 'Times and delays are symbols; the oracle is the documented limits over the times, and the level of what is logged.',
}
