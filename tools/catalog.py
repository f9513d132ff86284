# -*- coding: utf-8 -*-
'The properties: properties.jsonl and MANIFEST.json are generated from this'

PROPS = []


def P(id, title, statement, over, text, why, files, mech, note, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, note=note, state=state))


CT = 'privcount/counter.py'

P('C01', 'Blinding cancels: the tally is the true count plus noise',
  'When every data collector and every share keeper of a round reports, the tally of each histogram bin equals the '
  'sum over the data collectors of the true increments plus their noise, whatever the random blinding values are.  '
  'This holds for any numbers of data collectors and share keepers, for negative totals, and for every modulus that '
  'exceeds twice the absolute total.',
  ['inputs', 'configurations', 'histories'],
  'all blinding values, increments and noise values; numbers of collectors and keepers; moduli',
  'The unit test runs two collectors and a few keepers once with random values; it cannot show cancellation for '
  'every value at the modulus boundaries, for negative totals or for odd and tiny moduli.',
  [CT], [('blinding, sharing, tallying and signed adjustment', 'SecureCounters, PrivCountCounters, adjust_count_signed, '
          'derive_blinding_factor')],
  'Exhaustive over all values within the stated numbers of participants and bins; noise is an arbitrary integer '
  'within +-2^40 and not tied to a distribution.')

P('C02', 'Blinding values are unbiased and hide the counts',
  'A blinding value is uniform over the modulus range: it is the first of a series of draws that is in range, '
  'unmodified, and every share keeper and bin has its own draw.  What a data collector sends to the tally server is '
  'the count plus all these values modulo the modulus, and the collector keeps no copy of the shares it sent.',
  ['inputs', 'configurations'],
  'all draws of the random generator, all counts, all moduli in the listed bit-length classes',
  'The tests only look at the range of a few sampled values; neither bias, reuse of a draw, nor a share left out '
  'for some keeper shows in a sample.',
  [CT], [('sampling and blinding', 'sample_randint, sample, derive_blinding_factor, SecureCounters.generate_blinding_shares')],
  'The operating system generator is an arbitrary value in the range asked for; its quality is not judged. The '
  'number of rejected draws is bounded by two.')

P('C03', 'An increment counts once, in the one bin that contains the value',
  'Incrementing a histogram adds the increment to exactly those bins whose half-open interval contains the value, a '
  'bin ending at infinity containing infinity too, and changes nothing else.  Single-number counters count every '
  'increment; unknown counters, fractional increments, missing bin values and increments after the counts were '
  'detached count nothing.',
  ['inputs', 'histories'],
  'all values, increments and disjoint bin bounds in several orders; sequences of two increments',
  'The tests count a few fixed values in fixed bins and never a value exactly on a symbolic boundary or at infinity.',
  [CT], [('increment', 'SecureCounters.increment')],
  'Exhaustive over all real values and bounds for up to four bins.')

P('C04', 'Counts with a different structure are refused and change nothing',
  'Tallying succeeds exactly when every participant reported each counter of the round with a count for each of '
  'its bins, and then gives the sum modulo the modulus in any order of the participants.  A blinding share with a different '
  'structure is refused and leaves the counts as they were.',
  ['inputs', 'fault_sequences', 'schedules'],
  'all counts; seven kinds of structural damage at any one participant; all orders of three participants',
  'The tests tally matching counters only.',
  [CT], [('structure checks', 'SecureCounters._check_counter, tally_counters, import_blinding_share')],
  'Exhaustive over the values; the damage is one of seven kinds. Additional unknown keys inside a counter are not '
  'covered by the claim.')

P('C05', 'Noise is added once to every bin, and before counts are released',
  'Every bin of every counter of a collecting node receives exactly one sample, centred on zero, whose scale is the '
  'noise weight of the node times the sigma of the counter, rounded to the nearest integer.  A node that must add '
  'noise does not release counts before the noise was added.',
  ['inputs', 'histories'],
  'all samples, noise weights in [0, 1024], orders of the operations',
  'No test relates the number and scale of the samples to the released counts.',
  [CT], [('noise', 'SecureCounters.generate_noise, detach_counts, noise')],
  'Exhaustive over the sample values as reals; the normal distribution itself is the library\'s.')

P('C06', 'Bin and sigma configurations are accepted exactly when well formed',
  'A bin configuration is accepted exactly when every counter is known, has a suitable number of bins, and its bins '
  'are non-empty and do not overlap.  A noise configuration is accepted exactly when no sigma is negative; combining '
  'the two keeps exactly the counters they share, with the bins and sigma each had.',
  ['inputs', 'configurations'], 'all bin bounds and sigmas for up to four bins; known, unknown and zero counters',
  'The tests use a handful of good and bad files.',
  [CT], [('configuration checks', 'check_bins_config, check_sigmas_config, combine_counters')],
  'Exhaustive over real bounds; a sigma of NaN is outside the claim.')

P('C07', 'Noise weights are accepted only if any threshold of nodes adds enough noise',
  'A noise weight configuration is accepted exactly when the weights are not negative, their total does not exceed '
  'the largest count, and there are, or with the default there can be, as many weights as the threshold of data '
  'collectors asks for.  A relay uses its own weight if there is one and the default otherwise.',
  ['inputs', 'configurations'], 'all weights, all thresholds, up to three relays',
  'No stable test reads a noise weight configuration with a default or a boundary threshold.',
  [CT], [('noise weights', 'check_noise_weight_config, get_noise_weight, has_noise_weight')],
  'Exhaustive over real weights and integer thresholds for up to three relays.')

P('C08', 'Rounds with less noise are delayed, and the delay cannot be worn down',
  'A round whose noise is, for some counter, lower than that of the reference round by more than the tolerance, or '
  'whose counters differ, starts no earlier than the configured delay after the last successful round; any other '
  'round may start after that round ended.  The reference is the first of the series of rounds with '
  'equivalent noise, so that gradual decreases add up, and failed rounds change nothing.',
  ['histories', 'inputs', 'configurations'],
  'all histories of up to two rounds (thorough: three) and a proposed one, all sigmas, times, delays, tolerances',
  'The unit tests play a few scripted histories with fixed sigmas; gradual decreases within the tolerance and '
  'histories with failed rounds in between are combinations they do not reach.',
  [CT], [('collection delay', 'CollectionDelay.round_start_permitted, get_next_round_start_time, set_delay_for_stop')],
  'Exhaustive over real times and sigmas for histories of the stated length with two counters at most.')

ND, DC, SK = 'privcount/node.py', 'privcount/data_collector.py', 'privcount/share_keeper.py'

P('C09', 'Delay, tolerance and round-limit settings take effect as configured',
  'A configured delay period that is not negative is kept and anything else becomes the one-day default; a sigma '
  'tolerance is accepted exactly when it is no smaller than the errors it has to absorb.  With a limited number of '
  'rounds, collection goes on exactly while rounds are left, the running one not counted.  Any well-formed tally '
  'server status can be logged.',
  ['inputs', 'configurations'], 'all delays, tolerances, round limits and completed rounds, and status values',
  'No test reads these settings at their boundaries.',
  [ND], [('settings', 'get_valid_delay_period, get_valid_sigma_decrease_tolerance, get_remaining_rounds, '
          'continue_collecting, log_tally_server_status')],
  'Exhaustive over real and integer settings within 2^40.')

P('C10', 'A node enforces the collection delay and sends its counts at most once',
  'A node starts a round only if the start command is well formed and the delay its own settings require has '
  'passed, and otherwise changes nothing.  When a round stops, its counts are sent exactly when the tally server '
  'wants them, with the times of that round, and never a second time.',
  ['inputs', 'histories', 'fault_sequences'],
  'all sigmas, times, delays and tolerances over three rounds; fourteen kinds of start commands',
  'Only the delay arithmetic is unit tested, not the start and stop checks that use it.',
  [ND], [('start and stop checks', 'PrivCountClient.check_start_config, check_stop_config')],
  'Exhaustive over the values for histories of three rounds with two counters.')

P('C11', 'A data collector starts a round only with exactly its own share keepers',
  'A data collector accepts a start command only when the share keepers named are exactly the configured ones, '
  'seals each set of blinding values so that only the share keeper it is for can open it, and begins listening after '
  'the requested delay, also if an earlier round was stopped before it began.  A start command that is refused, or that '
  'arrives during a round, changes nothing.',
  ['inputs', 'configurations', 'schedules', 'fault_sequences'],
  'all blinding values; one to three share keepers; nine ways to name them; commands at any time before, during '
  'and after the deferred start; a round that is stopped before it begins and a second one',
  'No stable test starts a data collector; a wrong share keeper or a command during a round needs a hostile or '
  'confused tally server.',
  [DC], [('start', 'DataCollector.do_start, _start_aggregator_deferred, check_aggregator')],
  'Ciphers are stand-ins in which only the matching private key opens a sealed value.')

P('C12', 'A data collector releases counts only noisy, blinded, wanted and once',
  'The counts a data collector sends when a round stops are the true counts plus one noise sample for each bin, '
  'scaled with the noise weight of that relay or the default, plus all blinding values.  Without a noise weight for '
  'the relay, or when the tally server does not want them, no counts are sent; and nothing is sent twice.',
  ['inputs', 'configurations', 'histories'],
  'all stream sizes, noise samples, blinding values and weights; fingerprint known early, late or never',
  'No stable test stops a data collector; the released value is random in any single run.',
  [DC, CT], [('stop', 'DataCollector.do_stop, Aggregator.stop, generate_noise, set_fingerprint')],
  'Exhaustive over the values for one or two share keepers and two streams.')

P('C13', 'Whole rounds: share keepers take all shares or none, and the tally is right',
  'A share keeper starts a round only if it can open and import every share, then sends exactly the negative sum of '
  'the blinding values, once, and nothing that was decrypted appears in its context.  When all nodes of a round '
  'report, the tally is the true count of all streams plus the noise of the data collectors.',
  ['inputs', 'configurations', 'schedules', 'fault_sequences'],
  'all blinding values, noise samples and stream sizes; up to three collectors and keepers; nine broken shares',
  'No stable test runs a share keeper or a round.',
  [SK, DC, CT], [('start and stop', 'ShareKeeper.do_start, do_stop, DataCollector.do_start, do_stop')],
  'Exhaustive over the values for two (thorough: three) collectors and one to two (three) keepers.')

TM = 'privcount/traffic_model.py'

P('C14', 'Every exit stream is counted in its categories with its true amounts',
  'A stream is counted, in addition to the counters of all streams, in the counters of exactly its port class (web, '
  'interactive, P2P, other), its position on the circuit (initial or subsequent) and the kind of its address (host name, '
  'IPv4 or IPv6 literal), and their combinations.  The byte counts, life time and byte ratio it adds are those of the '
  'event, and streams that carried nothing count only where they should.',
  ['inputs', 'histories'], 'all ports, positions, addresses, byte counts and times; up to three streams',
  'The tests never feed an event to the data collector: an amount in the wrong direction or a category lost for one '
  'port shows only in the totals of a live round.',
  [DC, CT], [('stream events', 'Aggregator._handle_stream_event, _handle_legacy_exit_stream_event, _increment_stream_end_counters')],
  'Exhaustive over ports and amounts for one stream; over two (thorough: three) streams for a subset of the counters.')

P('C15', 'A web host name counts for every list that has it or a suffix of it',
  'The initial stream of a circuit to a web port whose destination is a host name adds to exactly those entries of the '
  'exact-match counters whose list contains the name, and of the suffix counters whose list contains the name or a '
  'parent domain of it, ignoring case, and to the last entry when no list does.  Other streams and literal addresses '
  'add to none.',
  ['inputs', 'configurations'], 'all names of one to three labels over arbitrary label texts; up to three lists',
  'The unit tests match a fixed host name against one fixed list; they never connect the lists to the counters.',
  [DC, 'privcount/match.py'], [('domain lists', 'Aggregator._increment_stream_end_counters, exact_match, suffix_match')],
  'Host names are sequences of abstract labels compared for equality; the suffix structure is the real code\'s, on '
  'abstract strings.')

P('C16', 'Every closed circuit is counted in its categories with its true amounts',
  'A circuit that is closed is counted, with its cells, their ratio, its life time and its failure reason, in the '
  'counters of exactly its position (origin, entry, middle, end, single hop), its purpose (exit, directory, onion '
  'service side, version and hop), whether it was active and whether it failed.  The streams of an exit circuit are '
  'counted once, when the circuit is closed, and a circuit left out by sampling counts nowhere.',
  ['inputs', 'histories', 'schedules'], 'all combinations of flags, all cell counts, times and failure reasons; streams on '
  'two circuits, closed in any order and repeatedly',
  'No test sends a circuit event; the counters are chosen by a dozen flags whose combinations no sample covers.',
  [DC, CT], [('circuit events', 'Aggregator._handle_circuit_close_event, _handle_circuit_position_event, '
              '_increment_circuit_counters, _do_rotate')],
  'Exhaustive over flags and amounts for one circuit; combinations of several end categories are excluded.')

P('C17', 'Every client or relay connection is counted with its true amounts',
  'A connection that is closed is counted, with its bytes, circuits and life time, in the counters of exactly its kind '
  '(client or relay) and of whether relays share the address.  Its address counts for every country list and AS list '
  'that contains it, or for the last entry when none does, and for the number of connections from that address.',
  ['inputs', 'configurations'], 'all amounts, times and flags; addresses in the first, second or no list',
  'No test sends a connection event.',
  [DC], [('connection events', 'Aggregator._handle_connection_close_event, _increment_connection_counters')],
  'Exhaustive over amounts for one connection; over two (thorough: three) connections for a subset of the counters.')

P('C18', 'Every onion service descriptor upload or download is counted correctly',
  'An upload or download of a descriptor is counted in the counters of exactly its version, its result (cached, added, '
  'updated or rejected, with which reason) and client authorisation, and of the lists that contain its onion address '
  'or reason.  The sizes, revision and times it adds are those of the event, and fields that belong to the other '
  'version make an event malformed.',
  ['inputs', 'configurations'], 'all combinations of result fields; all sizes, revisions, times and numbers of points',
  'No test sends a descriptor event.',
  [DC], [('descriptor events', 'Aggregator._handle_hsdir_store_event, _handle_hsdir_fetch_event, '
          '_increment_hsdir_counters')],
  'Exhaustive over amounts and result fields for one event.')

P('C19', 'Malformed events never raise an exception and count nothing',
  'Whatever Tor sends, handling an event does not raise an exception and leaves the data collector able to count '
  'later events.  A field with a value outside its domain, a missing required field or a broken shape makes the whole '
  'event count nothing; unknown and old events and events without a configured counter are ignored.  No event '
  'in a proper, unknown or old form ends the connection to Tor.',
  ['inputs', 'fault_sequences'], 'every field of every event: absent, malformed text or any number; broken shapes',
  'The existing tests contain no event at all; the space of malformed fields cannot be sampled exhaustively.',
  [DC, 'privcount/tagged_event.py'], [('validation', 'Aggregator.handle_event, parse_tagged_event, is_*_valid')],
  'One field at a time is malformed; texts come from a fixed set, numbers are arbitrary.')

P('C20', 'Client addresses are counted once per rotation window, then forgotten',
  'Each client address is counted once for a window between rotations, at the end of the following window, as active if one of its '
  'circuits was active and with its numbers of active and inactive circuits.  A circuit that began before the latest '
  'rotation also belongs to the window before.  The windows end with the round.',
  ['histories', 'schedules', 'inputs'], 'orders of up to nine circuits and rotations at any times, any cell counts',
  'Rotation needs a running event loop; no test rotates.',
  [DC], [('client addresses', 'Aggregator._do_rotate, _handle_legacy_entry_circuit_event')],
  'Exhaustive over times and cell counts for the listed orders of up to three (thorough: five) circuits.')

P('C21', 'A traffic model counts exactly the emissions, delays and transitions seen',
  'Each most-likely path of a stream or circuit adds one to the count of paths, one to each state and observation emitted, '
  'one to each transition and start, and the delays, or their rounded logarithms and squares, of the states that '
  'have them.  A path that is malformed adds nothing, and the counters of a model are exactly those that its '
  'templates configure.',
  ['inputs', 'configurations', 'histories'], 'all paths of up to three observations, with any delays',
  'The one test that parses a model never feeds it a path.',
  [TM, DC], [('paths', 'TrafficModel._increment_traffic_counters, increment_packets_counters, increment_streams_counters, '
              'get_bins_init_config, get_noise_init_config')],
  'Exhaustive over delays below 2^40 for two small models; logarithms are uninterpreted between the points where their '
  'rounding changes.')

SN = 'privcount/statistics_noise.py'

P('C22', 'The noise allocation keeps the privacy budget and equalises the noise',
  'The epsilons allocated to the statistics of a round sum to no more than the budget, each with a standard deviation that '
  'satisfies differential privacy for it and an equal share of delta, and all deviations are in the same proportion to '
  'the expected values, scaled by the circuit sample rate where sampling affects them.  The search it relies on returns a value on the wanted side of the '
  'threshold and within the tolerance of it.',
  ['inputs', 'configurations'], 'all budgets, tolerances, intervals, thresholds; one to three statistics',
  'The unit tests run the allocation on a few fixed sets of statistics and compare it to itself.',
  [SN], [('allocation', 'interval_boolean_binary_search, satisfies_dp, get_differentially_private_std, get_opt_privacy_allocation, '
          'get_noise_allocation')],
  'Compositional: the search is checked for intervals of at most 16 (thorough: 128) tolerances, the rest with the search '
  'replaced by what is shown of it, over any condition of differential privacy.')

PR = 'privcount/protocol.py'

P('C23', 'Both ends of a connection prove that they know the secret',
  'A tally server treats a connection as a valid client only after it received the HMAC of its own fresh cookie and the client\'s '
  'cookie under the shared secret, and a client treats a server as valid only after the corresponding proof of the server.  No '
  'reordered, replayed, reflected or invented message does instead, and nothing but cookies and HMACs of 32 bytes.  Two honest ends '
  'with the same secret always succeed.',
  ['schedules', 'fault_sequences', 'inputs'],
  'all sequences of handshake and other lines by an attacker who relays, replays, reflects and invents messages',
  'The tests check the HMAC helper functions, never the order of the messages or an attacker.',
  [PR, 'privcount/crypto.py'], [('handshake', 'PrivCountProtocol.handshake_*, PrivCountServerProtocol, PrivCountClientProtocol')],
  'Exhaustive over the choices of an attacker for sequences of up to five (thorough: six) lines; the HMAC is real, the random '
  'bytes are distinct values.')

P('C24', 'A connection is limited to short lines until it is valid',
  'Before the handshake has succeeded a line of more than the handshake limit closes the connection, unread and unanswered, and '
  'afterwards the longer limit applies, however the bytes are split into packets.  A failed handshake closes the connection and '
  'nothing that follows is processed.',
  ['inputs', 'schedules', 'fault_sequences'], 'all lengths of lines around the limits, all ways to cut them into packets',
  'No test opens a connection.',
  [PR], [('lines', 'PrivCountProtocol.lineReceived, lineLengthExceeded, connectionMade, setLineLimit')],
  'Exhaustive over the lengths; two cuts of the stream of bytes.')

P('C25', 'Only messages of a valid connection reach the node, and unchanged',
  'A status, start, stop or checkin message is delivered to the node exactly once and with the value that was sent, and only if the '
  'connection is valid.  Messages that are malformed, unknown or in the wrong direction close the connection and reach nobody.',
  ['inputs', 'schedules', 'fault_sequences'], 'all message kinds, stages and malformations; values of the messages',
  'No test sends a message.',
  [PR], [('messages', 'PrivCountServerProtocol.process_event, PrivCountClientProtocol.process_event, handle_*_event')],
  'Exhaustive over kinds, stages and numbers; texts come from a fixed set.')

P('C26', 'The control port is used only after Tor proved what it knows',
  'A collector that is configured with a control password or a cookie sends nothing that depends on trust in the port until the '
  'authentication has succeeded, and with safe cookies only after Tor has proven that it knows the cookie, for fresh nonces.  A '
  'password or cookie of a wrong length is never sent or used.  Events, consensus flags and configuration that arrive before then '
  'reach no counter.',
  ['inputs', 'schedules', 'fault_sequences'], 'all methods offered, cookies and passwords, nonces and hashes of any length, any order of lines',
  'No test opens a control connection.',
  [PR], [('control authentication', 'TorControlClientProtocol.handle_protocolinfo_*, authenticate_*, TorControlServerProtocol')],
  'Exhaustive over the kinds of cookies, passwords, replies and orders; texts and lengths come from fixed sets.')

P('C27', 'Strings and lines of the control port survive the trip',
  'Every string that is sent to the control port, quoted or as hex, is read back as it was, and the quotes end where the string ends.  '
  'Nonces and hashes of a length outside the limits, or that are not hex, are refused.  Commands are split at the same places '
  'however the lines are cut into packets.',
  ['inputs', 'schedules'], 'all strings over an alphabet of special characters, all lengths around the limits, cuts into packets',
  'No test encodes a string for the control port.',
  [PR], [('control strings', 'TorControlProtocol.encodeControllerString, decodeControllerString, decodeNonce')],
  'Exhaustive for strings of up to five (thorough: six) characters of the alphabet, lengths from a fixed set.')

P('C28', 'Events are asked of Tor, and reach the counters, exactly while a round runs',
  'When a round starts and the relay has been discovered, in whichever order, Tor is asked once for exactly the events that the '
  'counters and the traffic model of the round need, with the sample rate and cell limit of the round.  When the round stops they '
  'are switched off again, and no event reaches a counter before or after.  A relay that does not answer as it should is not used.',
  ['schedules', 'fault_sequences', 'configurations'], 'all orders of start, stop, discovery and events; all settings of the round',
  'No test runs the discovery or a collection.',
  [PR, CT], [('collection', 'TorControlClientProtocol.startCollection, stopCollection, enableEvents, disableEvents, setDiscoveredValue, '
              'lineReceived')],
  'Exhaustive over the listed orders of up to three (thorough: four) steps; texts come from a fixed set.')

P('C29', 'A counter counts the same whatever other counters are collected',
  'Which events a data collector asks of Tor depends on the counters of the round.  Each counter counts exactly the same whether '
  'only the kinds of events that it asks for are delivered or those of other counters too, in any order, and no event ever changes '
  'a counter that does not ask for its kind.',
  ['inputs', 'histories', 'configurations'], 'all amounts; all mixtures of two (three) of fifteen kinds of events',
  'The tests check that each counter has a list of events, not that the list is the right one.',
  [CT, DC], [('events and counters', 'PRIVCOUNT_COUNTER_EVENTS, get_events_for_counters, Aggregator.handle_event')],
  'Two runs over the same symbolic events are compared, one with all of them and one with those of one kind of counter.  Values '
  'that are not amounts come from small sets.')

TS = 'privcount/tally_server.py'
CR = 'privcount/crypto.py'
MA = 'privcount/match.py'

P('C30', 'A round starts exactly when it is due and enough clients are ready',
  'A round starts exactly when at least the required numbers of collectors and keepers are idle, another round is wanted, the start '
  'time has come and the delay after the last round is over, and with all the ready clients and nobody else.  Only these collectors '
  'are started, with a deferral that covers the check-in period and every round trip.  Clients that have been silent for seven check-ins '
  'are dropped, and no others.',
  ['inputs', 'configurations', 'histories'], 'all times, round trips, numbers of rounds, thresholds; all sets and states of clients',
  'No test creates a tally server.',
  [TS], [('starting a round', 'TallyServer.refresh_loop, start_new_collection_phase, get_start_config, clear_dead_clients')],
  'Exhaustive over the states of up to four clients; times, round trips, periods, delays and numbers of rounds are symbolic.')

P('C31', 'A round has one course: shares, counting, answers, one outcome',
  'Keepers get the shares only when every collector has sent them, and counts are asked for only while the round is a success; a round '
  'in which a client fails, restarts, disappears or answers twice ends with one outcome, and only a round in which all took part '
  'is published, as the sum of what they counted.  Rounds never mix, and each is counted once.',
  ['schedules', 'fault_sequences', 'crash_points', 'histories'],
  'one incident (thorough: two) of eight kinds at any point of a round of up to three clients; any counts',
  'No test runs a round; what counts is the order in which clients check in, fail and answer.',
  [TS, DC, SK], [('the course of a round', 'CollectionPhase.*, TallyServer.set_client_status, get_start_config, get_stop_config, set_final_result, '
              'stop_collection_phase')],
  'Every step is compared with a reference model of the round.  The counts are symbolic; times are concrete.')

P('C32', 'Results are published once, for a whole round, with its times and model',
  'A tally is published only if every client of the round has returned all the counters and bins; otherwise the outcome is '
  'published without one.  The tally is the signed sum for all counters, with the times and the configuration of the round.  An updated '
  'traffic model is published only with a tally, replaces the latest one only if it is valid, and leaves the model of the round as it was.',
  ['inputs', 'fault_sequences', 'crash_points'], 'all counts and times; all kinds of incomplete, malformed and missing answers',
  'No test ends a round.',
  [TS, TM], [('results', 'CollectionPhase.write_results, get_updated_traffic_model, write_traffic_model_results')],
  'Exhaustive over kinds of answers and positions; counts and times are symbolic.  The file system is a recording stand-in for links.')

P('C33', 'The published context holds no secrets, paths or lists',
  'The context of the results names every client and the noise, thresholds and times, but no path, key, secret or address of '
  'a file, no list as a whole and no counts, and the bins and sigmas of the counters only once.  What a collector or keeper returns at the end of a round has neither lists '
  'nor encrypted shares.  Leaving them out never changes what the tally server keeps.',
  ['configurations', 'inputs'], 'all sets of lists and paths in the configuration; all counts',
  'No test looks at the context.',
  [TS, DC, SK, 'privcount/config.py'], [('context', 'TallyServer.get_context, CollectionPhase.get_client_config, get_tally_server_config, '
              'PrivCountClient.do_stop')],
  'Exhaustive over the presence of each key; a fixed set of secrets is looked for in all that is published.')

P('C34', 'What is encrypted for a key is opened only by that key, whole',
  'A message sealed for a public key is the same when it is opened with its private key, and is opened with no other key and in no altered '
  'form; every message has a fresh symmetric key.  An HMAC is accepted only for the same key, prefix and data, and never with a '
  'short key.  A key has the same name, its digest, from a private or public file or string.',
  ['inputs', 'fault_sequences'], 'all numbers in messages; all ways to alter or exchange parts; keys of all lengths; all lengths of data',
  'The tests encrypt one message.',
  [CR], [('sealing and verifying', 'encrypt, decrypt, get_hmac, verify_hmac, b64_padded_length, get_public_digest_string')],
  'The ciphers are ideal stand-ins that open exactly what they sealed; SHA-256 and HMAC are real.')

P('C35', 'A name on several lists is counted for exactly one of them',
  'When lists overlap, a name that is matched by its end belongs to the list that has its shortest matching end, the first of them for the same '
  'end, and a name, number or reason that is matched exactly to the first list that has it.  The case of letters never matters.  An onion '
  'address is found plain or as its digest.',
  ['inputs', 'configurations'], 'all texts of up to three components in up to three lists',
  'The tests do not match names.',
  [MA], [('overlaps', 'suffix_match_prepare_collection, exact_match_prepare_collection, suffix_match, exact_match')],
  'Components of names are symbolic; the shapes of the lists come from a fixed set.')

CF = 'privcount/config.py'
IN = 'privcount/inject.py'
LG = 'privcount/log.py'

P('C36', 'Match lists are what is in the files, and every change of them takes effect',
  'A list has exactly the entries of its file, in order, in lower case and without comments; a line that is no entry is refused.  After '
  'any edit of the files, their order or their number, the lists that are matched are those of the files as they are now, and the list '
  'counters have a bin for each list and one for the rest.  Lists that overlap are refused if overlaps are not wanted.',
  ['inputs', 'histories', 'configurations'], 'all names; all kinds of edits between two loads; all lines of a few characters',
  'The tests do not load lists.',
  [TS, MA, CF], [('loading lists', 'load_match_list, TallyServer.load_match_config, load_match_file, load_as_prefix_config, modify_bins')],
  'Names are symbolic; kinds of edits, lines and shapes of lists are exhausted within small bounds.  The file system is a stand-in.')

P('C37', 'An updated traffic model is a valid one, half old and half counted',
  'A model is accepted exactly if its states and observations are known, the parameters complete and all probabilities sum to one.  '
  'Updating it from any tallies, also negative or missing ones, gives for each probability and parameter the mean of the old and '
  'the counted value, so that it stays valid.  Everything that is needed for the update is counted.',
  ['inputs', 'configurations'], 'all probabilities, parameters, and tallies of any sign; all kinds of mistakes in models',
  'The test updates one model from one set of tallies.',
  [TM], [('models', 'check_traffic_model_config, HiddenMarkovModel.update_from_tallies, TrafficModel.get_noise_init_config, get_bins_init_config')],
  'Real numbers instead of floating point; models of three states; one distribution is symbolic at a time.')

P('C38', 'Logs say what happened: periods, times, sizes and summaries are exact',
  'A period in the logs is the period, rounded towards zero to a second and in proper units, and stands beside the time to which it '
  'leads; a size is exact to a decimal.  A summary is never longer than its limit, leaves short texts as they are, begins and ends '
  'like the text, and has the number of all items.',
  ['inputs'], 'all times, periods and sizes; all lengths of texts, limits and lists within bounds',
  'The tests format a few periods.',
  [LG], [('formats', 'format_period, format_time and the functions that use it, format_bytes, summarise_string, summarise_list')],
  'Dates are uninterpreted; floating point is real arithmetic.')

P('C39', 'A configuration takes effect whole, or not at all, and never in a running round',
  'A node takes up a configuration exactly if every setting is valid, with the defaults and limits of the documentation, and otherwise '
  'keeps the one before it as it was.  The counters are those with bins and noise that are accepted and not rejected, and one that '
  'stays zero.  A round that is running keeps the settings, counters and lists with which it began until it is published.',
  ['inputs', 'configurations', 'histories'], 'all periods, thresholds, weights, rates, limits, delays, tolerances, bins, sigmas; one mistake of any kind',
  'The tests do not read configurations.',
  [TS, DC, SK, CT], [('reading the configuration', 'refresh_config of the nodes, check_counters_config, check_noise_weight_config, CollectionPhase')],
  'The numbers are symbolic, one group of settings at a time.  YAML is a stand-in.')

P('C40', 'The injector replays a log of events: each once, in order, with fresh times',
  'Each event of the log that ended in the window is sent once, in the order of the log, with all its fields, ends when it is sent and '
  'lasts as long as it did; with pauses it comes as long after the one before as in the log.  Lines that are no events neither stop '
  'the others nor change.  The injector begins when events are asked for and ends, for good, when the log or the connection does.',
  ['inputs', 'histories'], 'all times, windows and pauses; logs of a few lines of any kinds; requests and losses at any point',
  'The tests inject no events.',
  [IN, PR], [('the injector', 'PrivCountDataInjector, TorControlServerProtocol.lineReceived')],
  'Logs of up to three lines; times are reals, not their decimal renderings.')

CN = 'privcount/connection.py'
P('C41', 'A node listens and connects exactly where its configuration says',
  'For every valid part of a configuration, one listener or connection is opened: at the path, or at the port and address, and without '
  'an address at the local ones, or all of them, as the caller chose.  Parts with a mistake open nothing and do not stop the others.  '
  'Everything that was opened is returned, and can be closed again.',
  ['inputs', 'configurations'], 'all ports; every form and mistake of a part; lists of two parts',
  'The tests open no connections.',
  [CN, CF], [('connections', 'listen, connect, stopListening, disconnect, validate_connection_config')],
  'The event loop is a stand-in that records what is opened; addresses and paths are samples of each form.')

P('C42', 'What a collector knows about its relay is what Tor told it last',
  'Every name, port, address, version and flag that Tor reports in the proper form is kept and reported, in any order, and others change '
  'nothing.  The fingerprint is the first one, and noise is added once, when it is known, with the weight of that relay, or the relay '
  'does not count.  What is no PrivCount relay is left.',
  ['inputs', 'histories'], 'answers of Tor in any order; texts of all lengths near the limits with a bad character at any place; all weights',
  'The tests talk to no Tor.',
  [DC, PR], [('discovery', 'TorControlClientProtocol.lineReceived, Aggregator.set_nickname, set_fingerprint and the others')],
  'Texts are enumerated by length and by the place of a bad character.')

P('C43', 'The tally server has a true picture of its clients, and reports trouble',
  'The last status of every node is known, with its first fingerprint and the time since which it is in its state; versions that add no '
  'noise are refused.  The numbers of nodes that are ready, active, in control of Tor or receive events are exact, as is when and why the '
  'next round waits.  Nodes that are late, lost, without Tor or without events are reported exactly when their limits are passed.',
  ['inputs', 'histories', 'time'], 'all times, periods, round trips and delays; three statuses of two nodes',
  'The tests run no tally server.',
  [TS], [('clients', 'set_client_status, is_valid_client_version, get_status, clear_dead_clients, is_last_client_event_recent, is_client_control_ok')],
  'Two nodes at a time; the round is a stand-in for the overview.')

P('C44', 'Secrets and keys are made once, by whom they belong to, and kept',
  'The secret of the handshakes is the 32 random bytes in the file that the configuration of the node names (its own section first, then '
  'the top level, then the default name).  Only the tally server makes that file, and only if it is missing; anything else in it is never '
  'used as a secret, and a tally server without a secret does not run.  Keys that are missing are generated, others are kept.',
  ['inputs', 'configurations'], 'secrets of 0 to 64 bytes; other contents of every kind; every combination of files that are there or not',
  'The test of the protocol uses one good secret.',
  [PR, CF, TS, SK, DC], [('secrets and keys', 'PrivCountProtocol.handshake_secret_load, choose_secret_handshake_path, refresh_config of the nodes, generate_keypair')],
  'Files are real ones in a scratch directory; keys are stand-ins.')

P('C45', 'Clients come back, and find the server, until they are checked in',
  'A client connects to the server that its configuration names at that time.  It tries again until it has checked in, whatever happens '
  'to the connection, and then comes back after the period that the server gave, with one task for it, however often it checks in.  A node '
  'runs only with a valid configuration; the server listens at its port with its key.  Connections do not touch each other.',
  ['inputs', 'histories', 'faults'], 'all ports and periods; three connections that succeed, fail or are lost at any point',
  'The tests make no connections.',
  [ND, DC, SK, TS, PR], [('checking in', 'run, do_checkin, buildProtocol of the nodes, PrivCountClientProtocol.handle_checkin_event, protocol_succeeded')],
  'Twisted is a stand-in that follows its documentation; encryption is not part of it.')

P('C46', 'A collector that hears nothing from Tor says so',
  'A collector that counts warns if it has no connection to Tor ten seconds after it began, and if it has seen no event for an hour, '
  'though its relay should see events of its counters; if not, it says so without a warning.  It says nothing otherwise, and looks by '
  'itself soon after it began.  Events are expected of relays with the flags that the counters need.',
  ['inputs', 'time'], 'all times, delays and flags; counters of every kind that needs flags',
  'The tests run no collector.',
  [DC, CT], [('reports', 'DataCollector.check_aggregator, are_dc_events_expected, _start_aggregator_deferred, are_events_expected')],
  'What the messages say is not checked, only whether there is one and how serious it is.')
