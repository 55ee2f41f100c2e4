import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
pk='packet/src/'
allp=[pk+f for f in ('packet.rs','data.rs','props.rs','connect.rs','connack.rs','publish.rs','puback.rs','pubrec.rs','pubrel.rs','pubcomp.rs','subscribe.rs','suback.rs','unsubscribe.rs','unsuback.rs','auth.rs','disconnect.rs','ping.rs','reason.rs','topic.rs')]
sl='server-lib/src/'
p('C01','Every packet the builders can produce survives encode then decode',
 'For every packet that can be assembled through the public builders, decoding its encoding succeeds and gives back a packet of the same kind whose observable contents (flags, QoS, identifiers, reason codes, strings, payloads, subscription lists, will, and every property value, repeated values in order) equal what was put in. Re-encoding the decoded packet gives a frame of the same length and the same meaning.',
 ['inputs'],'all packet kinds x all builder argument values, including length boundaries (127/128, 16383/16384, 65535, 2 MiB), many properties, many topics',
 'The unit tests encode about one hand-picked packet per kind with zero or one property; nothing varies lengths, property sets, QoS/flag combinations or list sizes.',
 allp,[('per-packet serialize/deserialize pair','packet/src/*.rs'),('Packet enum dispatch','packet/src/packet.rs')],['Packet::to_bytes','Packet::from_bytes','getters of every packet'])
p('C02','Decoding arbitrary bytes never panics and never reads past its frame',
 'For every byte string, handing it to the decoder either returns a packet or an error: it never panics, never overflows, and never consumes bytes beyond the end of the frame that the header announces. Every accessor and the re-encoding of an accepted packet are equally panic free.',
 ['inputs'],'all byte strings: random bytes, all short frames, mutated valid frames, hostile length fields',
 'Tests feed a handful of fixed byte strings; a decoder panic takes down a broker task, and only search over malformed input can reach length-arithmetic corner cases.',
 allp,[('min_size guard before unchecked reads','packet/src/*.rs deserialize'),('Buf::take(length) framing','packet/src/*.rs deserialize')],['Packet::from_bytes'])
p('C03','Declared, encoded and consumed frame lengths always agree',
 'For every packet, built or decoded, the length it reports equals the number of bytes its encoding produces, and decoding a frame consumes exactly that many bytes. Consequently any concatenation of frames decodes to exactly that sequence of packets, leaving exactly the bytes that follow.',
 ['inputs','histories'],'all packets and all concatenations of frames, valid or mutated, with arbitrary trailing bytes',
 'The server advances its receive buffer by the reported length, so one disagreement desynchronises a connection; tests compare the lengths for one packet per kind only.',
 allp,[('size()/partial_size','packet/src/*.rs'),('buffer advance by frame_len','server-lib/src/clients/mqttclient.rs recv')],['Packet::frame_len','Packet::from_bytes','Packet::to_bytes'])
p('C04','Incomplete input is reported as incomplete, complete input never is',
 'Every proper prefix of every valid frame is answered with the "need more bytes" error, never with a packet or a malformed-packet error. Conversely, once all bytes that a frame header announces are present the answer is never "need more bytes", so a receiver never waits for data that cannot help.',
 ['inputs'],'all proper prefixes of all valid frames; all complete frames, well-formed or malformed',
 'Streaming receivers depend on this trichotomy at every split point; tests check a few truncated scalar fields, no whole frame and no malformed complete frame.',
 allp,[('InsufficientBuffer error','packet/src/error.rs, every deserialize')],['Packet::from_bytes error kind'])
p('C05','Encoded frames are exactly the MQTT 5 wire image of the packet built',
 'For every packet built through the public API, an independent reader of the MQTT 5 wire format finds in the encoding exactly the packet type, fixed-header flags, minimal remaining length, fields, property identifiers and property values that were set, and nothing else.',
 ['inputs'],'all packets the builders can produce',
 'Round-trip tests are blind to symmetric mistakes (the same wrong code on both sides); tests pin the bytes of about one packet per kind.',
 allp,[('serialize implementations','packet/src/*.rs'),('numeric codes of properties, reasons and packet types','packet/src/props.rs, reason.rs, packet_type.rs')],['Packet::to_bytes'])
p('C06','The decoder accepts exactly the legal frames and reads them correctly',
 'A complete frame is accepted if and only if it is a legal frame of the MQTT 5 format: legal type and flag bits, minimal variable-length integers, exact lengths with no leftover bytes, well-formed strings without control characters, known reason codes, well-placed wildcards, and properties that belong to that packet and do not repeat unless allowed. When it is accepted, every field read back equals what an independent reader sees in the bytes.',
 ['inputs'],'all complete frames: valid ones, every single-field mutation of valid ones, and all short frames',
 'Tests try a few dozen accept or reject examples; accept/reject boundaries multiply over packet kinds, properties, reason codes and length fields.',
 allp,[('deserialize implementations','packet/src/*.rs'),('PropOwner masks','packet/src/props.rs'),('fixed flag checks','packet/src/packet_type.rs')],['Packet::from_bytes'])
p('C07','Properties only go where, how and as often as the protocol allows',
 'For every packet kind, property and value type, attaching the property through the builder succeeds exactly when MQTT 5 assigns that property to that packet with that value type, and the same verdict holds for a received frame. Setting a single-valued property again replaces its value, repeatable properties keep every value in order, and a received frame that repeats a single-valued property is rejected.',
 ['inputs','histories'],'all 27 properties x 14 property owners x 8 value types, and all sequences of property insertions',
 'Tests exercise a few (property, packet) pairs; the full ownership and type table and insertion histories are never enumerated.',
 [pk+'props.rs']+allp,[('auxiliary_data ownership table','packet/src/props.rs'),('checked_insert / insert','packet/src/props.rs')],['add_prop','get_prop','Properties','Packet::from_bytes'])
p('C08','Builder call sequences: rejected calls change nothing, accepted calls compose',
 'For every sequence of builder calls on a packet, a call that returns an error leaves the packet exactly as it was, and a call that succeeds changes only what it names. At every point of the sequence the getters and the encoding agree with the accumulated successful calls, and the encoding is a legal frame.',
 ['histories','inputs'],'all finite sequences of builder calls with valid and invalid arguments on every packet kind',
 'Tests run one short straight-line builder sequence per kind, never a failing call followed by use of the packet, never a flag set and later unset.',
 [pk+'connect.rs',pk+'publish.rs',pk+'subscribe.rs',pk+'unsubscribe.rs',pk+'props.rs',pk+'suback.rs',pk+'unsuback.rs'],[('setters validate before mutating','packet/src/connect.rs, publish.rs, subscribe.rs, props.rs')],['all public setters and getters'])
p('C09','Topic and string validity is decided consistently everywhere',
 'A topic filter is accepted if and only if every "#" stands alone as the last level and every "+" stands alone in its level; a publish topic additionally contains no wildcard; every string is at most 65535 bytes and free of control characters. The same verdict is given wherever such text enters: topic type, publish, subscribe and unsubscribe builders, string properties, client identifiers, user names, wills, and decoding of received frames.',
 ['inputs'],'all strings, in particular short strings over the wildcard alphabet and strings around the length limit',
 'Tests try a few strings at one entry point; the rule is positional and must agree between several independent entry points.',
 [pk+'topic.rs',pk+'data.rs',pk+'publish.rs',pk+'subscribe.rs',pk+'unsubscribe.rs'],[('is_valid_topic','packet/src/topic.rs'),('string verify','packet/src/data.rs')],['MqttTopic::new','builders','Packet::from_bytes'])
p('C10','The result of coding does not depend on how the bytes are laid out in memory',
 'For every byte sequence and every way of splitting it into non-contiguous buffer segments, decoding gives the same packet or the same kind of error and consumes the same number of bytes as decoding it from one contiguous buffer. Binary values handed to the builders in several segments are taken over whole. Encoding into differently shaped output buffers yields the same multiset of bytes in the same frame.',
 ['inputs'],'all frames x all segmentations of the input buffer',
 'The decoder is generic over buffer type; every test passes one contiguous buffer.',
 [pk+'data.rs',pk+'packet.rs',pk+'publish.rs'],[('generic Buf access','packet/src/data.rs')],['Packet::from_bytes over chained buffers'])
p('C11','The shortage reported for incomplete input lets a reader read exactly the frame',
 'When the decoder reports that bytes are missing, what it reports is usable: the amount it needs is larger than the amount it says is available, that amount is not more than what it was given, and the difference never exceeds what is really missing from the frame. A reader that fetches just as many bytes as it is told to be short of therefore always makes progress, gets the whole frame, and never takes a byte of what follows.',
 ['inputs','histories'],'all proper prefixes of all valid, damaged and header-only frames; readers of streams of frames that fetch what is reported',
 'The tests compare the error kind only; the numbers matter to a caller that sizes its next read by them, at every cut of every frame.',
 allp+[pk+'error.rs',pk+'parsable.rs'],[('InsufficientBuffer { needed, available }','packet/src/error.rs and every deserialize')],['Packet::from_bytes error values'])
p('C12','Decoding never needs more memory than in proportion to the bytes that are there',
 'For every input, accepted, refused or incomplete, decoding allocates at any time at most a fixed amount plus a fixed multiple of the bytes it was given; lengths and counts that a packet only announces do not make it allocate anything.',
 ['inputs'],'all byte strings, in particular those that announce more than they hold',
 'Needs the allocations of each decode measured over inputs with lengths that nothing stands behind; tests look at results only.',
 ['packet/src/data.rs','packet/src/packet.rs','packet/src/props.rs','packet/src/subscribe.rs','packet/src/suback.rs','packet/src/publish.rs'],[('length checks before allocating','packet/src/data.rs'),('element loops','packet/src/*.rs')],['allocations during Packet::from_bytes'])
p('C13','What the codec takes grows in proportion to the packet, not faster',
 'Building, encoding, measuring, decoding (whole or in pieces of any size), reading, copying and rejecting a packet takes processor time in proportion to its size: whatever is repeated in it - properties, filters, reason codes, topic levels, characters, payload bytes - is not gone through again for each of its kind. No peer can make one packet of legal size occupy the receiver for long.',
 ['inputs'],'all packets of all sizes x all ways the bytes are handed over',
 'Tests use small packets on which a cost that grows with the square cannot be seen.',
 ['packet/src/packet.rs','packet/src/props.rs','packet/src/data.rs','packet/src/subscribe.rs','packet/src/suback.rs','packet/src/unsubscribe.rs'],[('loops over repeated elements','packet/src/props.rs, subscribe.rs, suback.rs')],['processor time'])
p('T01','Topic matching equals the MQTT rules after any subscription history',
 'After any sequence of subscribe, unsubscribe and unsubscribe-all operations by any clients, looking up a topic returns exactly the clients that currently hold at least one filter matching that topic under the MQTT rules ("+" one level, "#" the parent and everything below, levels compared literally including empty ones, "$" topics hidden from leading wildcards).',
 ['histories','inputs'],'all operation histories over all filters, topics and clients',
 'There is no test of the topic table at all; correctness depends on the interaction of wildcards, empty levels, shared prefixes and removal history.',
 [sl+'topics.rs'],[('trie of blocks with + and # slots','server-lib/src/topics.rs Block')],['TopicsTable::subscribe/unsubscribe/unsubscribe_all/get_all_subscribed'],'module visibility under --cfg apiformes_verif')
p('T02','Each matched client is reported once with the options of a current subscription',
 'A lookup reports every matching client exactly once, carrying the QoS and options of one of its currently held matching subscriptions, and the highest QoS among them. Subscribing again to the same filter replaces its previous options.',
 ['histories','inputs'],'all histories with overlapping filters and re-subscriptions with different options',
 'No test covers overlapping or repeated subscriptions; the outcome depends on trie traversal order and replacement.',
 [sl+'topics.rs'],[('collect_hash_wildcard / collect_subscribers merge','server-lib/src/topics.rs')],['TopicsTable::get_all_subscribed'],'module visibility under --cfg apiformes_verif')
p('T03','Removing subscriptions removes exactly those and nothing else',
 'Unsubscribing a client from one filter removes that one subscription and nothing else; removing all of a client\'s subscriptions leaves none of them behind and leaves every other client\'s subscriptions untouched. Both are idempotent, and removing something never held is a no-op, also for filters that differ only in wildcards, empty levels or by being a prefix of each other.',
 ['histories'],'all histories of subscriptions and removals, including removals of filters never held and repeated removals',
 'No test removes a subscription; removal goes through a second index whose agreement with the first is a history invariant.',
 [sl+'topics.rs'],[('reverse index','server-lib/src/topics.rs reverse_index')],['TopicsTable::unsubscribe','TopicsTable::unsubscribe_all'],'module visibility under --cfg apiformes_verif')
p('T04','Concurrent topic table operations never lose, leak or deadlock',
 'Under every interleaving of concurrent operations on the topic table, all operations finish, a lookup reports every client whose matching subscription was in place throughout the lookup and no client that could not have held one during it, and the final contents are those of some sequential order of the operations consistent with their real-time order. A later removal of all of a client\'s subscriptions leaves nothing behind.',
 ['schedules','histories'],'all interleavings of small sets of concurrent operations at lock-acquisition granularity',
 'The fine-grained locking only matters under interleavings; no test runs two operations concurrently.',
 [sl+'topics.rs'],[('lock ordering and node creation','server-lib/src/topics.rs create_if_not_existing, visit, collect_subs')],['results of concurrent TopicsTable calls'],'yield points at lock acquisition and module visibility under --cfg apiformes_verif')
p('T05','What the topic table takes grows in proportion to its contents and matches',
 'Filling the table with subscriptions, looking topics up and removing subscriptions one by one, in either order, or client by client takes processor time in proportion to the number of subscriptions, of levels and of matching entries, for any number of clients, filters and levels.',
 ['histories','inputs'],'all histories of subscribe, unsubscribe, unsubscribe_all and lookup of all sizes',
 'Tests use a handful of subscriptions, on which a cost that grows with the square cannot be seen.',
 [sl+'topics.rs'],[('tree of levels and reverse index','server-lib/src/topics.rs')],['processor time'])
p('B01','Messages reach exactly the matching subscribers, once, in order, intact',
 'Every QoS 0 message accepted from a connected client is delivered exactly once to every connected client holding a matching subscription at that point of the publisher\'s packet sequence, and to nobody else. Topic, payload, payload format indicator, content type, response topic, correlation data and user properties (in order) arrive unchanged, and messages of one publisher arrive at each subscriber in publishing order, whatever the burst length, queue size or number of clients.',
 ['histories','inputs','schedules','configurations'],'all interleaved histories of subscribe and publish by several clients over TCP and Noise, all burst lengths and queue sizes',
 'No test starts the broker; delivery is the product of codec, dispatcher queue, topic table and per-client writers.',
 [sl+'dispatcher.rs',sl+'topics.rs',sl+'clients/clientworker.rs',sl+'clients/mqttclient.rs',sl+'clients/noiseclient.rs'],[('process_publish fan-out','server-lib/src/dispatcher.rs'),('single dispatcher queue','server-lib/src/lib.rs')],['bytes received on client sockets'])
p('B02','Connecting is negotiated exactly as requested and advertised',
 'A supported CONNECT (clean start, no credentials, will or extended authentication) is answered by exactly one successful CONNACK that echoes the requested session expiry and receive maximum (or their defaults), advertises the server\'s keep-alive and limits, and carries an assigned client identifier, unique, if and only if the client sent none. Any CONNECT asking for an unsupported feature gets one CONNACK with the implementation-specific error and the connection is closed; any other first packet closes the connection without a CONNACK. (A CONNACK larger than the maximum packet size the client announced is not sent.)',
 ['inputs','configurations'],'all combinations of CONNECT flags, identifiers and properties, all server keep-alive settings',
 'No test connects to the server; the outcome depends on every combination of flags and properties.',
 [sl+'clients/clientworker.rs'],[('process_connect','server-lib/src/clients/clientworker.rs')],['CONNACK bytes, connection close'])
p('B03','SUBACK answers every filter in order and grants exactly what takes effect',
 'Every accepted SUBSCRIBE is answered by exactly one SUBACK with the same packet identifier and one code per requested filter in order: granted QoS 0 if QoS 0 with "do not send retained" was requested, the implementation-specific error otherwise. Exactly the granted filters are in force once the SUBACK is received, and refused ones have no effect.',
 ['inputs','histories'],'all SUBSCRIBE packets: any number of filters, duplicates, all option combinations, user properties',
 'No test subscribes to the broker; a code out of order or a refused filter taking effect shows only over multi-filter requests followed by publishes.',
 [sl+'dispatcher.rs'],[('process_subscribe','server-lib/src/dispatcher.rs')],['SUBACK bytes and subsequent deliveries'])
p('B04','No client input or abrupt disconnect harms the broker or other clients',
 'Whatever bytes any client sends, on either listener, at any stage, and however and whenever it disconnects or resets, the broker does not crash any of its tasks, keeps serving other clients, keeps accepting new connections and keeps delivering messages between well-behaved clients. A malformed or oversized packet costs only its sender its connection, which is closed.',
 ['inputs','histories','fault_sequences'],'all byte streams from hostile clients, all disconnect points, mixed with well-behaved traffic',
 'No test runs the broker with hostile input; one panic in the shared dispatcher stops every client.',
 [sl+'dispatcher.rs',sl+'clients/mod.rs',sl+'clients/mqttclient.rs',sl+'clients/noiseclient.rs',sl+'clients/clientworker.rs'],[('per-client worker isolation','server-lib/src/clients/mod.rs'),('dispatcher error handling','server-lib/src/dispatcher.rs')],['other clients\' traffic, panics, registry of clients'])
p('B05','Network segmentation and pipelining never change what the broker does',
 'For every client byte stream and every way the network splits or coalesces it, including a first packet pipelined with later ones and split points inside headers and length fields, the broker\'s responses and deliveries are the same as when every packet arrives in its own segment.',
 ['inputs','histories'],'all packet sequences x all segmentations of the byte stream',
 'Segment boundaries are chosen by the network; no test reads from a socket.',
 [sl+'clients/mqttclient.rs',sl+'clients/noiseclient.rs'],[('receive buffer and reparse loop','server-lib/src/clients/mqttclient.rs recv')],['responses and deliveries on sockets'])
p('B06','Strict permeability: encrypted messages never reach unencrypted clients',
 'When the server is configured strict, no byte of a message published over the encrypted listener is ever delivered to a client connected over plain TCP, whatever subscriptions, reconnects or client-identifier takeovers happen; encrypted subscribers and, in the other direction, all matching subscribers of plain publishers still get theirs. When it is configured permissive, all matching subscribers get every message.',
 ['histories','configurations','schedules'],'all histories of connects, takeovers, subscriptions and publishes over both listeners, both settings',
 'A security boundary that must hold on every path and race; no test uses two listeners.',
 [sl+'dispatcher.rs',sl+'packetinfo.rs',sl+'clients/client.rs'],[('strict_encryption test in process_publish','server-lib/src/dispatcher.rs')],['messages received on plain sockets'])
p('B07','No-local subscriptions hide exactly the client\'s own messages',
 'A client whose only matching subscriptions have the no-local option never receives messages it published itself, while it still receives every matching message from others, and clients without that option receive their own messages too. The option follows the latest SUBSCRIBE for the filter.',
 ['histories','inputs'],'all histories of subscriptions with and without no-local, re-subscriptions and publishes by several clients',
 'No test subscribes at all; the rule depends on who published, on overlap and on replacement history.',
 [sl+'dispatcher.rs',sl+'topics.rs'],[('NO_LOCAL flag','server-lib/src/dispatcher.rs process_publish')],['messages received by the publisher itself'])
p('B08','Packet size limits are enforced exactly, both directions and both transports',
 'A packet up to and including the configured maximum size is processed normally and any larger one disconnects its sender without effect on anyone else, over TCP and over Noise alike. The server never sends a client a packet larger than the maximum that client announced or larger than the transport can carry: such a message is dropped for that client only, whose connection and later messages are unaffected.',
 ['inputs','configurations','histories'],'all packet sizes around every limit, all server maxima and client-announced maxima, both transports',
 'Off-by-one limits and per-client limits are only visible at exact sizes over real connections; no test covers them.',
 [sl+'clients/mqttclient.rs',sl+'clients/noiseclient.rs',sl+'clients/clientworker.rs',sl+'config.rs'],[('max_packet_size checks','server-lib/src/clients/mqttclient.rs'),('Client.max_packet_size','server-lib/src/clients/client.rs')],['close or delivery at exact sizes'])
p('B09','The client registry and subscriptions follow the connections exactly',
 'At rest, the server lists exactly the identifiers of the currently connected clients. When a connection ends its subscriptions end with it, so a later clean-start connection under the same identifier receives nothing until it subscribes; when a second connection uses an identifier in use, the first connection is closed and only the new one is served and listed from then on.',
 ['histories','schedules'],'all histories of connects, subscriptions, clean and abrupt disconnects, reconnects and identifier takeovers',
 'No test connects twice; stale entries are history dependent and leak messages to the wrong party.',
 [sl+'clients/mod.rs',sl+'clients/client.rs',sl+'topics.rs'],[('process_new_worker / process_retiring_worker','server-lib/src/clients/mod.rs')],['MqttServer::clients','deliveries after reconnect','closed sockets'])
p('B10','Shutdown always completes and releases everything',
 'Whatever clients are connected, half connected, mid handshake, publishing or not reading, on either listener, calling shutdown returns in bounded time, closes every client connection and frees the listening addresses so that a new server can be started on them at once.',
 ['histories','schedules','configurations'],'all server states at the moment of shutdown, all listener combinations',
 'Shutdown signalling must reach every task in every state; no test shuts a server down.',
 [sl+'lib.rs',sl+'clients/mod.rs',sl+'clients/mqttclient.rs',sl+'clients/noiseclient.rs',sl+'dispatcher.rs'],[('shutdown Notify','server-lib/src/lib.rs')],['completion of MqttServer::shutdown, EOF on client sockets, re-bind'])
p('B11','Unsupported requests are refused with a DISCONNECT and have no side effect',
 'A connected client that sends a packet the server does not implement (QoS 1/2, retained, duplicate, expiring, aliased or identified PUBLISH, SUBSCRIBE with a subscription identifier, any other packet type) gets exactly one DISCONNECT with the implementation-specific error for each such packet. Nothing of it takes effect: no message is delivered, no subscription appears or disappears, and supported packets before and after it in the same stream are processed normally.',
 ['inputs','histories'],'all unsupported packets at every position of a packet stream',
 'No test sends an unsupported packet to the broker; partial effects show only in combination with other clients and later packets.',
 [sl+'dispatcher.rs'],[('Dispatcher::unimplemented','server-lib/src/dispatcher.rs')],['DISCONNECT packets and absence of effects'])
p('B12','Every documented configuration yields a working server',
 'For every configuration (any dispatcher queue size including ones smaller than one element, any packet size limit that admits the traffic, any keep-alive, either or both listeners, either permeability) the server starts, and the same client history has the same outcome. A listen address that cannot be used is reported as an error from the constructor rather than by a crash, and a failed start leaves nothing running or listening. A configuration that is written out and read back in its serialized form, or written by hand by its field names in any order with the optional listen addresses left out, is the same configuration.',
 ['configurations','histories'],'all configurations in their documented ranges x small client histories',
 'Tests never construct a server; queue size arithmetic and optional listeners fail only at particular values.',
 [sl+'lib.rs',sl+'config.rs',sl+'clients/mod.rs'],[('queue length computation','server-lib/src/lib.rs'),('optional listeners','server-lib/src/clients/mod.rs')],['MqttServer::new result and client histories'])
p('B13','The Noise listener is equivalent to TCP and rejects everything unauthentic',
 'A client that completes the documented Noise handshake with the server\'s key is served exactly like a TCP client. A wrong key, a garbled, replayed, reordered, truncated, extended or bit-flipped handshake or transport message, or an authentic message that does not hold exactly one complete packet, never has any effect except that this connection is closed.',
 ['inputs','fault_sequences','histories'],'all tamperings of handshake and transport messages, all packet histories over Noise',
 'There is no test of the encrypted listener; tampering and truncation only show with an active peer.',
 [sl+'clients/noiseclient.rs'],[('handshake','server-lib/src/clients/noiseclient.rs'),('NoiseClient::recv/send','server-lib/src/clients/noiseclient.rs')],['effects seen by other clients, connection close'])
p('B14','A client that does not read never delays or starves the others',
 'While any subset of connected clients stop reading from their sockets, however much is published to them, all other clients keep getting their acknowledgements and their messages, complete and in order. A stalled client that resumes reading receives every message that was sent to it, in order.',
 ['histories','schedules'],'all traffic histories with stalled and resumed readers, volumes beyond socket buffers',
 'Needs several clients and filled socket buffers; no test opens a socket.',
 [sl+'dispatcher.rs',sl+'clients/clientworker.rs'],[('unbounded per-client outgoing queue','server-lib/src/clients/client.rs'),('separate worker task per client','server-lib/src/clients/mod.rs')],['progress of other clients'])
p('B15','A connection that never gets to CONNECT is closed in time, a connected one stays',
 'A connection on either listener that has not completed its handshake and its CONNECT when the keep-alive time is over (three times that long for the Noise handshake, once more for the CONNECT) is closed by the server, whatever part of the handshake or packet it sent. It is not closed before, a keep-alive of 0 means no limit, and a client that has connected is not disconnected by it.',
 ['schedules','configurations','inputs'],'all points of the handshake and of the CONNECT at which a connection can stop x keep-alive settings x listeners',
 'Needs a peer that stops at a chosen point and real time; no test opens a connection.',
 [sl+'clients/mqttclient.rs',sl+'clients/noiseclient.rs'],[('keep-alive timers around connect','server-lib/src/clients/mqttclient.rs, noiseclient.rs')],['closed and open sockets over time'])
p('B16','A broker built without its noise feature serves plain clients just the same',
 'The broker library builds with its default features, which leave the Noise listener out, and then serves its plain listener exactly as the full build does: the same answers, deliveries, limits, refusals, takeovers, time limits and shutdown for every client history and configuration, including strict permeability. It listens on nothing else.',
 ['configurations','histories','inputs'],'all histories, streams and configurations with plain clients, against the library built with its default features',
 'The two builds differ by conditional code in the dispatcher, client manager, configuration and constructor; the tests run no server in either of them.',
 [sl+'lib.rs',sl+'config.rs',sl+'dispatcher.rs',sl+'packetinfo.rs',sl+'clients/mod.rs',sl+'clients/clientworker.rs'],[('cfg(feature = "noise") branches','server-lib/src/*.rs')],['the sockets of a server built without the feature'])
p('B17','Logging at any level never changes what the broker does, nor writes its key',
 'Whatever log level the program that embeds the broker has enabled, from nothing to the finest, every history has the same outcome: no log statement or traced function argument panics, blocks, or changes an answer or delivery, whatever the clients send. Nothing that is logged contains the server\'s private key.',
 ['configurations','histories','inputs'],'all client histories and hostile streams x all log levels x both listeners',
 'Log arguments are only evaluated when a subscriber enables their level; the tests install none, so none of that code ever runs.',
 [sl+'lib.rs',sl+'dispatcher.rs',sl+'clients/mod.rs',sl+'clients/client.rs',sl+'clients/mqttclient.rs',sl+'clients/noiseclient.rs',sl+'clients/clientworker.rs',sl+'config.rs'],[('tracing instrumentation and events','server-lib/src/**/*.rs')],['responses and deliveries with a tracing subscriber installed, the text it is given'])
p('B18','A connection that its client ends is released, whatever point it had reached',
 'When a client ends its connection, by closing, resetting, half-closing or vanishing, the server closes its side, drops the client from its list and its subscriptions from its table, at whatever point the connection was: nothing sent yet, within the handshake, within CONNECT, refused, unanswered because of its own limit, connected, within a packet, taken over, or not reading while messages pile up for it. No keep-alive is needed for that, and nothing happens to the other connections.',
 ['histories','fault_sequences','schedules'],'all points a connection can have reached x all ways of ending it x any number of such connections',
 'Whether a socket is released shows only in the table of connections of a server under way; no test opens one.',
 [sl+'clients/mod.rs',sl+'clients/clientworker.rs',sl+'clients/mqttclient.rs',sl+'clients/noiseclient.rs'],[('connect tasks and client workers end on errors','server-lib/src/clients/*.rs'),('process_retiring_worker','server-lib/src/clients/mod.rs')],['descriptors of the server, its client list and subscription table'])
p('B19','Serving the same traffic for ever takes no more memory',
 'A broker that serves any traffic whose clients have all ended afterwards, again and again, reaches a level of memory in use that it does not exceed any more: no connection, refused or failed handshake, takeover, subscription, message or packet leaves anything behind for good once its client has gone.',
 ['histories'],'all client histories after which every client has ended, repeated',
 'A leak shows only over many rounds of realistic traffic, and is invisible to tests of single functions.',
 [sl+'clients/mod.rs',sl+'topics.rs',sl+'dispatcher.rs',sl+'clients/client.rs'],[('removal of workers, clients, subscriptions and reverse index','server-lib/src/clients/mod.rs, topics.rs')],['allocations of the threads that run the broker'])
p('B20','A broker with nothing to do uses no processor time',
 'Whenever nothing is to be received, processed or sent - before the first client, after the last one, with idle, unfinished, half-closed or stalled connections - the broker waits without using the processor.',
 ['histories','configurations'],'all histories that end in a state of rest x runtimes of one or several threads',
 'A loop that does not wait behaves correctly in every other respect; it shows only in the processor time of a running server.',
 [sl+'clients/mod.rs',sl+'clients/mqttclient.rs',sl+'clients/noiseclient.rs',sl+'dispatcher.rs'],[('waiting loops','server-lib/src/clients/mod.rs')],['processor time of the threads that run the broker'])
p('B21','Several brokers in one program are independent of each other',
 'Any number of servers can run at the same time in one program and runtime, each with its own addresses, key, limits and permeability. Clients, identifiers, subscriptions and messages of one are never seen by another, an identifier in use at one is free at every other, a client that knows the key of one is not served by another, and starting or shutting down one does not disturb those that run.',
 ['histories','configurations','schedules'],'all interleavings of the histories of several servers, with servers ending and starting in between',
 'State shared by accident (statics, addresses, notifications) shows only when several servers are alive at once; no test starts two.',
 [sl+'lib.rs',sl+'clients/mod.rs',sl+'topics.rs'],[('state per server','server-lib/src/lib.rs')],['packets received by clients of every server'])
p('B22','What serving takes grows in proportion to what is served',
 'The processor time the broker needs grows in proportion to the messages, bytes, pieces, filters, packets, connections, takeovers, subscribers and properties it serves; a history sixteen times as long takes about sixteen times as long, whatever the transport and configuration.',
 ['histories','configurations'],'all histories of a kind of traffic x their length',
 'Tests exchange a few packets with one client, on which a cost that grows with the square cannot be seen.',
 [sl+'clients/mod.rs',sl+'clients/mqttclient.rs',sl+'clients/noiseclient.rs',sl+'dispatcher.rs',sl+'topics.rs'],[('loops of workers, dispatcher and manager','server-lib/src/clients/, dispatcher.rs')],['processor time of the thread that runs broker and clients'])
p('M01','The benchmark tool publishes exactly the requested load and terminates',
 'For every combination of subscribers, publishers, message count and delay setting, the tool connects that many clients with supported CONNECTs, subscribes each subscriber to the given topic before any message is published, publishes exactly publishers x messages messages on that topic no faster than the delay allows, keeps its publishers connected until every subscriber has received everything, then exits successfully. What it reports is consistent with the run: the configuration, the order and bounds of the trip times, and packet rates no lower than the run allows. When the broker closes its connections it ends instead of hanging.',
 ['configurations','schedules','inputs'],'all small combinations of subscribers, publishers, messages, delays and topics, against brokers with different segmentation and timing',
 'The tool has no tests; counts and termination depend on the interplay of tasks and on how the broker\'s bytes arrive.',
 ['bm/src/main.rs','bm/src/client.rs','bm/src/publisher.rs','bm/src/subscriber.rs','bm/src/config.rs'],[('publisher and subscriber tasks','bm/src/publisher.rs, subscriber.rs')],['packets received by a broker, exit status'])
p('S01','The shipped server binary serves both listeners with its documented settings',
 'The server program listens for plain MQTT on port 1883 and for Noise on port 8883 with the documented key, is strict about permeability, advertises its configured keep-alive, enforces its packet size limit, and serves client histories exactly as the library does.',
 ['histories','inputs'],'all client histories over both default listeners of the running program',
 'No test starts the binary; its constants and wiring are exercised by nothing.',
 ['server/src/main.rs'],[('configuration literal and startup','server/src/main.rs')],['sockets of the running process'])
p('S02','The server program outlives running out of descriptors',
 'While more connections are offered to the server program than it can have descriptors, the clients it has are served as before, and as soon as descriptors are available again the connections that were waiting and new ones on both listeners are served. It never ends because of that.',
 ['fault_sequences','histories'],'all histories with more connections than descriptors, all limits, connections of both listeners',
 'Needs a process with a limit and more clients than that; accept never fails in a test.',
 [sl+'clients/mqttclient.rs',sl+'clients/noiseclient.rs','server/src/main.rs'],[('accept loops that survive errors','server-lib/src/clients/mqttclient.rs, noiseclient.rs')],['sockets and life of the running process'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
