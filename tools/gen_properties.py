#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the list is reviewable)."""
import json, os
L='lib/src/'; I='lib/include/dots/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   observe_at=list(obs),hook_needed=None)))

p('C01','No peer data is acted on before the handshake permits it',
 "Neither side of a connection hands application data received from its peer to subscribers, stores it or forwards it before that connection has reached the handshake stage that permits it (preload or connected). While a handshake stage is pending only the one message that stage expects advances it, and any other message is treated as a protocol error that ends the connection. System messages of the handshake are consumed by the connection itself and are never treated as application data.",
 ['inputs','histories'],"every sequence of messages a peer may send, in every connection state, for host- and guest-side connections",
 "Tests script a handful of message sequences (mostly the good handshake); the guarantee quantifies over every message in every state, including hostile ones.",
 [L+'Connection.cpp',I+'Connection.h'],
 [('per-state dispatch of received messages; exceptional exit closes the connection','Connection::handleReceive, Connection::expectSystemType')],
 [('m_connectionState','stage of the handshake','Connection.h')],['owner receive callback'])
p('C02','Authentication is fail-closed',
 "A host with an auth manager admits a peer, and tells it that it is accepted, only after that manager positively verified this very peer's connect message against the challenge of this very connection; a negative or failing verification ends the connection and grants nothing. An access rule that carries a secret can admit a peer only if the peer's response equals the digest over that challenge, the peer's nonce, its client name and the secret, and denies a peer that omits its response. The hello tells the peer the challenge whenever one was issued.",
 ['inputs','histories','configurations'],"every policy decision, peer address, and every handshake message content and order",
 "Tests cover a correct and one wrong digest; the guarantee is about every path by which the connection could be admitted.",
 [L+'Connection.cpp',L+'io/auth/LegacyAuthManager.cpp',L+'io/auth/Digest.cpp',L+'io/auth/Nonce.cpp'],
 [('requirement computed when the peer says hello, challenge nonce, digest verification before acceptance','Connection::handleHello, Connection::handleAuthorizationRequest'),('policy','LegacyAuthManager')],
 [('m_authRequired/m_nonce','challenge state of the connection','Connection.h')],['DotsMsgConnectResponse sent by host'])
p('C03','Access rules decide who may connect, in priority order',
 "A host's access decision for a network peer is taken by the first rule, in ascending priority number, that matches the peer's address and client name and yields a decision (a rule whose secret the peer does not prove is passed over); it may deny the peer, admit it, or admit it only with a secret. Only when no rule decides does the default policy apply. Creating, changing or removing a rule or the default policy at run time takes effect for the next decision, leaving no trace of the replaced rule. Only local socket transports bypass the rules.",
 ['inputs','configurations','histories'],"every set and history of rule/policy updates and removals, every peer address and transport",
 "Tests use a few static rule sets; no test reorders, re-prioritises or removes rules across all matches.",
 [L+'io/auth/LegacyAuthManager.cpp',I+'io/auth/LegacyAuthManager.h',L+'tools/IpNetwork.cpp'],
 [('rule cache maintained from subscription events and searched in priority order','LegacyAuthManager'),('prefix match','IpNetwork')],
 [],['AuthManager interface'])
p('C04','Connection states are one-way and each is reported exactly once',
 "A connection's state only moves forward through connecting, early subscription and connected to closed, every change is reported to its owner exactly when it happens, and closed is final. Once a connection is closed it accepts no further message from its peer. An error that ends a connection is reported to the owner together with its cause and, where the channel still works, announced to the peer.",
 ['histories','fault_sequences'],"every order of received messages, owner calls and channel failures",
 "Tests walk the good path and a few failures; the guarantee is over all call orders.",
 [L+'Connection.cpp',I+'Connection.h'],
 [('single state setter notifying the owner; error path that closes','Connection::setConnectionState, handleError, handleClose, transmit')],
 [('m_connectionState','current state','Connection.h')],['transition handler of the owner'])
p('C05','A refusal or error from the peer ends the connection',
 "When the peer refuses the connection or sends an error message, in whatever stage the connection is, the connection ends and the peer's reason reaches the owner as the cause; the refused side never proceeds as if it had been accepted. Handshake messages that lack the fields their handling needs are handled as protocol errors rather than by crashing.",
 ['inputs','histories'],"every handshake message content, in each state",
 "Tests contain one error message case; no test sends a negative response to each request.",
 [L+'Connection.cpp'],
 [('error and refusal handling','Connection::handlePeerError, handleAuthorizationRequest, handleHello')],[],['transition handler exception argument'])
p('C06','Forwarded events carry the true publisher and host send time',
 "Every event a host forwards or dispatches for a guest carries the identity of the connection it really came from, whatever the guest wrote into it, and the host's own events carry the host's identity. Every event leaving the host carries the host's current send time. Receivers therefore can tell own events from foreign ones correctly.",
 ['inputs','histories'],"every header content a guest may send and every route through the host",
 "Tests check specific routes with well-formed headers.",
 [L+'HostTransceiver.cpp',L+'GuestTransceiver.cpp',L+'Connection.cpp',L+'Dispatcher.cpp'],
 [('sender and time stamping on reception','HostTransceiver::handleTransmission, HostTransceiver::publish'),('own-event determination','Dispatcher, Event')],[],['DotsHeader of forwarded transmissions'])
p('C07','The host delivers each event to itself and all group members',
 "An event that a host accepts from a guest, publishes itself or derives is dispatched to the host's own subscribers and sent to every guest that is currently a member of the type's group, and to no one else. A guest whose connection fails while being sent to is dropped without preventing delivery to the remaining members.",
 ['histories','fault_sequences','configurations'],"every group membership, publication route and send failure",
 "Tests use one or two guests without failures.",
 [L+'HostTransceiver.cpp',I+'HostTransceiver.h'],
 [('group table and fan-out loop','HostTransceiver::transmit')],[('m_groups','members per type','HostTransceiver.h')],['per-guest transmissions'])
p('C08','Joining a type delivers its current cache followed by an end marker',
 "A guest that joins a type's group becomes a member and is sent every instance currently cached for that type with the instance's original metadata, followed by an end-of-cache marker, and leaving the group ends its membership. Repeated joins, unknown types and uncached types are handled without disturbing other members.",
 ['histories','inputs'],"every cache content and join/leave history",
 "Tests preload a small number of instances.",
 [L+'HostTransceiver.cpp',L+'Connection.cpp'],
 [('join and container transmission','HostTransceiver::handleMemberMessage, transmitContainer')],[],['DotsCacheInfo, DotsHeader.isFromCache'])
p('C09','A disconnecting guest is forgotten and its cleanup data is removed',
 "When a guest's connection closes for any reason the host removes it from every group and from its set of connections, and for every cached type marked for cleanup removes each instance whose last writer was that guest, publishing the removals to subscribers and remaining members. Other guests' instances and memberships are untouched.",
 ['histories','fault_sequences'],"every membership/caching history at the time of disconnect and every cause of disconnect",
 "Tests cover a guest that disconnects regularly with one instance.",
 [L+'HostTransceiver.cpp'],
 [('transition handling','HostTransceiver::handleTransitionImpl')],[],['remove events after disconnect'])
p('C10','Guests join groups exactly for what they subscribe to',
 "A guest transceiver asks its host to join a type's group when the first interest in that type arises on a connection (by subscribing, or by preloading as soon as the host permits it), on every connection it opens; it never delivers events to subscribers of other types and never treats a closed host connection as usable. Publishing or joining without a usable connection fails visibly instead of being lost.",
 ['histories','fault_sequences'],"every order of subscribe, open, close, re-open, preload and publish",
 "Tests open a single connection per transceiver.",
 [L+'GuestTransceiver.cpp',I+'GuestTransceiver.h'],
 [('join bookkeeping and connection ownership','GuestTransceiver::joinGroup, leaveGroup, open, handleTransition')],
 [('m_joinedGroups','groups joined on the current connection','GuestTransceiver.h')],['DotsMember transmissions'])
p('C11','Only publishable instances are published, on every publish route',
 "Publishing, updating or removing an instance is refused with an error if its type is only usable as a sub-structure or if any key property is missing, on every publish route of every kind of transceiver. A removal transmits only key properties and is marked as removal; a publication announces exactly the selected properties the type has (by default all that are set; a selected property that is not set is cleared at the receivers), always including the key.",
 ['inputs','programs'],"every type and every subset of set properties, through each publish overload",
 "Tests publish only a few types through one or two overloads.",
 [L+'HostTransceiver.cpp',L+'GuestTransceiver.cpp',L+'Transceiver.cpp',I+'Transceiver.h'],
 [('argument validation in publish','HostTransceiver::publish, GuestTransceiver::publish')],[],['DotsHeader.attributes, removeObj'])
p('C12','A container merges events into instances by key, losing nothing',
 "Applying an event to a container creates the instance when its key is new, otherwise changes exactly the properties the event names (setting present ones, clearing absent ones) and never its key; a removal removes exactly the instance with that key. The instance's stored metadata always reflects the creating event and the latest update (who, when, which operation). A failed update leaves the container's instances intact.",
 ['inputs','histories'],"every instance, attribute set and event history",
 "Tests run short event sequences on a single type.",
 [L+'Container.cpp',I+'Container.h',I+'type/Struct.h'],
 [('insert/remove on the keyed instance map','Container::insert, Container::remove'),('property merge','Struct::_merge and descendants')],
 [('m_instances','instances by key with clone information','Container.h')],['Container API, event data'])
p('C13','Caches are updated before subscribers are told, and late subscribers catch up',
 "For every received or published event of a cached type the local container already reflects the event when subscribers are called, and each subscriber of the type is called exactly once with the right operation (create, update or remove), the updated-property set and metadata. A handler subscribed later first receives all instances cached at that time as create events. Uncached types are delivered without being stored.",
 ['histories','programs'],"every type, event sequence and subscription time",
 "Tests look at small histories on single handlers.",
 [L+'Dispatcher.cpp',L+'ContainerPool.cpp',L+'Transceiver.cpp'],
 [('dispatch order','Dispatcher::dispatchEvent, Dispatcher::addEventHandler')],[],['Event objects given to handlers'])
p('C14','Handlers may subscribe, unsubscribe, publish or fail inside callbacks',
 "From inside any callback a program may add or remove any subscription, including its own, and publish further events, to any depth, without memory errors: a removed handler is never called again and other handlers are still called. An exception thrown by one handler is reported and neither prevents other handlers from being called nor leaves the dispatcher in a state in which later removals are lost.",
 ['histories','programs'],"every nesting of subscribe/unsubscribe/publish/throw inside callbacks",
 "Tests exercise one level of self-removal.",
 [L+'Dispatcher.cpp',L+'Transceiver.cpp',I+'Dispatcher.h'],
 [('deferred removal while dispatching','Dispatcher::dispatchToHandlers, removeReceiveHandler, Transceiver::handleNewType')],
 [('m_currentlyDispatchingId, m_removeIds','dispatch in progress and postponed removals','Dispatcher.h')],['handler invocations'])
p('C15','A subscription object controls exactly its own handler',
 "While a subscription object is alive and not discarded its handler stays registered; destroying, unsubscribing or overwriting it removes exactly that handler exactly once, moving transfers that responsibility, and discarding gives it up. All of this is harmless when the transceiver it came from has already been destroyed.",
 ['histories','programs'],"every sequence of moves, assignments, discards, unsubscriptions and destruction orders",
 "Tests exercise single steps.",
 [L+'Subscription.cpp',I+'Subscription.h',L+'Transceiver.cpp',I+'Transceiver.h'],
 [('RAII wrapper with weak reference to its transceiver','Subscription, Transceiver::makeSubscription')],[],['handler invocations'])
p('C16','A property is readable exactly when it was set',
 "A property's value object exists exactly while the property is reported as valid: setting constructs it and marks it, clearing destroys it and unmarks it, reading or using an invalid one is an error instead of undefined behaviour, and copy, move, swap and assignment of structures keep this pairing for every property of every static or dynamic type. A failure while constructing a value leaves the property reported as unset.",
 ['programs','inputs','fault_sequences'],"every type, property and sequence of property operations",
 "Tests cover selected types and operations; pairing must hold for all.",
 [I+'type/Property.h',I+'type/ProxyProperty.h',I+'type/StaticProperty.h',I+'type/PropertyContainer.h',I+'type/DynamicStruct.h',I+'type/StaticStruct.h'],
 [('property life cycle operations','Property')],[('PropertyArea valid set','which properties exist','PropertyArea.h')],['isValid, value'])
p('C17','Static and dynamic structures have the same semantics',
 "Comparison, copying, merging, clearing, key and property-set queries of a structure mean the same whether the structure is compile-time or run-time typed and through whichever of the common interfaces it is accessed; derived comparisons are consistent with the basic ones, and a structure compares equal exactly if the same properties are valid with equal values.",
 ['programs','inputs'],"every structure type and pair of instances",
 "Tests compare some instances of some types.",
 [I+'type/StaticStruct.h',I+'type/DynamicStruct.h',L+'type/DynamicStruct.cpp',I+'type/Struct.h',I+'type/AnyStruct.h',I+'type/PropertyContainer.h'],
 [('common container implementation with forwarding interfaces','PropertyContainer, Struct')],[],['Struct interface'])
p('C18','Property sets obey set algebra over exactly 32 tags',
 "Union, intersection, difference, complement, inclusion, count and iteration over property sets behave as the mathematical set operations over the supported tag range. No tag, including one named by a remote type description, leads to an out-of-range shift or index; unsupported tags are refused.",
 ['inputs'],"every pair of sets and every tag value",
 "Tests use few sets; out-of-range tags are never tried.",
 [I+'type/PropertySet.h',L+'io/DescriptorConverter.cpp',L+'type/StructDescriptor.cpp'],
 [('bit set operations','PropertySet')],[],['PropertySet operators'])
p('C19','Type descriptions precede use and survive the wire unchanged',
 "Before an instance is sent on a connection its complete type description, including every enum and structure it refers to, has been sent on that connection, once. A received description produces the same type the sender described: name, properties, tags, key markers, type modes and enumerators. An inconsistent description is refused with an error and never crashes the receiver or replaces an existing type.",
 ['inputs','histories','configurations'],"every type graph, send order and (hostile) description",
 "Tests send a few descriptors; hostile ones are never tried.",
 [L+'io/DescriptorConverter.cpp',L+'io/Channel.cpp',I+'io/Channel.h'],
 [('recursive export before transmit','Channel::exportType, Channel::transmit'),('two-way conversion','DescriptorConverter')],[('m_sharedTypes','types already sent','Channel.h')],['EnumDescriptorData, StructDescriptorData'])
p('C20','A registry maps each name to one type and answers consistently',
 "Within one registry a type name denotes at most one type: registering a second, different type under a taken name is refused, lookups by name and by descriptor agree with what was registered, and every lookup that fails reports an error or null as requested. Containers, groups and descriptor maps keyed by type keep all of their indexes consistent when entries are added and removed.",
 ['histories','inputs'],"every sequence of register/find/remove operations",
 "Tests register few types and never remove and look up again.",
 [L+'type/Registry.cpp',I+'type/Registry.h',L+'type/DescriptorMap.cpp',I+'type/DescriptorMap.h',L+'ContainerPool.cpp',I+'ContainerPool.h'],
 [('name map and index maintenance','Registry, DescriptorMap, ContainerPool')],[],['find/get/contains'])
p('C21','Decoding never reads outside the input',
 "No decoder (CBOR, JSON, text, framing headers, digests, nonces, URIs, addresses and time strings) reads or writes memory outside the buffer it was given, whatever bytes it contains and wherever it ends; truncated or malformed input is reported as an error.",
 ['inputs'],"every byte sequence",
 "Tests feed well-formed data and few malformed samples.",
 [I+'serialization/formats/CborReader.h',L+'serialization/formats/CborReader.cpp',I+'serialization/formats/TextReader.h',L+'io/auth/Digest.cpp',L+'io/auth/Nonce.cpp',L+'type/Chrono.cpp',I+'io/channels/AsyncStreamChannel.h'],
 [('availability assertions before raw reads','CborReader::assertInputAvailable, TextReader')],[],['exceptions from deserialize'])
p('C22','Decoding terminates with bounded resources and range-checked values',
 "Decoding any input terminates, never allocates more than is proportional to the input because of a length the input merely claims, and never yields a value that differs from the encoded one because it did not fit its target: numbers out of range for the property are errors, not truncations.",
 ['inputs'],"every byte sequence and every target type",
 "Tests use in-range values and truthful lengths.",
 [I+'serialization/formats/CborReader.h',I+'serialization/formats/RapidJsonReader.h',I+'serialization/formats/TextReader.h',I+'serialization/CborSerializer.h'],
 [('length and range checks','CborReader, TextReader, RapidJsonReader')],[],['exceptions from deserialize'])
p('C23','Every serializer covers all types and mirrors its deserializer',
 "For each format, each property type that can be written can be read back by the same format's reader with the same representation choices, unknown properties are skipped completely, only the selected properties are written, and deserializing into an instance replaces exactly the properties present in the input (vectors included, nulls clearing).",
 ['inputs','programs'],"every type, instance, property selection and format",
 "Tests sample types; symmetry must hold per type and option.",
 [I+'serialization/CborSerializer.h',I+'serialization/RapidJsonSerializer.h',I+'serialization/TextSerializer.h',I+'serialization/ExperimentalCborSerializer.h',I+'type/TypeVisitor.h',I+'type/VectorDescriptor.h'],
 [('paired visitors','*Serializer::visit*')],[],['serialize/deserialize'])
p('C24','A serializer is reusable after a failed operation',
 "A serializer or deserializer object that failed on one input behaves for the next input exactly like a fresh one; no nesting state, cursor or partial output of the failed operation leaks into later results.",
 ['histories','fault_sequences'],"every failing input followed by any input",
 "Tests use a fresh object per case.",
 [I+'serialization/Serializer.h',I+'type/TypeVisitor.h',I+'serialization/formats/TextReader.h',I+'serialization/formats/TextWriter.h',I+'serialization/formats/RapidJsonReader.h',I+'io/channels/WebSocketChannel.h'],
 [('state reset','Serializer::setInput/setOutput, TypeVisitor')],[],['serialize/deserialize'])
p('C25','Framing on the wire is what the receiving end expects',
 "Every message written to a stream channel is framed so that the receiving end decodes exactly that message: sizes announced equal sizes written, header and payload correspond, and the payload contains exactly the properties the header announces, on every channel kind. Data that would exceed the write limit is refused with an error on every write path, never truncated or queued unboundedly.",
 ['inputs','histories'],"every transmission content, channel kind, protocol version and batching order",
 "Tests compare few frames of one channel version.",
 [I+'io/channels/AsyncStreamChannel.h',L+'io/channels/WebSocketChannel.cpp',L+'io/channels/LocalChannel.cpp'],
 [('serializeTransmission and read state machine','AsyncStreamChannel')],[],['bytes on the socket'])
p('C26','Pending asynchronous callbacks never touch a destroyed object',
 "Whenever an I/O completion, posted task or timer fires after the channel, connection, listener, observer or transceiver it was meant for has been closed or destroyed, even by the very message being processed, nothing of that object is accessed. After a receive callback tells a channel to stop, it delivers nothing more.",
 ['schedules','histories','fault_sequences'],"every interleaving of completion, close and destruction, including destruction from inside callbacks",
 "Tests destroy objects only at quiescent points.",
 [I+'io/channels/AsyncStreamChannel.h',L+'io/Channel.cpp',L+'io/channels/WebSocketChannel.cpp',L+'io/channels/LocalChannel.cpp',L+'io/Listener.cpp',L+'Connection.cpp',L+'GuestTransceiver.cpp',L+'HostTransceiver.cpp',L+'Timer.cpp',L+'io/FdObserver.cpp'],
 [('weak references checked in callbacks; return value telling the channel to stop','Channel, Connection, GuestTransceiver, HostTransceiver')],[],['memory safety'])
p('C27','A listener survives bad clients',
 "A client that fails while connecting (bad or incomplete handshake, immediate disconnect, socket option failure) only loses its own connection: the listener neither blocks nor stops, keeps accepting other clients and remains usable. Failures of the listener itself are reported to its owner once.",
 ['fault_sequences','schedules'],"every failure a client can cause at accept time",
 "Tests connect well-behaved clients only.",
 [L+'io/channels/TcpListener.cpp',L+'io/channels/UdsListener.cpp',L+'io/channels/WebSocketListener.cpp',L+'io/Listener.cpp',L+'HostTransceiver.cpp'],
 [('accept loop','*Listener::asyncAcceptImpl, HostTransceiver::handleListenError')],[],['further accepts'])
p('C28','A channel reports failures once and then stays silent',
 "A channel or listener has at most one active receive or accept operation at a time and reports a failure of it to its owner at most once; after a failure, or after it was stopped by its owner, it delivers nothing and starts no further reads until it is started again. Failures don't escape into the event loop, except for exceptions of the owner's own error and connect handlers.",
 ['fault_sequences','schedules'],"every failure point in read, decode, dispatch and write",
 "Tests inject few failures.",
 [L+'io/Channel.cpp',L+'io/Listener.cpp',I+'io/channels/AsyncStreamChannel.h',L+'io/channels/WebSocketChannel.cpp',L+'io/channels/LocalChannel.cpp'],
 [('start-once guards and error processing','Channel::processError, Listener::processError, asyncReceive')],[],['error handler'])
p('C29','Timers and descriptor observers fire only while registered',
 "A one-shot timer fires once, a periodic timer keeps firing at its interval (without drifting) until removed, a removed timer or observer never fires again (a detached one continues on its own), an observer reports a failure once, and adding or removing timers and observers from inside their own callbacks is safe. Removing something unknown is harmless.",
 ['schedules','histories'],"every order of add, remove and expiry, including from callbacks",
 "Tests use single timers.",
 [L+'Timer.cpp',I+'Timer.h',L+'io/FdObserver.cpp',I+'io/FdObserver.h',L+'Application.cpp',I+'Application.h'],
 [('timer registry with shared state','TimerService, Timer, FdObserver')],[],['callbacks'])
p('C30','Applications start after their connection and shut down cleanly',
 "An application object gives the program a usable transceiver: a guest application returns from construction only when connected to its host or reports why not, losing that connection ends the application, and stopping is idempotent. Destruction touches only objects that still exist, and errors raised during asynchronous work reach the caller that waits for the result. The endpoint and the secret are taken from the command line, else from the environment, else a default is used. There is at most one global transceiver, which is never replaced silently.",
 ['histories','configurations','fault_sequences'],"every command line/environment, start failure and stop order",
 "Tests never construct complete applications with failures.",
 [L+'Application.cpp',I+'Application.h',L+'dots.cpp',I+'io/Io.h'],
 [('life cycle','Application'),('post helper','io::post_and_promise_result')],[],['exit code, exceptions'])
p('C31','Strings are never assumed to be NUL-terminated',
 "Every interface that accepts text as pointer-plus-length works for text that is not followed by a terminating NUL and for empty text: results depend on exactly the given characters, and nothing beyond them is read.",
 ['inputs','programs'],"every text argument, including substrings and empty views",
 "Tests pass string literals, which are always terminated.",
 [L+'type/Registry.cpp',L+'type/DescriptorMap.cpp',L+'type/EnumDescriptor.cpp',L+'type/Chrono.cpp',L+'io/auth/Nonce.cpp',L+'io/channels/WebSocketChannel.cpp',L+'tools/IpNetwork.cpp'],
 [('use of the view length','string conversions throughout lib')],[],['returned values, messages'])
p('C32','Endpoint URIs and their schemes mean the same everywhere',
 "Each supported endpoint scheme is accepted consistently for listening and for connecting and selects matching channel kinds on both sides; unknown or malformed endpoints are refused with an error. Every transport that crosses a network is subject to the access rules.",
 ['inputs','configurations'],"every endpoint string, for host and guest roles",
 "Tests open one or two schemes.",
 [L+'HostTransceiver.cpp',L+'GuestTransceiver.cpp',L+'dots.cpp',L+'Application.cpp',L+'tools/Uri.cpp',L+'io/auth/LegacyAuthManager.cpp',I+'io/channels/TcpChannel.h'],
 [('scheme tables','HostTransceiver::listen, GuestTransceiver::open, io::TransportType tables')],[],['errors for endpoints'])
# --- properties stated but declined (see DESIGN.md) ---
p('N01','Serialized values round-trip exactly',
 "Deserializing what a serializer wrote yields an equal instance for every value of every property type in every format.",
 ['inputs'],"every value","Tests sample values.",[I+'serialization/'],[('serializers','serialization')])
p('N02','All caches converge to the host state',
 "After all messages are delivered, every guest that joined a type holds the same instances as the host, for every interleaving of publishers.",
 ['schedules','histories'],"every interleaving","Tests run sequentially.",[L+'HostTransceiver.cpp',L+'GuestTransceiver.cpp'],[('host ordering','HostTransceiver')])
p('N03','Timers fire on time',
 "A timer fires no earlier than requested and a periodic timer does not drift.",
 ['schedules'],"every load and clock behaviour","Tests cannot control the clock.",[L+'Timer.cpp'],[('deadline arithmetic','Timer')])
p('N04','Date and duration texts denote the exact instant',
 "Converting between time points, durations and their textual forms is numerically exact and inverse for all values and time zones.",
 ['inputs'],"every value and zone","Tests sample values.",[L+'type/Chrono.cpp',I+'type/PosixTime.h'],[('conversion arithmetic','type::Duration, type::TimePoint')])
p('N05','A memory-hungry or slow peer cannot exhaust the host',
 "Total memory and latency of a host stay bounded whatever rate and volume its peers send.",
 ['schedules','inputs'],"every traffic pattern","Tests carry little traffic.",[I+'io/channels/AsyncStreamChannel.h'],[('write buffer limit','AsyncStreamChannel')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
