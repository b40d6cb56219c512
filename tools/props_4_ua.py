N = ('TLC checks spec/UaServer.tla, composed with clients and message queues in spec/MCUa.tla, exhaustively for up to three clients, a few requests and faults%s; '
     'its transitions, with real bytes put in, and seeded random histories are run through the real transport, secure channel and service components (simulated links and timers, '
     'messages between the components delivered in any order), and TLC accepts or rejects what each component did on the inputs it really got. %s')
LIM = 'Left open: chunked (non-final) messages, security policies other than None, frames of 3900 to 4096 bytes, reuse of a number while a message that mentions it still waits.'
U = 'src/app/ua/'
T, S, V = U + 'transport/server/', U + 'securechannel/channel/', U + 'service/'
PROPS = [
 dict(id='U01', title='An OPC UA connection serves nothing before one well-formed Hello',
  statement='After a connection to the OPC UA server is accepted, the first complete message must be a well-formed Hello; it is answered on that connection with exactly one Acknowledge carrying the server\'s protocol version and buffer limits, and only then are other messages served. Anything else as first message, and a Hello that is malformed or whose length does not fit, ends the connection without an answer and without anything being passed on. How TCP splits the bytes makes no difference.',
  quantifier=dict(over=['inputs', 'histories'], text='all byte streams in all segmentations on any number of connections'),
  why_tests_cant='The repository has no test of the server transport that sends malformed or split handshakes; the byte streams are unbounded.',
  anchors=dict(files=[T + 'UaTcpConnection.cpp', T + 'UaTcpConnectionReceiveHello.cpp', T + 'UaTcpConnectionConnected.cpp'],
   mechanism=[dict(name='handshake state', where=T + 'UaTcpConnectionReceiveHello.cpp'), dict(name='reassembly', where=T + 'UaTcpConnection.cpp')],
   observe_at=['bytes sent to the client, connections kept open']),
  claim=dict(note=N % ('', LIM))),
 dict(id='U02', title='Secured messages pass the OPC UA transport unchanged, on their own connection',
  statement='Each complete OpenSecureChannel message, and each complete message or CloseSecureChannel message that names the channel opened on its connection, is passed on exactly once with its connection, channel, chunk type and body unchanged; a message of another type or naming another channel ends the connection and is not passed on. What the server answers on a channel is sent only to the connection the channel was opened on, as one frame with the right type, length and channel. A connection serves the channel opened on it last.',
  quantifier=dict(over=['inputs', 'histories', 'schedules'], text='all byte streams and segmentations, all orders of answers, on any number of connections'),
  why_tests_cant='Tests do not drive several connections nor misaddressed messages; the combinations of association, framing and order are unbounded.',
  anchors=dict(files=[T + 'UaTcpConnection.cpp', T + 'UaTcpConnectionConnected.cpp', T + 'UaTcpServer.cpp'],
   mechanism=[dict(name='association of channel and connection', where=T + 'UaTcpConnection.cpp')],
   observe_at=['messages to the secure channel component, bytes sent to the client']),
  claim=dict(note=N % ('', LIM))),
 dict(id='U03', title='An ended OPC UA connection is given back and its channel told, always',
  statement='A connection ends when the peer closes it or the link fails, when it sends something not allowed, when nothing complete arrives for 30 s, when sending fails, or when its secure channel asks for it. Then its link and timer are given back, it can be used for another client, and the secure channel opened on it is told exactly once, also when the channel is opened only after the connection ended. So neither connections nor channels are lost, however many clients come and go, and 32 can always be served at a time.',
  quantifier=dict(over=['fault_sequences', 'histories', 'schedules'], text='all ways and moments of ending, including while messages between the components are under way, for any number of clients'),
  why_tests_cant='A lost connection or channel shows only after 32 clients ended in one particular way at one particular moment.',
  anchors=dict(files=[T + 'UaTcpConnection.cpp', T + 'UaTcpConnectionConnected.cpp', T + 'UaTcpConnectionInit.cpp', T + 'UaTcpServer.cpp'],
   mechanism=[dict(name='release notification', where=T + 'UaTcpConnection.cpp'), dict(name='connection pool', where=T + 'UaTcpServer.cpp')],
   observe_at=['release indications, links and timers held, connections accepted']),
  claim=dict(note=N % (' (no orphaned channel, silence ends, everything drains)', LIM))),
 dict(id='U04', title='A secure channel accepts only the next message with its token',
  statement='A message on a secure channel reaches the services exactly once, with its request id and body unchanged, if and only if it comes over the connection the channel was opened on, carries the token given when it was opened, and the sequence number following the last one accepted (starting from that of the open request, wrapping at 2^32). A message or close request on that connection that does not comply, or is too short, is passed on to nobody and ends the channel and its connection. A message from another connection changes nothing.',
  quantifier=dict(over=['inputs', 'histories'], text='all sequences of messages, tokens and sequence numbers, including replayed, skipped and wrapping ones, on any number of channels'),
  why_tests_cant='Replay, reordering, wrap-around and cross-connection use need sequences over several channels; tests hold none.',
  anchors=dict(files=[S + 'UaServerSecureChannel.cpp', S + 'UaServerSecureChannelEstablished.cpp', U + 'securechannel/UaSecureChannel.cpp'],
   mechanism=[dict(name='token and sequence check', where=S + 'UaServerSecureChannel.cpp')], observe_at=['messages to the service component, release requests']),
  claim=dict(note=N % ('', LIM))),
 dict(id='U05', title='Answers leave a secure channel with its token, in sequence, for their request',
  statement='An accepted open request is answered with a channel number no other open channel has, its token, the requested lifetime, and the request id and handle of the request. Every further answer on the channel carries that token, the request id of its request, the unchanged body and a sequence number one above the last one sent on the channel. An answer for another connection than the channel\'s, or for another session than the one the channel serves, is not sent.',
  quantifier=dict(over=['inputs', 'histories', 'schedules'], text='all request contents, all histories of opening, requests and answers on any number of channels'),
  why_tests_cant='Continuity of sequence numbers and isolation of channels and sessions are properties of whole histories.',
  anchors=dict(files=[S + 'UaServerSecureChannel.cpp'], mechanism=[dict(name='answer headers', where=S + 'UaServerSecureChannel.cpp')],
   observe_at=['messages to the transport, bytes sent to the client']),
  claim=dict(note=N % ('', LIM))),
 dict(id='U06', title='Secure channels end when they should and are never leaked',
  statement='A secure channel lives from its open request until it is closed by its client, breaks the rules, or its connection ends or opens another one; then nothing is accepted or sent on it any more and nothing of it (session, token, connection) carries over to the next channel using its number. A close request is answered and then the connection is ended; a malformed open request ends its connection and costs no channel. At most 32 channels are open at a time, and that many can be opened again after any number of them ended.',
  quantifier=dict(over=['histories', 'fault_sequences', 'schedules'], text='all sequences of opening, use and ending in every way, of any length'),
  why_tests_cant='Leaks of channels and state carried over from an earlier channel need long histories with reuse.',
  anchors=dict(files=[S + 'UaServerSecureChannel.cpp', S + 'UaServerSecureChannelInit.cpp', S + 'UaServerSecureChannelEstablished.cpp', U + 'securechannel/UaSecureChannel.cpp'],
   mechanism=[dict(name='channel state machine', where=S), dict(name='channel pool', where=U + 'securechannel/UaSecureChannel.cpp')],
   observe_at=['answers and release requests to the transport']),
  claim=dict(note=N % (' (no orphaned channel)', LIM))),
 dict(id='U07', title='Read is served only for a session activated on that very channel',
  statement='A Read request is answered, once and with its own handle, if and only if the secure channel it arrived on serves a session that was activated on this channel, has not been activated on another one since, and has not been closed. Knowing the number of another client\'s session, or having had a session on an earlier channel, does not help. Discovery and session services need no session.',
  quantifier=dict(over=['histories', 'schedules', 'inputs'], text='all histories of creating, activating (also on several channels), closing sessions and reading, by any number of clients'),
  why_tests_cant='Whether a session is usable depends on the whole history of several channels.',
  anchors=dict(files=[V + 'session/UaSession.cpp', V + 'session/UaSessionActivated.cpp', V + 'session/UaSessionService.cpp', V + 'attribute/UaRead.cpp'],
   mechanism=[dict(name='session and channel check', where=V + 'session/UaSession.cpp')], observe_at=['answers of the service component']),
  claim=dict(note=N % ('', LIM + ' Read answers hold no values (not implemented).'))),
 dict(id='U08', title='Sessions are created, activated and closed as asked, and answered so',
  statement='CreateSession is answered with a session number and authentication token no other open session has, echoing the requested timeout and message size, and GetEndpoints and CreateSession with the server\'s one endpoint; ActivateSession binds the session named by the authentication token to the channel it arrives on; CloseSession ends it and frees its number. Every answer carries the handle of its request and goes back the way it came. Unknown sessions and a CreateSession beyond 32 open sessions are not answered and change nothing.',
  quantifier=dict(over=['histories', 'inputs'], text='all histories of session services with all token forms and request contents, including more sessions than there is room for'),
  why_tests_cant='Tests do not drive the session services; reuse of numbers and exhaustion need long histories.',
  anchors=dict(files=[V + 'session/UaSessionService.cpp', V + 'session/UaSession.cpp', V + 'discovery/UaGetEndpoints.cpp', V + 'UaService.cpp'],
   mechanism=[dict(name='session state machine', where=V + 'session/')], observe_at=['answers of the service component']),
  claim=dict(note=N % ('', LIM + ' Sessions are never timed out by the server (not implemented), so this property does not ask for it.'))),
 dict(id='U09', title='Each OPC UA client gets exactly the answers to its own requests',
  statement='Whatever other clients do and in whatever order the server\'s parts handle their messages, every frame a client receives is the Acknowledge of its Hello or the one answer to one of its own pending requests, with that request\'s id and handle, on the channel and with the token it was given and in unbroken sequence. A well-formed request of a client that keeps the rules is answered as soon as the server\'s parts have handled their messages.',
  quantifier=dict(over=['schedules', 'histories', 'inputs', 'fault_sequences'], text='all interleavings of any number of clients, of the three components and of connection losses'),
  why_tests_cant='End-to-end isolation holds or fails only in interleavings of several clients and components; no test runs them together.',
  anchors=dict(files=[U + 'transport', U + 'securechannel', U + 'service'], mechanism=[dict(name='connection, channel and session numbers carried by messages', where=U)],
   observe_at=['bytes each client receives']),
  claim=dict(note=N % (' (isolation, distinct numbers, bounded answers)', LIM))),
 dict(id='U10', title='Malformed OPC UA input harms nobody but its sender',
  statement='No byte sequence a client sends, at any point of a connection, makes the server crash, read or write outside its buffers, answer something that was not asked, or change what other clients get. A message that can not be decoded, or asks for an unknown service, is not answered; at most the connection and channel it arrived on end.',
  quantifier=dict(over=['inputs', 'histories'], text='all byte sequences at every level (framing, security headers, service requests), between regular traffic of other clients'),
  why_tests_cant='The tests feed only well-formed messages to the server.',
  anchors=dict(files=[T + 'UaTcpConnection.cpp', S + 'UaServerSecureChannel.cpp', V + 'UaService.cpp', 'src/app/common/ua'],
   mechanism=[dict(name='decoding with bounds checks', where='src/app/common/ua'), dict(name='error handling', where=T)],
   observe_at=['sanitizer reports, all messages and bytes']),
  claim=dict(note=N % ('', 'Runs under AddressSanitizer and UBSan. ' + LIM))),
 dict(id='U11', title='The OPC UA components follow initialisation, configuration and release',
  statement='Initialisation and release of the transport, secure channel and service components are always confirmed; a configured transport listens on exactly the configured address, replacing an earlier one. After a release, or before initialisation, a component keeps no connection, channel, session, link, timer or listening socket and ignores every other message; initialising it again starts from nothing.',
  quantifier=dict(over=['histories', 'configurations'], text='all sequences of initialisation, configuration, release and traffic in between'),
  why_tests_cant='Repeated start and stop under traffic is a matter of histories; tests start each component at most once.',
  anchors=dict(files=[U + 'transport/UaTransportComponent.cpp', U + 'securechannel/UaSecureChannelComponent.cpp', U + 'service/UaServiceComponent.cpp'],
   mechanism=[dict(name='components', where=U)], observe_at=['confirmations, links, timers, acceptors']),
  claim=dict(note=N % ('', LIM))),
 dict(id='U12', title='Every OPC UA answer tells the time at which it was given',
  statement='Every answer of the OPC UA server, and of the library\'s secure channel server, carries in its header the time of day at which it was given, and the answer to an open request also tells that time as the creation of the token: the UTC time in units of 100 ns since the start of 1601, with every leap day in between counted and to the microsecond, whenever it is (1970 to 2260), also after the clock was put forward or back.',
  quantifier=dict(over=['inputs', 'histories'], text='all times of day, all kinds of answers, the clock changed between any two messages'),
  why_tests_cant='A test sees the time at which it happens to run; a wrong leap day, an overflow in 2038 or a time kept from before shows only at other times.',
  anchors=dict(files=['src/app/common/utils/TimeUtils.hpp', S + 'UaServerSecureChannel.cpp', V + 'session/UaSession.cpp', V + 'attribute/UaAttributeService.cpp', V + 'discovery/UaGetEndpoints.cpp',
    'src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp'],
   mechanism=[dict(name='current time', where='src/app/common/utils/TimeUtils.hpp')], observe_at=['time stamps in the answers of the service and secure channel components']),
  claim=dict(note='spec/UaTime.tla defines the time in byte arithmetic; TLC walks the calendar year by year (spec/MCTime.tla, to 2500, thorough to 9999) and checks that the definition counts each moment of it. '
    'The moments it visits and random ones are set as time of day of the real server and library components between the messages of random histories, and TLC compares the times told in each answer with the time it was given at.')),
]
