NOTE_C = ('TLC checks the client part of spec/Modbus.tla exhaustively for small queues (safety, bounded response); every transition of that graph and '
          'seeded random histories are replayed into the real component over simulated links and virtual time, and TLC accepts or rejects what it did. '
          'Trusts the simulated links/timers; real sockets are R04. Bounded: scripts up to some 60 inputs.')
NOTE_S = NOTE_C.replace('client part', 'server part').replace('small queues', 'two connections')
SRC = 'src/app/modbus/'
PROPS = [
 dict(id='M01', title='Every Modbus client request gets exactly one answer, in order',
  statement='Every request handed to the Modbus component is answered exactly once, with the client and transaction id it was issued with, unless its client is reconfigured or the component is released first. Requests a connected client accepted are answered in the order issued; a request for an unknown client, for a client whose link is down or whose queue (64) is full is answered at once with an error. A request on the wire is answered with an error when the device is silent for 5 s or the link is lost.',
  quantifier=dict(over=['histories', 'inputs', 'fault_sequences', 'schedules'], text='all interleavings of requests, device bytes (in any segmentation), link events, connect and send failures, and the passing of time, for every number of clients'),
  why_tests_cant='The unit tests drive single request/response exchanges with mocks; they never queue requests across timeouts, late responses, link loss and reconnects, nor fill the queue.',
  anchors=dict(files=[SRC + 'client/ModbusClient.cpp', SRC + 'client/ModbusAduStorage.cpp', SRC + 'client/ModbusClientReceive.cpp', SRC + 'client/ModbusClientSend.cpp', SRC + 'Modbus.cpp'],
   mechanism=[dict(name='request queue and its error answers', where=SRC + 'client/ModbusClient.cpp'), dict(name='client state machine', where=SRC + 'client/')],
   observe_at=['response messages of the Modbus component']),
  claim=dict(note=NOTE_C)),
 dict(id='M02', title='Success is reported only for a matching response, with its exact data',
  statement="A Modbus client reports success only when the device's complete response carries the transaction id, unit address and function of the request currently on the wire (or an exception for it), and then with exactly the register values or exception code of that response. Anything else received instead - wrong, malformed, too short, too long, or belonging to an earlier request - never yields success; a malformed or foreign complete response yields an error answer for that request. The outcome does not depend on how TCP splits the response.",
  quantifier=dict(over=['inputs', 'histories'], text='all byte sequences a device can send, in all segmentations, at all times (also late, after a timeout or before any request)'),
  why_tests_cant='Tests use a handful of well-formed responses delivered in one piece; the space of malformed, stale and split responses is unbounded.',
  anchors=dict(files=[SRC + 'ModbusCodec.cpp', SRC + 'client/ModbusClient.cpp', SRC + 'PduBuffer.hpp'],
   mechanism=[dict(name='response decoding and matching', where=SRC + 'ModbusCodec.cpp'), dict(name='reassembly', where=SRC + 'client/ModbusClient.cpp')],
   observe_at=['response messages of the Modbus component']),
  claim=dict(note=NOTE_C)),
 dict(id='M03', title='A Modbus client supervises its link and always reconnects',
  statement='A configured Modbus client tries to connect at once; when an attempt fails or is not established within 3 s, and whenever an established link is lost (error, end of stream, failed send), it closes the link, and 0.5 s later tries again, for ever, with at most one link at a time. It stays connected as long as the link lives, also when the device does not answer.',
  quantifier=dict(over=['fault_sequences', 'schedules', 'histories'], text='all sequences of link failures at every point of the exchange, for any number of rounds'),
  why_tests_cant='Tests cover a single connect; failures in each state, repeated, need fault sequences.',
  anchors=dict(files=[SRC + 'client/ModbusClient.cpp', SRC + 'client/ModbusClientConnect.cpp', SRC + 'client/ModbusClientBackoff.cpp', SRC + 'client/ModbusClientConnected.cpp'],
   mechanism=[dict(name='client state machine', where=SRC + 'client/')], observe_at=['connect, close on the link']),
  claim=dict(note=NOTE_C)),
 dict(id='M04', title='A Modbus client sends exactly the requested ADU, one at a time',
  statement='Each valid request is sent exactly once, as the Modbus/TCP frame for its transaction id, unit, function, start, count and data (registers high byte first), in the order issued, and only after the previous one was answered. A request that can not be a valid frame (unit above 247, unknown function, data not matching the count, frame too long, coil value other than 0x0000/0xFF00) is answered with an error and nothing is sent for it.',
  quantifier=dict(over=['inputs', 'histories'], text='all request contents and all histories of requests and responses'),
  why_tests_cant='Tests encode a few sample requests; boundaries of counts and lengths and the one-outstanding rule over histories are not sampled.',
  anchors=dict(files=[SRC + 'ModbusCodec.cpp', SRC + 'client/ModbusClient.cpp', SRC + 'client/ModbusClientSend.cpp'],
   mechanism=[dict(name='request encoding and validation', where=SRC + 'ModbusCodec.cpp')], observe_at=['bytes sent on the link']),
  claim=dict(note=NOTE_C)),
 dict(id='M05', title='A Modbus server forwards exactly the valid requests it receives',
  statement='Each complete, valid request of a remote client is forwarded to the application once, with its transaction id, unit, function, start, count and data unchanged and with a session id that no other open connection of that server has, however TCP splits it. An incomplete or malformed request is never forwarded; a frame announcing an impossible length closes the connection. While a request awaits its answer (up to 5 s) no other request of that connection is forwarded; afterwards the connection accepts requests again.',
  quantifier=dict(over=['inputs', 'histories'], text='all byte streams in all segmentations on any number of connections'),
  why_tests_cant='Tests decode sample frames in one piece; streams, segmentation, malformed fields and interleaved connections are unbounded.',
  anchors=dict(files=[SRC + 'server/session/ModbusSession.cpp', SRC + 'ModbusCodec.cpp', SRC + 'server/session/ModbusSessionConnected.cpp'],
   mechanism=[dict(name='session receive', where=SRC + 'server/session/ModbusSession.cpp'), dict(name='request decoding', where=SRC + 'ModbusCodec.cpp')],
   observe_at=['request messages of the Modbus component']),
  claim=dict(note=NOTE_S)),
 dict(id='M06', title='A Modbus server sends each reply to the right connection, once',
  statement="The application's answer goes only to the connection whose request it answers (same server, session and transaction id), at most once, as the frame for that request: the registers given, the echo of a write, or the exception code. Answers that are late, repeated, for a closed connection, for another transaction, for an unknown server or session, or that can not be encoded, send nothing and leave every other connection undisturbed.",
  quantifier=dict(over=['inputs', 'histories', 'schedules'], text='all contents and timings of application answers against any number of connections, timeouts and closures'),
  why_tests_cant='Tests answer one request on one connection; stale and misaddressed answers across connection reuse are not reached.',
  anchors=dict(files=[SRC + 'server/session/ModbusSession.cpp', SRC + 'server/ModbusServer.cpp', SRC + 'Modbus.cpp', SRC + 'ModbusCodec.cpp'],
   mechanism=[dict(name='answer matching', where=SRC + 'server/session/ModbusSession.cpp'), dict(name='reply encoding', where=SRC + 'ModbusCodec.cpp')],
   observe_at=['bytes sent on the connection']),
  claim=dict(note=NOTE_S)),
 dict(id='M07', title='Modbus server sessions end when they should and are never leaked',
  statement='A connection to a Modbus server lives until the peer closes it, its link fails (also when sending a reply), it announces an impossible frame length, it is silent for 30 s, or its server is reconfigured or released; then its link and timer are given back and its session can serve another connection. A failed accept costs no session: 256 simultaneous connections are always possible, for ever, and one more is refused without disturbing the others.',
  quantifier=dict(over=['histories', 'fault_sequences', 'schedules'], text='all sequences of accepts, closures, failures and silences, of any length'),
  why_tests_cant='A leak of one session per failure needs hundreds of faulty connections to show; tests make one.',
  anchors=dict(files=[SRC + 'server/ModbusServer.cpp', SRC + 'server/session/ModbusSession.cpp', SRC + 'server/session/ModbusSessionPool.hpp'],
   mechanism=[dict(name='session pool', where=SRC + 'server/ModbusServer.cpp'), dict(name='session state machine', where=SRC + 'server/session/')],
   observe_at=['open connections, links and timers held']),
  claim=dict(note=NOTE_S)),
 dict(id='M08', title='The Modbus component follows initialisation, configuration and release',
  statement='Initialisation and release are always confirmed, a configuration is confirmed with one success entry per item and in its order when every connection could be started; items outside the configured ranges change nothing. Configuring an existing client or server replaces it: its connections are closed and it starts anew. After a release, or before initialisation, no client, server, connection, link, timer or acceptor is left and every other message is ignored.',
  quantifier=dict(over=['histories', 'configurations', 'fault_sequences'], text='all sequences of initialisation, configuration, release and traffic in between'),
  why_tests_cant='Tests run one configuration; repeated reconfiguration under traffic is a matter of histories.',
  anchors=dict(files=[SRC + 'ModbusComponent.cpp', SRC + 'Modbus.cpp'],
   mechanism=[dict(name='component', where=SRC + 'ModbusComponent.cpp'), dict(name='client and server tables', where=SRC + 'Modbus.cpp')],
   observe_at=['messages of the Modbus component, links, acceptors']),
  claim=dict(note=NOTE_C.replace('client part', 'component'))),
]
