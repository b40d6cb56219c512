N = ('TLC checks spec/UaLib.tla in spec/MCLib.tla exhaustively over owners, peers, link failures and time%s; its transitions and seeded random histories with up to three objects '
     'are run through the real library objects, and TLC accepts or rejects what their owner was told and what was sent. %s')
PR = 'src/app/common/ua/protocols/'
PROPS = [
 dict(id='L01', title='A library connection shakes hands, delivers whole messages, ends once',
  statement='A connection object of the OPC UA library, started by connecting (client: sends a Hello and waits for a well-formed Acknowledge; server: sends a ReverseHello and waits for a Hello) or with an accepted link (server: waits for a Hello), is reported connected exactly when the handshake succeeds, a well-formed Hello being answered by one Acknowledge; link establishment may take 3 s and the handshake 1 s. From then on every complete message of up to 4096 bytes, in whatever pieces it arrives, is reported once with exactly its bytes, and 10 s after it was reported connected it is reported closed. Whatever else ends it (connection refused or lost, a failed send in the handshake, a malformed handshake, a size that does not fit) is reported as exactly one error; then, as after a close by its owner at any point, also while it is being told something, link and timer are given back, nothing more is reported and the object can be started again.',
  quantifier=dict(over=['inputs', 'histories', 'schedules'], text='all byte streams in all segmentations, all points of failure, closing and timing, any number of restarts, several objects at once'),
  why_tests_cant='The 12 unit tests call single events with mocks; segmentation, failures at every stage, reports while the owner closes, and reuse are histories.',
  anchors=dict(files=[PR + 'connection/' + f for f in ('OpcUaConnection.cpp', 'ClientConnection.cpp', 'ClientConnectionConnecting.cpp', 'ClientConnectionReceiveAck.cpp', 'ClientConnectionConnected.cpp', 'ServerConnection.cpp', 'ServerConnectionConnecting.cpp', 'ServerConnectionReceiveHello.cpp', 'ServerConnectionConnected.cpp')],
   mechanism=[dict(name='framing', where=PR + 'connection/OpcUaConnection.cpp'), dict(name='state machines', where=PR + 'connection/')],
   observe_at=['reports to the owner, bytes sent, link state, links and timers held']),
  claim=dict(note=N % (' up to nine steps', 'Runs under AddressSanitizer.'))),
 dict(id='L02', title='A library secure channel reports requests only in order under its token',
  statement='A server secure channel object of the OPC UA library, opened with an accepted link, answers each well-formed OpenSecureChannel request with the request id, handle and lifetime of that request, the channel number and a token, and from then on reports each message under the newest token with the next sequence number once, with exactly its payload; before that it reports none. Its owner\'s messages are sent under that channel, token and the request id received last, and all it sends has consecutive sequence numbers; a message too long for one packet is not sent. A wrong token or sequence number, a malformed message or a lost connection is reported as one error, a valid CloseSecureChannel or the end of the connection\'s time as one closed; then, as after a close by its owner at any point, the connection is closed, link and timer are given back, and the channel can be opened again.',
  quantifier=dict(over=['inputs', 'histories', 'schedules'], text='all messages in all orders and segmentations, all points of failure and closing, renewed and reopened channels'),
  why_tests_cant='The repository has no test of the secure channel of the library.',
  anchors=dict(files=[PR + 'secure/' + f for f in ('OpcUaServerSecureChannel.cpp', 'OpcUaServerSecureChannelReceiveOpenReq.cpp', 'OpcUaServerSecureChannelEstablished.cpp', 'OpcUaServerSecureChannelConnecting.cpp', 'OpcUaSecureChannel.cpp')],
   mechanism=[dict(name='token and sequence numbers', where=PR + 'secure/OpcUaServerSecureChannel.cpp'), dict(name='state machine', where=PR + 'secure/')],
   observe_at=['reports to the owner, bytes sent, link state, links and timers held']),
  claim=dict(note=N % (' up to nine steps', 'Runs under AddressSanitizer. Sequence numbers of messages whose sending failed are left open.'))),
 dict(id='L03', title='A library client channel asks once, checks the answer and ends cleanly',
  statement='A client secure channel object of the OPC UA library, when opened, connects, shakes hands (as the client connection does, with its times) and sends exactly one well-formed OpenSecureChannel request for a channel without security. The first message after that has to be a well-formed OpenSecureChannel response, in whatever pieces it arrives: anything else is reported as one error. Nothing is sent or reported for what follows until the connection ends. A connection that can not be made (told at once or later), a failed send or handshake and a lost connection are reported as one error, the end of the connection\'s time as one closed; then, as after a close by its owner at any point, also while it is being told something, the connection is closed, link and timer are given back, nothing more is reported and the channel can be opened again.',
  quantifier=dict(over=['inputs', 'histories', 'schedules'], text='all answers in all segmentations, all points of failure and closing, any number of reopenings'),
  why_tests_cant='The repository has no test of the client secure channel of the library.',
  anchors=dict(files=[PR + 'secure/' + f for f in ('OpcUaClientSecureChannel.cpp', 'OpcUaClientSecureChannelInit.cpp', 'OpcUaClientSecureChannelConnecting.cpp', 'OpcUaClientSecureChannelReceiveOpenRsp.cpp', 'OpcUaClientSecureChannelEstablished.cpp')],
   mechanism=[dict(name='request and answer', where=PR + 'secure/OpcUaClientSecureChannel.cpp'), dict(name='state machine', where=PR + 'secure/')],
   observe_at=['reports to the owner, bytes sent, link state, links and timers held']),
  claim=dict(note=N % (' up to ten steps', 'Runs under AddressSanitizer. Whether the channel is reported established, sending on it (not implemented) and answers to another request are left open.'))),
]
