N = ('TLC checks spec/Reactor.tla%s exhaustively for short histories; its transitions and seeded random histories are run through the real reactor loop '
     '(%s), and TLC accepts or rejects what was observed. One reactor thread, as deployed. Not covered: accepting with an exhausted link pool, data and end of stream '
     'arriving in one event.')
SRC = 'src/app/common/reactor/'
PROPS = [
 dict(id='R01', title='Every admitted message reaches its handler once, in order, unchanged',
  statement='A message sent to a reactor, by any thread or from inside a handler, is delivered to the handler registered last for its type exactly once, byte for byte as sent, and in the order stored (so each sender\'s messages keep their order). Only a message larger than 4096 bytes, one sent while 64 are already waiting, or one without a handler is dropped, and dropping it affects no other message. A message sent to a component goes to the reactor of the component first registered under its id, and a message for an unknown component is dropped.',
  quantifier=dict(over=['schedules', 'histories', 'inputs'], text='all interleavings of concurrent senders and the loop, all message sizes and bursts, all handler behaviours (sending, failing, replacing handlers)'),
  why_tests_cant='No test of the repository touches the message queue; interleavings of senders with the loop and a full queue need schedules, not samples.',
  anchors=dict(files=[SRC + 'Reactor.cpp', SRC + 'MsgMemStorage.cpp', SRC + 'Event.cpp', SRC + 'ReactorManager.cpp', 'src/app/common/utils/Queue.hpp'],
   mechanism=[dict(name='bounded store under a lock plus an event counter', where=SRC + 'MsgMemStorage.cpp'), dict(name='dispatch by message id', where=SRC + 'Reactor.cpp'), dict(name='routing by component id', where=SRC + 'ReactorManager.cpp')],
   observe_at=['messages seen by registered handlers']),
  claim=dict(note=N % (' and spec/ReactorMsg.tla (senders and loop as separate processes, with liveness)', 'virtual time, concurrent real sender threads'))),
 dict(id='R02', title='A failing handler or system call costs only itself',
  statement='When a handler throws, the event it was handling is over and every other pending message, timer, link and acceptor event is still handled. When a timer, link or acceptor can not be created, connected, opened or accepted because a system call fails or all 32 are in use, the caller is told by an exception or an error event, nothing is leaked, and the same operation succeeds later once the cause is gone. Releasing an object always makes its place and its descriptor available again.',
  quantifier=dict(over=['fault_sequences', 'histories'], text='every system call of every operation failing at every point, for any number of rounds of creation and release'),
  why_tests_cant='The tests inject no system-call failures and never exhaust a pool.',
  anchors=dict(files=[SRC + 'Reactor.cpp', SRC + 'Epoll.cpp', SRC + 'EntityPool.hpp', SRC + 'Timer.cpp', SRC + 'Link.cpp', SRC + 'Acceptor.cpp'],
   mechanism=[dict(name='pools', where=SRC + 'EntityPool.hpp'), dict(name='exception barriers', where=SRC + 'Epoll.cpp')],
   observe_at=['handler calls', 'exceptions', 'open descriptors']),
  claim=dict(note=N % ('', 'virtual time, real sockets, injected system-call failures'))),
 dict(id='R03', title='A timer fires exactly when due, once, and never after it was stopped',
  statement='A started timer calls its handler once, no earlier than the requested microseconds after the start and as soon as the loop runs then; starting it again replaces the earlier start. A timer that was stopped, restarted or released before its handler ran does not fire for the earlier start, also when it had already expired and also when that happens inside the handler of another timer. Timers due at different times fire in the order of their times.',
  quantifier=dict(over=['schedules', 'histories', 'inputs'], text='all intervals (from 0 to many seconds), all current times (including just before a full second), all interleavings of start, stop, release and expiry, with the loop on time or late'),
  why_tests_cant='Tests use mocked timers; the arithmetic at second boundaries and the races of expiry with stop need exhaustive histories in virtual time.',
  anchors=dict(files=[SRC + 'Timer.cpp', SRC + 'Reactor.cpp', SRC + 'Epoll.cpp'],
   mechanism=[dict(name='absolute one-shot timer descriptor', where=SRC + 'Timer.cpp')], observe_at=['calls of the timer handlers and their virtual time']),
  claim=dict(note=N % ('', 'timer descriptors and clock replaced by virtual time'))),
 dict(id='R04', title='Links and acceptors carry connections faithfully to and from the network',
  statement='A link connects to exactly the address and port it is given and reports once whether it is connected or failed; what is sent on it arrives unchanged and whole at the peer, or the sender is told that it failed, and what the peer sends is reported and can be read unchanged, also when it was sent before the connection was reported. The end of the peer\'s stream is reported as closed, a reset as an error after which the link is closed and can connect again; closing or releasing a link or acceptor closes its socket and stops its events. Each connection to a listening acceptor is offered once and accepted into the given link.',
  quantifier=dict(over=['histories', 'inputs', 'fault_sequences'], text='all interleavings of connect, accept, send, receive, close, release and peer actions over any number of links'),
  why_tests_cant='Tests replace links by mocks; behaviour on sockets depends on the order of readiness events.',
  anchors=dict(files=[SRC + 'Link.cpp', SRC + 'Acceptor.cpp', SRC + 'types/LinkAddr.hpp'],
   mechanism=[dict(name='edge-triggered link events', where=SRC + 'Link.cpp'), dict(name='accept', where=SRC + 'Acceptor.cpp')],
   observe_at=['link events', 'bytes at both ends', 'connections seen by the peer']),
  claim=dict(note=N % ('', 'real loopback sockets on both sides'))),
]
