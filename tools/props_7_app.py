N = ('TLC checks spec/System.tla, the controller, Modbus and OPC UA specifications composed with queues, threads and the network, in spec/MCSystem.tla exhaustively over the turns they take%s; '
     'its transitions and seeded random histories are run through the real deployment, with its real threads and sockets but with turns and time decided by the driver, and TLC keeps all '
     'states consistent with what was seen and rejects when none is left. %s')
PROPS = [
 dict(id='K03', title='The application comes up and goes down completely under any schedule',
  statement='Whatever start and stop requests the deployed application is sent, and however its threads and the network take turns, once it is at rest it listens for Modbus clients at 127.0.0.1:12145 and for OPC UA clients at 127.0.0.1:4369 if it was last asked to start, and listens nowhere and has closed every connection if it was last asked to stop; a further start works at once, also over connections that were just closed. (The controller pauses for two seconds before its first self-test and handles requests after that; a failed self-test takes Modbus down, OPC UA stays.) Shutting the application down at any moment, also when it could not be started completely, ends its threads, closes every connection and leaves no descriptor open.',
  quantifier=dict(over=['schedules', 'histories'], text='all sequences of starts, stops and shutdowns at any point of all interleavings of the four threads and the network'),
  why_tests_cant='The repository has no test of the deployed application; which thread is where when a stop arrives is a matter of the schedule.',
  anchors=dict(files=['src/app/Deployer.cpp', 'src/app/common/reactor/ReactorManager.cpp', 'src/app/common/reactor/Reactor.cpp', 'src/app/common/reactor/Thread.cpp', 'src/app/common/reactor/Acceptor.cpp', 'src/app/controller/ControllerComponent.cpp', 'src/app/modbus/ModbusComponent.cpp', 'src/app/ua/transport/UaTransportComponent.cpp'],
   mechanism=[dict(name='deployment', where='src/app/Deployer.cpp'), dict(name='threads and their end', where='src/app/common/reactor/Reactor.cpp')],
   observe_at=['addresses listened on, connections of clients, descriptors, thread ends']),
  claim=dict(note=N % (' (states at rest are as asked last, the self-test of an application left alone succeeds)', 'Real CPUs are not pinned; a machine without the CPUs is simulated.'))),
 dict(id='K04', title='The running application serves its clients and keeps testing its Modbus link',
  statement='Every client of the running application gets exactly the bytes the Modbus and OPC UA servers owe it, and is disconnected exactly when they have to, however many clients there are, in whatever pieces they send and whatever the self-test does meanwhile. The self-test runs over a connection of its own from the application\'s Modbus client to its Modbus server: two seconds after configuration, and again 10 ms after each round, exactly the frames of the requests that can be sent appear on it, each followed by the answer of the server; it shares the registers with the other Modbus clients. When that connection cannot be made or is lost the client makes it again after half a second, and an answer the test does not expect, also one because of a lost connection, takes Modbus down and leaves OPC UA serving.',
  quantifier=dict(over=['inputs', 'histories', 'schedules'], text='all clients, requests, segmentations and disconnections at any point of the self-test, in all interleavings of the threads'),
  why_tests_cant='The repository has no test in which its parts work together.',
  anchors=dict(files=['src/app/Deployer.cpp', 'src/app/common/reactor/ReactorManager.cpp', 'src/app/common/reactor/Link.cpp', 'src/app/modbus/ModbusComponent.cpp', 'src/app/modbus/server/ModbusServer.cpp', 'src/app/modbus/client/ModbusClient.cpp', 'src/app/controller/modbus/ModbusTestController.cpp', 'src/app/ua/transport/UaTransportComponent.cpp', 'src/app/ua/securechannel/UaSecureChannelComponent.cpp', 'src/app/ua/service/UaServiceComponent.cpp'],
   mechanism=[dict(name='messages between components', where='src/app/common/reactor/ReactorManager.cpp'), dict(name='self-test', where='src/app/controller/modbus/')],
   observe_at=['bytes clients receive, disconnections, bytes between the application\'s Modbus client and server']),
  claim=dict(note=N % (' and cut connections', 'An answer that comes too late for a client that left is not determined.'))),
]
