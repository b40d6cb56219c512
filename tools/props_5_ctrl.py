N = ('TLC checks spec/Controller.tla, composed with the components it drives in spec/MCController.tla, exhaustively for up to four starts and stops%s; its transitions and seeded '
     'random histories are run through the real controller, connector and detector components, and TLC accepts or rejects the messages they sent. %s')
CT = 'src/app/controller/'
PROPS = [
 dict(id='K01', title='Starting brings all components up, stopping takes all of them down again',
  statement='On a start request the controller asks the Modbus, OPC UA transport, secure channel and service components to initialise, and configures each as soon as it confirms: Modbus with one client and one server at 127.0.0.1:12145, the OPC UA transport at 127.0.0.1:4369. On a stop request, at whatever point, it asks all of them to release and keeps nothing itself; while stopped it ignores everything else, and a further start begins anew. So once all messages are handled every component is up and configured, or every component is released, as was asked last; connector and detector confirm every initialisation.',
  quantifier=dict(over=['histories', 'schedules'], text='all sequences of starts and stops with the confirmations and traffic of earlier ones still under way'),
  why_tests_cant='The repository has no test of the controller; stops in the middle of a start-up and late confirmations are a matter of schedules.',
  anchors=dict(files=[CT + 'ControllerComponent.cpp', CT + 'ua/UaController.cpp', CT + 'ua/UaControllerInited.cpp', CT + 'modbus/ModbusTestInit.cpp', CT + 'modbus/ModbusTestConfigure.cpp', 'src/app/connector/ConnectorSimple.cpp', 'src/app/detector/Detector.cpp'],
   mechanism=[dict(name='start and stop', where=CT + 'ControllerComponent.cpp'), dict(name='state machines', where=CT)],
   observe_at=['messages to the components, timers held']),
  claim=dict(note=N % (' (components agree with the last request, liveness)', 'Failing initialisation is not modelled: the components always confirm.'))),
 dict(id='K02', title='The Modbus self-test repeats while answers are right and keeps its registers',
  statement='Once Modbus is configured the controller sends its 16 test requests in one message, and after 16 expected answers waits 10 ms and sends them again; an answer whose client, status, error, length or register content is not what the test expects makes it release Modbus at once and test no more. While a round runs it answers every request that reaches the Modbus server exactly once, to the session it came from: each transaction number below 16 has 1024 registers, initially the fixed test pattern, that reads return as last written and single and multiple presets store; other transaction numbers and registers out of range are refused as illegal address without touching any register.',
  quantifier=dict(over=['inputs', 'histories'], text='all answers and requests in all orders over any number of rounds'),
  why_tests_cant='The repository has no test of the self-test; registers changed by clients and answers wrong in one byte need generated histories.',
  anchors=dict(files=[CT + 'modbus/ModbusTestController.cpp', CT + 'modbus/ModbusTestRun.cpp', CT + 'modbus/ModbusTestSetup.cpp'],
   mechanism=[dict(name='comparison of answers', where=CT + 'modbus/ModbusTestController.cpp'), dict(name='registers', where=CT + 'modbus/ModbusTestController.cpp')],
   observe_at=['requests, answers and release requests to Modbus']),
  claim=dict(note=N % (' and three rounds', 'Runs under AddressSanitizer. The two seconds the controller sleeps after configuration are skipped.'))),
]
