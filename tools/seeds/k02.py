import sys, os; sys.path.insert(0, os.path.dirname(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'lib'))
from gen_ctrl import Ctl, o
ID, PROPERTY = 'k02-answers-counted-across-rounds', 'K02'
NEEDS = 'a third round of the self-test (the first two are sent as they should)'
BREAKS = 'the answers are counted from the configuration on, not from the round: after the second round the test stops silently'
EDITS = [('src/app/controller/modbus/ModbusTestRun.cpp', '    fsm.getEntity().resetTestCaseCounter();\n', ''),
         ('src/app/controller/modbus/ModbusTestConfigure.cpp', '    fsm.getEntity().process(rsp);\n', '    fsm.getEntity().process(rsp);\n    fsm.getEntity().resetTestCaseCounter();\n')]
DRIVER, LIBS = 'ct_drv', ['common/logger', 'common/reactor', 'common/utils', 'common/msg', 'controller', 'connector', 'detector']
c = Ctl(); c.up()
for _ in range(3): c.round(); c.ops += [o('tick', n=10)]
SCRIPTS = [c.ops]
CHECK = 'ok = sum(p["m"] == "madu" for x in S[0] for p in x["post"]) == 4'
