import sys, os; sys.path.insert(0, os.path.dirname(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'lib'))
from gen_ctrl import Ctl, o
ID, PROPERTY = 'k01-stop-between-rounds', 'K01'
NEEDS = 'a stop request in the 10 ms between two rounds of the self-test'
BREAKS = 'Modbus is not released: its client and server stay up although the program was stopped'
EDITS = [('src/app/controller/modbus/ModbusTestSetup.cpp', 'void ModbusTestSetup::onStop(ModbusTestFsm& fsm)\n{\n    fsm.transit<ModbusTestInit>();', 'void ModbusTestSetup::onStop(ModbusTestFsm& fsm)\n{\n    fsm.getEntity().stopTimer();')]
DRIVER, LIBS = 'ct_drv', ['common/logger', 'common/reactor', 'common/utils', 'common/msg', 'controller', 'connector', 'detector']
c = Ctl(); c.up(); c.round(); c.ops += [o('tick', n=5), o('stop')]
SCRIPTS = [c.ops]
CHECK = 'ok = any(p["m"] == "mrel" for p in S[0][-1]["post"])'
