import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from common import *
ID, PROPERTY = 'm08-configured-again-keeps-server', 'M08'
NEEDS = 'a server with open connections that is configured once more'
BREAKS = 'the server is not replaced: it keeps its connections (and its former address)'
EDITS = [('src/app/modbus/Modbus.cpp', '            ModbusServer::Init init{item.id, item.addr};\n            servers[item.id] = std::make_unique<ModbusServer>(init);\n            servers[item.id]->start();\n', '            if (servers[item.id])\n            {\n                continue;\n            }\n            ModbusServer::Init init{item.id, item.addr};\n            servers[item.id] = std::make_unique<ModbusServer>(init);\n            servers[item.id]->start();\n')]
DRIVER, LIBS = 'mb_drv', LIBS_MB
SCRIPTS = [[init(1, 0), cfgs(0), dict(op='acc', a=9), cfgs(0), dict(op='acc', a=9)]]
CHECK = '''
ok = S[0][2]["open"] == [0] and S[0][3]["open"] == []
'''
