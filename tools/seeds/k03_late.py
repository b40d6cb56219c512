ID, PROPERTY = 'k03-late-release-forgets-ua', 'K03'
NEEDS = 'a start that reaches the controller after a stop but before Modbus has confirmed the release that stop asked for'
BREAKS = 'the late confirmation of the former run takes the OPC UA controller of the new run with it: its server is never configured and nobody listens on the OPC UA address'
EDITS = [('src/app/controller/ControllerComponent.cpp', '    LM(CTRL, LD, "ModbusReleaseRsp received");\n    if (modbus)\n        modbus->receive(rsp);\n',
          '    LM(CTRL, LD, "ModbusReleaseRsp received");\n    if (modbus)\n        modbus->receive(rsp);\n    opcUa.reset();\n')]
DRIVER, LIBS, LINK = 'ap_drv', ['.'], '-ldl'
def o(op, **kw): return dict(op=op, **kw)
SCRIPTS = [[o('boot'), o('start', seed=3), o('adv', n=25, seed=4), o('stop', g=[3], seed=5), o('start', seed=6), o('adv', n=30, seed=7)]]
CHECK = 'ok = sorted(S[0][2]["lis"]) == sorted(S[0][5]["lis"]) and len(S[0][2]["lis"]) == 2'
