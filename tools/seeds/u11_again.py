import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from uacommon import *
ID, PROPERTY = 'u11-service-initialised-again-keeps-sessions', 'U11'
NEEDS = 'sessions that were created before the service component is initialised once more without having been released'
BREAKS = 'the component goes on with the sessions of before: their places stay taken'
EDITS = [('src/app/ua/service/UaServiceComponent.cpp', '    service = std::make_unique<UaService>();\n', '    if (not service)\n    {\n        service = std::make_unique<UaService>();\n    }\n')]
DRIVER, LIBS = 'ua_drv', LIBS_UA
SCRIPTS = [UP + conn(0) + sum(([msg(0, 'create', 2 + i, 2, 7)] + R for i in range(20)), []) + [dict(op='vinit')] + R + sum(([msg(0, 'create', 22 + i, 2, 7)] + R for i in range(20)), [])]
CHECK = FR + 'ok = len(frames(0, 0)) == 2 + 40'
