ID, PROPERTY = 'c02-description-fields-swapped', 'C02'
NEEDS = 'an application description with a gateway or discovery profile uri; both directions agree, so it round-trips'
BREAKS = 'gateway uri and discovery profile uri are exchanged on the wire'
EDITS = [('src/app/common/ua/common/OpcUaBinaryCodec.cpp', '        >> val.gatewayServerUri\n        >> val.discoveryProfileUri', '        >> val.discoveryProfileUri\n        >> val.gatewayServerUri'),
         ('src/app/common/ua/common/OpcUaBinaryCodec.cpp', '        << val.gatewayServerUri\n        << val.discoveryProfileUri', '        << val.discoveryProfileUri\n        << val.gatewayServerUri')]
DRIVER, LIBS = 'co_drv', ['common/logger', 'common/reactor', 'common/utils', 'common/msg', 'common/ua']
SCRIPTS = [[dict(op='dec', t='ApplicationDescription', b=[255]*8 + [0] + [0]*4 + [1, 0, 0, 0, 71] + [1, 0, 0, 0, 72] + [0]*4, n=1)]]
CHECK = '''
ok = S[0][0]["v"][4] == [71] and S[0][0]["v"][5] == [72]
'''
