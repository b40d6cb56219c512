ID, PROPERTY = 'c01-large-namespace', 'C01'
NEEDS = 'a numeric identifier below 65536 in a namespace above 255'
BREAKS = 'the namespace is cut to one byte: another node is addressed'
EDITS = [('src/app/common/ua/common/OpcUaBinaryCodec.cpp', 'nodeId.namespaceIndex < 256 && identifier < 65536', 'nodeId.namespaceIndex <= 256 && identifier < 65536')]
DRIVER, LIBS = 'co_drv', ['common/logger', 'common/reactor', 'common/utils', 'common/msg', 'common/ua']
SCRIPTS = [[dict(op='dec', t='NodeId', b=[2, 0, 1, 5, 0, 0, 0], n=1)]]
CHECK = '''
ok = S[0][0]["e"] == [2, 0, 1, 5, 0, 0, 0]
'''
