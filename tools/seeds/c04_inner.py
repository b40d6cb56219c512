ID, PROPERTY = 'c04-missing-inner-diagnostics', 'C04'
NEEDS = 'two diagnostics that differ only in that one of them has inner diagnostics and the other has none'
BREAKS = 'they are taken for the same'
EDITS = [('src/app/common/ua/common/types/DiagnosticInfo.hpp', 'cmpInnerDiagnosticInfo = not (this->innerDiagnosticInfo || rhs.innerDiagnosticInfo);', 'cmpInnerDiagnosticInfo = not this->innerDiagnosticInfo || not rhs.innerDiagnosticInfo;')]
DRIVER, LIBS = 'co_drv', ['common/logger', 'common/reactor', 'common/utils', 'common/msg', 'common/ua']
SCRIPTS = [[dict(op='eq', t='DiagnosticInfo', a=[64, 1, 5, 0, 0, 0], b=[0])]]
CHECK = '''
ok = S[0][0]["ab"] == 0 and S[0][0]["aa"] == 1
'''
