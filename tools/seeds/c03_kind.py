ID, PROPERTY = 'c03-unknown-identifier-kind', 'C03'
NEEDS = 'a node identifier whose kind the encoding does not define'
BREAKS = 'it is taken for a null identifier and what follows is read as the next field'
EDITS = [('src/app/common/ua/common/OpcUaBinaryCodec.cpp', '''        s >> nodeId.namespaceIndex >> emplace<Opaque>(nodeId.value);
    }
    break;
    default:
        throw std::runtime_error("Unexpected encoding");''', '''        s >> nodeId.namespaceIndex >> emplace<Opaque>(nodeId.value);
    }
    break;
    default:
        LM(GEN, LE, "Unexpected encoding: %u", (unsigned)encByte);
        break;''')]
DRIVER, LIBS = 'co_drv', ['common/logger', 'common/reactor', 'common/utils', 'common/msg', 'common/ua']
SCRIPTS = [[dict(op='dec', t='NodeId', b=[6, 0, 1, 5, 0, 0, 0], n=1)]]
CHECK = '''
ok = S[0][0]["r"] == "fail"
'''
