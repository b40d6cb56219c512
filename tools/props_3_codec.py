N = ('The encoding is specified in spec/UaBinary.tla as one decoder and one encoder over a table of types; TLC checks there that both are inverse and that no proper prefix of an encoding decodes (%s). '
     'Every value TLC visits and seeded random data, valid and damaged, go through the real codec (harness/co_drv.cpp, address sanitizer); TLC compares value, bytes consumed, success and re-encoding. '
     'Left open: XML elements, array dimensions and nested values in variants, reserved flag bits.')
SRC = 'src/app/common/ua/common/'
FILES = [SRC + 'OpcUaBinaryCodec.cpp', SRC + 'OpcUaBinaryCodec.hpp', SRC + 'OpcUaSduBuffer.cpp', SRC + 'types/Variant.hpp', SRC + 'types/StructType.hpp']
PROPS = [
 dict(id='C01', title='OPC UA built-in types follow the standard binary encoding both ways',
  statement='For every value of every OPC UA built-in type (numbers, strings, identifiers in all their forms, localized texts, diagnostics, variants holding single values or arrays, data values), encoding produces exactly the bytes of the OPC UA binary encoding with the shortest form of an identifier. Decoding any valid encoding, shortest or not, gives back exactly the value and consumes exactly its bytes. A null string or array decodes as an empty one and an empty string is encoded as null.',
  quantifier=dict(over=['inputs'], text='all values and all valid encodings of the built-in types, alone, in arrays and in variants'),
  why_tests_cant='The tests only encode and decode a few values with the same code, so a mistake made in both directions or at a boundary between identifier forms is invisible.',
  anchors=dict(files=FILES, mechanism=[dict(name='stream operators per type', where=SRC + 'OpcUaBinaryCodec.cpp'), dict(name='encoding masks', where=SRC + 'types/')], observe_at=['bytes and values at the codec']),
  claim=dict(note=N % 'boundary values of every type')),
 dict(id='C02', title='OPC UA messages carry their fields in protocol order and type ids',
  statement='Every OPC UA message and structure the program knows (transport headers, hello, acknowledge, error, security and sequence headers, open and close channel, get endpoints, create, activate and close session, read; requests and responses) is encoded with all its fields in the order and types the protocol prescribes, and decoded likewise. A message put into a container carries the type id of that message. Decoding an encoded message gives back every field unchanged.',
  quantifier=dict(over=['inputs'], text='all field values of all messages, with arrays of any length that fits'),
  why_tests_cant='There are no tests of the messages as wholes; the same swap in encoder and decoder round-trips.',
  anchors=dict(files=FILES + [SRC + 'msg/', SRC + 'types/'], mechanism=[dict(name='stream operators per message', where=SRC + 'OpcUaBinaryCodec.cpp'), dict(name='message containers', where=SRC + 'msg/UaMsgCont.hpp')], observe_at=['bytes and fields at the codec']),
  claim=dict(note=N % 'one field at a time for every message')),
 dict(id='C03', title='Malformed or oversized OPC UA data is refused without touching other memory',
  statement='Decoding data that is cut short, announces more than is there, has a negative length other than null, or an unknown identifier or value kind fails with an exception, and never returns a value, reads beyond the received bytes or allocates for what was not received. Encoding more than the 4096 byte buffer holds fails with an exception and writes nothing beyond the buffer. Neither crashes the process.',
  quantifier=dict(over=['inputs'], text='all byte strings up to the buffer size as any type; all values however large'),
  why_tests_cant='The tests decode only what the encoder produced.',
  anchors=dict(files=FILES, mechanism=[dict(name='checked lengths', where=SRC + 'OpcUaBinaryCodec.cpp'), dict(name='bounded buffer', where=SRC + 'OpcUaSduBuffer.cpp')], observe_at=['exceptions, buffer size, address sanitizer']),
  claim=dict(note=N % 'all prefixes of the encodings')),
 dict(id='C04', title='Two OPC UA values are equal exactly when everything in them is',
  statement='Comparing two OPC UA values of the same built-in type (numbers, strings, byte strings, guids, node identifiers and expanded ones, names, localized texts, extension objects, diagnostics with inner diagnostics at any depth, variants holding single values or arrays with or without dimensions, data values, and arrays of these) says equal when every part of them is the same, and different when any part differs, is of another kind or is there in only one of them. The answer does not depend on which of the two is asked, nor on what was in memory before. In a localized text an empty part counts as a part that is not there; floating point numbers compare as numbers.',
  quantifier=dict(over=['inputs'], text='all pairs of values of every built-in type, alone, in arrays and in variants'),
  why_tests_cant='The tests compare values that should be equal; a part left out of a comparison makes more values equal and goes unnoticed, and hides what the round-trip tests are for.',
  anchors=dict(files=[SRC + 'types/'], mechanism=[dict(name='comparison operators per type', where=SRC + 'types/'), dict(name='comparison of optional parts', where=SRC + 'types/StructType.hpp')], observe_at=['result of the comparison']),
  claim=dict(note='Same in spec/UaBinary.tla defines when two values are the same; TLC checks that it is symmetric and, numbers apart, that values are the same exactly when their encodings are (pairs of boundary values of every type). '
     'Every pair TLC visits and seeded random pairs, equal or different in one place, are decoded by the real codec into memory filled with different garbage and compared both ways and with themselves (harness/co_drv.cpp, address sanitizer); TLC judges the answers. '
     'Left open: values with more than one encoding, such as an empty body of an extension object.')),
]
