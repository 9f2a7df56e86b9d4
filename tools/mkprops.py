import json
D,PE,B,PR,API,MOD,C='src/decode.rs','src/proto.pest','src/context/builder.rs','src/context/parse.rs','src/context/api.rs','src/context/modify_api.rs','src/context/mod.rs'
L=[]
def P(id,title,st,over,q,why,files,mech,obs):
    assert len(title)<=80,(id,len(title))
    L.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))
P('C01','Decoding and encoding never crash, hang or run out of bounds',
 'Decoding any byte string against any message type of a context terminates with a value and never panics, overflows, loops or asks for memory out of all proportion to the input. Encoding any value obtained that way, or put together from the public value types in line with the schema, never panics either.',
 ['inputs'],'every byte string, every schema, every value',
 'The tests decode a handful of well-formed messages; crashes hide in overlong varints, odd tags, extreme lengths and mismatched types.',
 [D],[('message decoding loop',D+' MessageInfo::decode'),('varint reader','%s bytes extension'%D),('packed array decoding',D+' decode_packed'),('encoders',D+' encode / encode_tag')],
 ['MessageInfo::decode','MessageValue::encode'])
P('C02','Re-encoding a decoded message gives back a faithful message',
 'Encoding the value decoded from any bytes and decoding the result again gives the same fields, and encoding that once more gives the same bytes. When the input has minimal varints, values in the range of their types and valid UTF-8 strings, the first encoding is exactly the input, including unknown, mistyped and truncated parts.',
 ['inputs'],'every byte string, every schema',
 'One test re-encodes a few fields; equality has to hold for every mix of known, unknown, truncated and malformed data.',
 [D],[('encoding of every value kind',D+' Value::encode, UnknownValue::encode'),('kept garbage and incomplete bytes',D+' MessageValue.garbage, Value::Incomplete')],
 ['MessageInfo::decode','MessageValue::encode'])
P('C03','Values put together by hand survive encoding and decoding',
 'Encoding a message value whose fields have the types the schema declares and decoding the bytes with the same schema gives an equal value, for every type, every value, every multiplicity and every field number. The order and the number of the fields are kept.',
 ['inputs'],'every scalar value of every type, every field number up to 2^29-1, repeated, packed, enum, nested and raw values',
 'The tests round-trip few constants; the limits of each integer type, the special floats and the size classes of tags are not sampled.',
 [D],[('encode and decode of each scalar type',D+' Value::encode, decode_value'),('zigzag',D+' into_signed / into_unsigned'),('tags',D+' encode_tag')],
 ['MessageValue::encode','MessageInfo::decode'])
P('C04','Every scalar type is decoded as the protobuf wire format defines it',
 'For each scalar type, the decoded value is the one the wire format assigns to the bytes: varints modulo their width with sign extension and zigzag where declared, fixed types little-endian, booleans by being non-zero, strings and bytes by their length prefix. The bytes after the value are decoded as if they stood alone.',
 ['inputs'],'every scalar type, every encoding of its value (including non-minimal ones), every field number',
 'A few constants per type are tested; sign extension, zigzag and overlong varints need every bit pattern.',
 [D],[('scalar decoding',D+' decode_scalar / ValueType::decode_maybe'),('zigzag',D)],['MessageInfo::decode'])
P('C05','Every value is encoded as the protobuf wire format defines it',
 'The bytes a value encodes to are the tag of its field number and wire type followed by the canonical encoding of its type: minimal varints, sign-extended or zigzag where declared, little-endian fixed values, length-prefixed strings, packed arrays and nested messages. Nothing else is written.',
 ['inputs'],'every value of every type, every field number, nesting up to the bound',
 'A round trip cannot see an encoding error that the decoder mirrors, and the tests compare few byte strings.',
 [D],[('encoders',D+' encode functions'),('length prefixes',D)],['MessageValue::encode'])
P('C06','Unknown fields are kept and never disturb the known ones',
 'A field the schema does not declare decodes to an unknown value that holds exactly its wire data, whatever its number and wire type, and the fields around it decode as without it. Decoding a concatenation of complete messages gives the concatenated fields, and passing a message through a schema that lacks fields loses nothing.',
 ['inputs'],'every field number, wire type and payload of the unknown field, every neighbour',
 'The documentation example has one unknown string; the other wire types, wide tags and reserved wire types are untested.',
 [D],[('unknown values',D+' decode_unknown, UnknownValue')],['MessageInfo::decode','MessageValue::encode'])
P('C07','Truncated messages keep every complete field and all remaining bytes',
 'Decoding the first k bytes of a message gives exactly the fields that are complete within them, followed by at most one incomplete field or garbage that holds the rest. No byte is dropped, duplicated or moved, at whichever position the message is cut.',
 ['inputs','crash_points'],'every message up to the bound, every cut position',
 'Error recovery is the point of this library, and the tests cut one message at one position.',
 [D],[('incomplete values',D+' Value::Incomplete'),('garbage',D+' MessageValue.garbage')],['MessageInfo::decode'])
P('C08','A wire type that does not match the declared type is reported as unknown',
 'A field whose wire type does not fit its declared type decodes to the unknown value an undeclared field of that number would, with the wire data as it was received. The fields before and after it, and the enclosing message, decode normally.',
 ['inputs'],'every declared type and multiplicity against every wire type and payload',
 'There are some 500 combinations of declared and received types with arbitrary payloads, and no test has a mismatch.',
 [D],[('fallback to unknown values',D+' decode_maybe / decode_unknown')],['MessageInfo::decode'])
P('C09','Packed arrays decode to their elements and never reach beyond their extent',
 'A packed field decodes to exactly the elements its payload holds, in order. If the payload does not consist of whole elements, the field is kept as an incomplete value with its bytes unchanged; either way decoding continues right behind the declared extent.',
 ['inputs'],'every packable type, every payload up to the bound',
 'One test decodes one well-formed array; the malformed ones and the other types are untested.',
 [D],[('packed decoding',D+' decode_packed')],['MessageInfo::decode'])
P('C10','Nested messages decode from exactly their own bytes',
 'A nested message decodes to what its payload decodes to on its own with its declared type, at any depth. Its content, malformed or not, affects neither its siblings nor what surrounds it.',
 ['inputs'],'every payload up to the bound, every depth and number of siblings up to the bound',
 'The tests nest well-formed messages; isolation matters when the nested bytes are malformed or truncated.',
 [D],[('nested decoding',D+' ValueType::Message')],['MessageInfo::decode'])
P('C11','Parsing schema text never crashes',
 'Parsing any set of schema texts ends with a context or with an error, and never panics, whatever the texts contain.',
 ['inputs','programs'],'every text that differs from a valid schema in a window of arbitrary characters at any grammatical position',
 'The texts come from users at run time, and the tests only parse well-formed ones; grammar and tree building have to agree on every input.',
 [PE,PR,B],[('grammar',PE),('tree building',PR),('resolution',B)],['Context::parse'])
P('C12','Literals have the value the proto3 language gives them, or are rejected',
 'Integer literals in decimal, octal and hexadecimal, floats, strings with escapes and words denote the values the language specification gives them, wherever a literal can stand. Literals that are malformed or out of range are reported as a syntax error and never read as a different value.',
 ['inputs','programs'],'every literal up to the bound, in field numbers, enum values and option values of every kind of declaration',
 'Each literal form has its own conversion code; the tests have a few decimal numbers and plain strings.',
 [PE,PR],[('literal rules',PE+' intLit, floatLit, strLit'),('conversions',PR+' parse_int_literal, parse_float_literal, parse_string_literal')],['Context::parse','MessageField::options','MessageField::number','EnumField::value'])
P('C13','Type names resolve by the protobuf scoping rules',
 'A type name in a field or an operation refers to the declaration found in the innermost enclosing scope (message, enclosing messages, package, enclosing packages) that has it; a name with a leading dot is absolute. The result depends on neither the order of declarations nor the file they are in, and a name that refers to nothing is an error.',
 ['programs','configurations'],'every assignment of names to nested messages, enums and packages up to the bound, every reference',
 'Two tests resolve names across packages; shadowing only shows for particular coincidences of names.',
 [B,PR],[('scope walk',B+' TypeIndex / resolve'),('references',B)],['MessageField::field_type','Rpc::input','Rpc::output'])
P('C14','The context holds exactly what the files declare',
 'Every declared package, message, enum, service, field, oneof, value and operation can be found by its full name or number with the declared attributes, and its links to its parent, members and types are consistent. Nothing that was not declared can be found.',
 ['programs'],'all names and numbers of the declarations within the shapes and lengths of the bound',
 'Lookup goes through several indexes whose agreement the tests check for a handful of fixed names.',
 [B,API,C],[('index building',B),('lookups',API)],['Context::get_type','Context::get_message','Context::get_service','MessageInfo::get_field','MessageInfo::get_field_by_name','MessageInfo::get_oneof'])
P('C15','Schemas with duplicate, missing or mistyped names are rejected with the reason',
 'Parsing fails when a full name is declared twice, when a reference names nothing, or when a reference names something of the wrong kind, and the error names the offending item and kind. Parsing succeeds when none of this is the case.',
 ['programs'],'every assignment of names within the shapes of the bound',
 'No test covers an error; which one is due depends on coincidences of names across scopes and files.',
 [B,C],[('duplicate check',B),('kind checks',B)],['Context::parse'])
P('C16','Contexts built by hand keep their names unique and their links consistent',
 'Any sequence of insertions of packages, types, fields, oneofs and enum values either takes effect completely or reports the conflict and changes nothing. After each of them, lookups, references and memberships agree, and contexts built by hand equal those parsed from the same declarations.',
 ['histories'],'every sequence of insertions up to the bound, every choice of names and numbers',
 'The tests build one context by hand without a conflict; a half-applied insertion only shows after particular histories.',
 [MOD,API],[('insertion',MOD+' insert_*'),('members',MOD+' add_field, add_oneof, add_value')],['Context::insert_message','Context::insert_enum','Context::insert_package','MessageInfo::add_field','MessageInfo::add_oneof','EnumInfo::add_value'])
P('C17','Multiplicity and type of a field follow its declaration',
 'A field is single, optional, repeated or packed as its keyword, type and options say: a repeated field of a packable scalar type is packed unless its packed option is false, and other repeated fields are not packed. Its type is the declared one, and words that merely resemble scalar types name user types.',
 ['programs'],'every keyword, every type, every name and value of the options up to the bound',
 'It is the product of keywords, types and options; the tests have a few of the combinations.',
 [B,PR],[('multiplicity',B+' / '+PR),('scalar type names',PE)],['MessageField::multiplicity','MessageField::field_type'])
P('C18','Options are kept with their names, values and order, on what they belong to',
 'The options of fields, enum values, oneofs, services and operations can be read from the context with the name, value and order they were written in. None is lost, duplicated, or attached to another declaration.',
 ['programs'],'every option name and value form within the bound, every kind of declaration',
 'One test reads options of one field.',
 [PR,B],[('option parsing',PR+' parse_option'),('option storage',B)],['MessageField::options','Oneof::options','Service::options','Rpc::options','EnumField::options'])
P('C19','The order and grouping of declarations and files do not matter',
 'The same declarations give the same types, fields, operations and links in whatever order they are written and however they are distributed over files of their packages.',
 ['programs','configurations'],'every order of the declarations and every distribution over files within the bound, all names',
 'The tests have one order each; forward and mutual references depend on it.',
 [B],[('two passes',B+' index, then resolve')],['Context::parse'])
P('C20','White space and comments between tokens do not matter',
 'Any white space and comments between two tokens, at the start and at the end of a file, or none where the tokens do not run together, leave the parsed context unchanged.',
 ['programs'],'every separator up to the bound in every gap between tokens',
 'Implicit white space is easily missing at one position of a grammar, and the tests are formatted alike.',
 [PE,PR],[('implicit white space and comments',PE+' WHITESPACE, COMMENT')],['Context::parse'])
P('C21','Names may be or begin with words of the language',
 'Every identifier can be used as a name wherever the language allows names: for messages, fields, enums, values, oneofs, services, operations, packages and types, including identifiers that are or begin with a keyword or a scalar type name. The name in the context is the one written.',
 ['programs'],'every keyword, every identifier that extends one by a character, every short identifier, at every position of a name',
 'Keywords glued to names only go wrong for particular words at particular positions, and the tests use ordinary names.',
 [PE,PR],[('keyword rules',PE)],['Context::parse'])
P('C22','Schema texts are accepted exactly when they follow the grammar',
 'A schema text that follows the proto3 grammar, within the supported language, is not a syntax error. A text that does not follow it - with tokens missing, repeated, exchanged or out of place - is a syntax error and never accepted as something else.',
 ['programs'],'every text that differs from a valid one in a token, a name or a character at any position',
 'The tests only parse valid texts; a missing or superfluous token that is silently accepted shows nowhere.',
 [PE,PR],[('grammar',PE),('tree building',PR)],['Context::parse'])
P('C23','Results depend on the arguments alone and not on earlier operations',
 'Decoding, encoding, looking up and parsing give the same result for the same arguments whatever was decoded, encoded, looked up or parsed before, with this context or another one, successfully or not. None of them changes a context, and contexts parsed from the same text are equal and behave alike.',
 ['histories','inputs'],'every pair of messages, of sets of files and of lookups within the bounds, in turns',
 'Each test does one thing once; state that leaks from one operation into the next only shows for particular pairs of them.',
 [D,B,PR,API],[('decoding with a borrowed context',D+' MessageInfo::decode'),('caches of a build',B+' BuildCache'),('indexes of names and numbers',API)],
 ['MessageInfo::decode','MessageValue::encode','Context::parse','Context::get_type','MessageInfo::get_field'])
P('C24','Time and memory stay in proportion to the data',
 'Decoding any bytes takes time and memory at most proportional to their number, whatever the lengths in them announce and however the fields are nested, and encoding the result does too (apart from a factor for the depth of nesting). Parsing a schema takes at most quadratic time and memory.',
 ['inputs','scale'],'every message made of repetitions of a part with free content, every announced length, every shape of schema within the bounds',
 'Tests use small messages and look at the results; superfluous work and allocations are invisible until someone sends the wrong input.',
 [D,PE,B],[('decoding loop',D+' MessageInfo::decode'),('packed arrays',D+' Value::decode_packed, PackedArray::encode'),('length prefixes',D+' read_string, read_bytes, decode_unknown'),('grammar without backtracking over nested parts',PE)],
 ['MessageInfo::decode','MessageValue::encode','Context::parse'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
