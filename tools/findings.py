import json
D=[
('range-elem','C09 C10','numbers outside the range of a small integer or float32 type wrap instead of being refused when they occur in a list, a map, a document of a scalar type of its own, or behind a pointer to a pointer or of a named pointer type (uint8 list [256] becomes [0])'),
('range-low','C09 C10','members of type int8, int16, int32 and float32 (and types defined from them) are only checked against the upper limit: a number below the lower limit wraps (int8 member -129 becomes 127)'),
('float-inf','C09 C10','a number beyond the range of float64 (1e309) is accepted as infinity, which cannot be encoded again'),
('elem-parse','C08 C10 C12 C13 C18 C23 C25','an ill-formed time or UUID inside a list or array is accepted silently (the parse error is dropped)'),
('lost-path','C10 C11 C23 C24 C25','an error inside a list of strings, times, UUIDs or of lists names only the position, not the member that holds the list'),
('empty-step','C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C15 C16 C18 C21 C22 C23 C24 C25','the path of an error inside a struct embedded without a name has an empty step for the struct (e..x)'),
('bytes-bare','C08 C10 C24 C25','an error in a member of a binary type (kind, base64, length) is returned without path and without its cause'),
('bytes-long','C08 C10 C12 C13 C18 C24','base64 text longer than a byte array makes decoding panic (index out of range) instead of failing'),
('named-null','C01 C02 C03 C04 C05 C06 C07 C08 C09 C11 C12 C13 C14 C15 C16 C17 C18 C22 C23 C24 C25','null for a member whose type is a named list, map, array, pointer or bytes type is refused (named bytes types: clears the member, and satisfies required); so is null as a whole document for a type defined from a tagged list or array type, which writes its nil value as null'),
('list-reuse','C04 C12 C13 C15 C16 C17 C18 C22 C23 C24 C25','decoding a list over one that holds objects or maps decodes the elements over the old ones in the list\'s memory: members the document does not name keep the values of the old element'),
('top-replace','C04 C07 C11 C12 C13 C15 C16 C22 C25','decoding into a used object of a type defined from a tagged struct, of a struct tagged transit, or into a used map type, first discards the old content instead of merging'),
('array-zero','C02 C03 C14 C25 C24','IsZero of a struct with an array member is never true, and IsZero of an array of structs or times is true only when no element is zero'),
('nil-time','C01 C02 C03 C13 C17 C18 C23','a nil pointer to a time is written as the zero time instead of null'),
('null-comma','C01 C02 C03 C12 C13 C15 C16 C17 C18','a nil pointer as the first member written is encoded as null without the comma that must follow'),
('nil-panic','C01 C02 C03 C12 C13 C15 C16 C17 C18 C22 C23 C24 C25','encoding a nil pointer to a UUID, to a tagged array type, or a pointer to a nil pointer to a time or UUID panics'),
('root-path','C10 C21 C25','the path of an error inside a value of a scalar type of another package ends in "(root)" (f.0.(root))'),
('map-reset','C01 C13 C14 C16 C17 C24 C25','Reset of a tagged map type keeps the keys and only empties the entries'),
]
F=[('be31220','C02 C05','fields tagged json:"-" were written and counted as members'),
('85ca74e','C23 C07','layout and default tags were cut at the first comma'),
('56d9c51','C19 C25','a chain of defined types (type A B; type B int16) as a member crashed the generator'),
('9985ea0','C18','a nil pointer to a tagged struct without fields encoded as {} and not as null'),
('6086372','C21','the package name was taken from the last element of the import path'),
('193ec83','C21 C22','an aliased import could not be inlined, or the struct of another package of the same name was inlined'),
('e9f098e','C22','types behind pointers, lists and maps in an inlined struct of another package were not qualified: the generated code did not compile'),
('969d3be','C20','the generator found the module only when it ran in the directory of the module'),
('a633459','C20','a go file with errors anywhere in the module (such as an output of the generator that was cut short) made the generator fail'),
('4deee56','C21','a type of another package was searched for in every package of the module, not in the imported one'),
('665381f','C20 C21','imports of one source file leaked into the next one generated in the same process; two names for one import path were confused'),
('fdf865e','C21','an aliased import of time or uuid was ignored: the generated code did not compile'),
('e1744e8','C02 C07','only the first option of a json tag counted: json:"a,omitempty,required"'),
('f8d8788','C02','a struct tag written as a quoted string was not read: the field got its own name and no options'),
('5d24d5f','C02 C04','a field whose json tag has options and no name was written under the empty name'),
('aeee190','C07 C19','a string default with a backslash or a control character was pasted into the generated code unquoted: it did not compile'),
('e5540d5','C19','an element tagged in a group of declarations got the methods (and rules) of a list of it that stands before it'),
('8820748','C19','an untagged type that several lists need got the methods of the first of them only: the generated code did not compile'),
('d769d66','C23','a layout given by the name of a constant of package time was written as that name instead of the time'),
('98ca51e','C21 C22 C19','a struct inlined from a package that uses types of other packages: their qualifiers were read as those of the inlining file, and types in a second file of its package were not found')]
C=[('shadow','C19 C21','a package imported under a name the generated code uses for something else (s, v, err, fastjson, fmt, bytes, jwriter; for some kinds of member i, key, l, math, o, result, strconv, value) makes the generated code fail to compile'),
('foreign-time','C19 C21','a type of another package that is named Time or UUID is taken for time.Time or uuid.UUID, and the generated code does not compile')]
json.dump({'findings':[dict(id=i,kind='construct',properties=p.split(),what=w,where='spec/VJCatalog.tla, the declarations marked dev = "%s"'%i) for i,p,w in C]+[dict(id=i,kind='deviation',properties=p.split(),what=w,where='spec/VJSem.tla, deviation "%s", states exactly which inputs and values are concerned'%i) for i,p,w in D],
 'fixed':['fixed: property=%s %s %s'%(p.split()[0],c,w) for c,ps,w in F for p in [ps]]},open('/verif/known_findings.json','w'),indent=1,ensure_ascii=False)
