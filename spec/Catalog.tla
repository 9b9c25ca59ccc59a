------------------------------- MODULE Catalog -------------------------------
(***************************************************************************)
(* Functions of each add-on: <<name, function that it is an alias of>> (an *)
(* empty name for the function itself). When several add-ons that are on   *)
(* provide a name, the last one of Groups provides it.                     *)
(***************************************************************************)
EXTENDS Sequences
Always == {"and", "call", "eq", "ge", "gt", "html", "index", "js", "le", "len", "lt", "ne", "not", "or", "print", "printf", "println", "slice", "urlquery"}
Groups == <<"Sprig", "Math", "Data", "Logging", "Runtime", "Utils", "Net", "OS", "Git">>

SprigFuncs == {<<"GUID","uuidv4">>, <<"abbrev","">>, <<"abbrevboth","">>, <<"add","addSprig">>, <<"add1","">>, <<"add1f","">>, <<"addSprig","">>,
  <<"addf","">>, <<"adler32sum","">>, <<"ago","">>, <<"all","">>, <<"any","">>, <<"append","appendSprig">>, <<"appendSprig","">>, <<"atoi","">>,
  <<"b32dec","">>, <<"b32enc","">>, <<"b64dec","">>, <<"b64enc","">>, <<"base","">>, <<"bcrypt","">>, <<"biggest","maxSprig">>,
  <<"biggestSprig","maxSprig">>, <<"buildCustomCert","">>, <<"camelcase","">>, <<"cat","">>, <<"ceil","ceilSprig">>, <<"ceilSprig","">>,
  <<"chunk","">>, <<"clean","">>, <<"coalesce","">>, <<"compact","">>, <<"concat","concatSprig">>, <<"concatSprig","">>,
  <<"contains","containsSprig">>, <<"containsSprig","">>, <<"date","">>, <<"dateInZone","">>, <<"dateModify","">>, <<"date_in_zone","dateInZone">>,
  <<"date_modify","">>, <<"decryptAES","">>, <<"deepCopy","">>, <<"deepEqual","">>, <<"default","">>, <<"derivePassword","">>, <<"dict","dictSprig">>,
  <<"dictSprig","">>, <<"dig","">>, <<"dir","">>, <<"div","divSprig">>, <<"divSprig","">>, <<"divf","">>, <<"duration","">>, <<"durationRound","">>,
  <<"empty","">>, <<"encryptAES","">>, <<"env","">>, <<"expandenv","">>, <<"ext","">>, <<"fail","">>, <<"first","">>, <<"float64","">>,
  <<"floor","floorSprig">>, <<"floorSprig","">>, <<"fromJson","fromJsonSprig">>, <<"fromJsonSprig","">>, <<"genCA","">>, <<"genCAWithKey","">>,
  <<"genPrivateKey","">>, <<"genSelfSignedCert","">>, <<"genSelfSignedCertWithKey","">>, <<"genSignedCert","">>, <<"genSignedCertWithKey","">>,
  <<"get","getSprig">>, <<"getHostByName","">>, <<"getSprig","">>, <<"guid","uuidv4">>, <<"has","hasSprig">>, <<"hasKey","hasKeySprig">>,
  <<"hasKeySprig","">>, <<"hasPrefix","">>, <<"hasSprig","">>, <<"hasSuffix","">>, <<"hello","">>, <<"htmlDate","">>, <<"htmlDateInZone","">>,
  <<"htpasswd","">>, <<"indent","indentSprig">>, <<"indentSprig","">>, <<"initial","initialSprig">>, <<"initialSprig","">>, <<"initials","">>,
  <<"int","intSprig">>, <<"int64","">>, <<"intSprig","">>, <<"isAbs","">>, <<"join","">>, <<"kebabcase","">>, <<"keys","keysSprig">>,
  <<"keysSprig","">>, <<"kindIs","">>, <<"kindOf","">>, <<"kindis","kindIs">>, <<"kindof","kindOf">>, <<"last","">>, <<"list","listSprig">>,
  <<"listSprig","">>, <<"lower","">>, <<"max","maxSprig">>, <<"maxSprig","">>, <<"maxf","">>, <<"merge","mergeSprig">>, <<"mergeOverwrite","">>,
  <<"mergeSprig","">>, <<"min","minSprig">>, <<"minSprig","">>, <<"minf","">>, <<"mod","modSprig">>, <<"modSprig","">>, <<"mul","mulSprig">>,
  <<"mulSprig","">>, <<"mulf","">>, <<"nindent","nindentSprig">>, <<"nindentSprig","">>, <<"nospace","">>, <<"now","">>, <<"omit","omitSprig">>,
  <<"omitSprig","">>, <<"osBase","">>, <<"osClean","">>, <<"osDir","">>, <<"osExt","">>, <<"osIsAbs","">>, <<"pick","pickSprig">>, <<"pickSprig","">>,
  <<"pluck","pluckSprig">>, <<"pluckSprig","">>, <<"plural","">>, <<"prepend","prependSprig">>, <<"prependSprig","">>, <<"push","pushSprig">>,
  <<"pushSprig","">>, <<"quote","">>, <<"randAlpha","">>, <<"randAlphaNum","">>, <<"randAscii","">>, <<"randBytes","">>, <<"randInt","">>,
  <<"randNumeric","">>, <<"regexFind","">>, <<"regexFindAll","">>, <<"regexMatch","">>, <<"regexQuoteMeta","">>, <<"regexReplaceAll","">>,
  <<"regexReplaceAllLiteral","">>, <<"regexSplit","">>, <<"repeat","repeatSprig">>, <<"repeatSprig","">>, <<"replace","">>, <<"rest","restSprig">>,
  <<"restSprig","">>, <<"reverse","reverseSprig">>, <<"reverseSprig","">>, <<"round","">>, <<"semver","">>, <<"semverCompare","">>, <<"seq","">>,
  <<"set","setSprig">>, <<"setSprig","">>, <<"sha1sum","">>, <<"sha256sum","">>, <<"sha512sum","">>, <<"shuffle","">>, <<"slice","sliceSprig">>,
  <<"sliceSprig","">>, <<"snakecase","">>, <<"sortAlpha","">>, <<"split","">>, <<"splitList","">>, <<"splitn","">>, <<"squote","">>,
  <<"sub","subSprig">>, <<"subSprig","">>, <<"subf","">>, <<"substr","">>, <<"swapcase","">>, <<"ternary","ternarySprig">>, <<"ternarySprig","">>,
  <<"title","">>, <<"toDate","">>, <<"toDecimal","">>, <<"toJson","toJsonSprig">>, <<"toJsonSprig","">>, <<"toPrettyJson","toPrettyJsonSprig">>,
  <<"toPrettyJsonSprig","">>, <<"toRawJson","">>, <<"toString","">>, <<"toStrings","">>, <<"trim","">>, <<"trimAll","">>, <<"trimPrefix","">>,
  <<"trimSuffix","">>, <<"trimall","trimAll">>, <<"trunc","truncSprig">>, <<"truncSprig","">>, <<"tuple","listSprig">>, <<"tupleSprig","listSprig">>,
  <<"typeIs","">>, <<"typeIsLike","">>, <<"typeOf","">>, <<"typeis","typeIs">>, <<"typeisLike","typeIsLike">>, <<"typeof","typeOf">>,
  <<"uniq","uniqSprig">>, <<"uniqSprig","">>, <<"unixEpoch","">>, <<"unset","unsetSprig">>, <<"unsetSprig","">>, <<"until","untilSprig">>,
  <<"untilSprig","">>, <<"untilStep","">>, <<"untitle","">>, <<"upper","">>, <<"urlJoin","">>, <<"urlParse","">>, <<"uuid","uuidv4">>,
  <<"uuidv4","">>, <<"values","valuesSprig">>, <<"valuesSprig","">>, <<"without","withoutSprig">>, <<"withoutSprig","">>, <<"wrap","wrapSprig">>,
  <<"wrapSprig","">>, <<"wrapWith","">>}
MathFuncs == {<<"abs","">>, <<"absolute","abs">>, <<"acos","">>, <<"acosh","">>, <<"add","">>, <<"arcCosine","acos">>, <<"arcCosinus","acos">>,
  <<"arcHyperbolicCosine","acosh">>, <<"arcHyperbolicCosinus","acosh">>, <<"arcHyperbolicSine","asinh">>, <<"arcHyperbolicSinus","asinh">>,
  <<"arcHyperbolicTangent","atanh">>, <<"arcSine","asin">>, <<"arcSinus","asin">>, <<"arcTangent","atan">>, <<"arcTangent2","atan2">>, <<"asin","">>,
  <<"asinh","">>, <<"atan","">>, <<"atan2","">>, <<"atanh","">>, <<"average","avg">>, <<"avg","">>, <<"band","">>, <<"bclear","">>,
  <<"biggest","max">>, <<"bitwiseAND","band">>, <<"bitwiseClear","bclear">>, <<"bitwiseOR","bor">>, <<"bitwiseXOR","bxor">>, <<"bor","">>,
  <<"bxor","">>, <<"cbrt","">>, <<"ceil","">>, <<"cos","">>, <<"cosh","">>, <<"cosine","cos">>, <<"cosinus","cos">>, <<"dec","">>,
  <<"decimal","dec">>, <<"deg","">>, <<"degree","deg">>, <<"dim","">>, <<"div","">>, <<"divide","div">>, <<"exp","">>, <<"exp2","">>, <<"expm1","">>,
  <<"exponent","exp">>, <<"exponent2","exp2">>, <<"firstBessel0","j0">>, <<"firstBessel1","j1">>, <<"firstBesselN","jn">>, <<"floor","">>,
  <<"frexp","">>, <<"gamma","">>, <<"hex","">>, <<"hexa","hex">>, <<"hexaDecimal","hex">>, <<"hyperbolicCosine","cosh">>,
  <<"hyperbolicCosinus","cosh">>, <<"hyperbolicSine","sinh">>, <<"hyperbolicSinus","sinh">>, <<"hyperbolicTangent","tanh">>, <<"hypot","">>,
  <<"hypotenuse","hypot">>, <<"ilogb","">>, <<"int","">>, <<"int64","floor">>, <<"integer","int">>, <<"integer64","floor">>, <<"isInf","">>,
  <<"isInfinity","isInf">>, <<"isNaN","">>, <<"j0","">>, <<"j1","">>, <<"jn","">>, <<"ldexp","">>, <<"leftShift","lshift">>, <<"lgamma","">>,
  <<"log","">>, <<"log10","">>, <<"log1p","">>, <<"log2","">>, <<"logb","">>, <<"lshift","">>, <<"max","">>, <<"maximum","max">>, <<"min","">>,
  <<"minimum","min">>, <<"mod","">>, <<"modf","">>, <<"modulo","mod">>, <<"mul","">>, <<"multiply","mul">>, <<"nextAfter","">>, <<"pow","">>,
  <<"pow10","">>, <<"power","pow">>, <<"power10","pow10">>, <<"prod","mul">>, <<"product","mul">>, <<"quotient","div">>, <<"rad","">>,
  <<"radian","rad">>, <<"rem","">>, <<"remainder","rem">>, <<"rightShift","rshift">>, <<"roundDown","floor">>, <<"roundUp","ceil">>,
  <<"rounddown","floor">>, <<"roundup","ceil">>, <<"rshift","">>, <<"secondBessel0","y0">>, <<"secondBessel1","y1">>, <<"secondBesselN","yn">>,
  <<"signBit","">>, <<"sin","">>, <<"sincos","">>, <<"sine","sin">>, <<"sineCosine","sincos">>, <<"sinh","">>, <<"sinus","sin">>,
  <<"sinusCosinus","sincos">>, <<"smallest","min">>, <<"sqrt","">>, <<"squareRoot","sqrt">>, <<"sub","">>, <<"subtract","sub">>, <<"sum","add">>,
  <<"tan","">>, <<"tangent","tan">>, <<"tanh","">>, <<"to","">>, <<"trunc","">>, <<"truncate","trunc">>, <<"until","">>, <<"y0","">>, <<"y1","">>,
  <<"yn","">>}
DataFuncs == {<<"DATA","data">>, <<"HCL","hcl">>, <<"JSON","json">>, <<"String","">>, <<"TFVARS","hcl">>, <<"YAML","yaml">>, <<"append","">>,
  <<"array","">>, <<"bool","">>, <<"char","">>, <<"contains","">>, <<"containsStrict","">>, <<"content","">>, <<"data","">>, <<"delete","unset">>,
  <<"dict","">>, <<"dictionary","dict">>, <<"extract","">>, <<"find","">>, <<"findStrict","">>, <<"fromDATA","data">>, <<"fromData","data">>,
  <<"fromHCL","hcl">>, <<"fromHcl","hcl">>, <<"fromJSON","json">>, <<"fromJson","json">>, <<"fromTFVARS","hcl">>, <<"fromTFVars","hcl">>,
  <<"fromYAML","yaml">>, <<"fromYaml","yaml">>, <<"get","">>, <<"has","contains">>, <<"hasKey","">>, <<"hasStrict","containsStrict">>, <<"hcl","">>,
  <<"ifUndef","undef">>, <<"initial","">>, <<"intersect","">>, <<"isEmpty","isZero">>, <<"isNil","">>, <<"isNull","isNil">>, <<"isSet","">>,
  <<"isZero","">>, <<"json","">>, <<"key","">>, <<"keys","">>, <<"lenc","">>, <<"list","">>, <<"merge","">>, <<"nbChars","lenc">>, <<"omit","">>,
  <<"pick","">>, <<"pickv","">>, <<"pluck","">>, <<"prepend","">>, <<"push","append">>, <<"remove","unset">>, <<"removeEmpty","">>,
  <<"removeNil","">>, <<"rest","">>, <<"reverse","">>, <<"safeIndex","">>, <<"set","">>, <<"slice","">>, <<"string","">>, <<"tfvars","hcl">>,
  <<"toBash","">>, <<"toHCL","toHcl">>, <<"toHcl","">>, <<"toIHCL","toInternalHcl">>, <<"toIHcl","toInternalHcl">>,
  <<"toInternalHCL","toInternalHcl">>, <<"toInternalHcl","">>, <<"toJSON","toJson">>, <<"toJson","">>, <<"toPrettyHCL","toPrettyHcl">>,
  <<"toPrettyHcl","">>, <<"toPrettyJSON","toPrettyJson">>, <<"toPrettyJson","">>, <<"toPrettyTFVars","">>, <<"toQuotedHCL","toQuotedHcl">>,
  <<"toQuotedHcl","">>, <<"toQuotedJSON","toQuotedJson">>, <<"toQuotedJson","">>, <<"toQuotedTFVars","">>, <<"toTFVars","">>, <<"toYAML","toYaml">>,
  <<"toYaml","">>, <<"tuple","list">>, <<"undef","">>, <<"union","">>, <<"uniq","unique">>, <<"unique","">>, <<"unset","">>, <<"values","">>,
  <<"without","">>, <<"yaml","">>}
LoggingFuncs == {<<"critical","">>, <<"criticalf","critical">>, <<"debug","">>, <<"debugf","debug">>, <<"error","">>, <<"errorf","error">>,
  <<"fatal","">>, <<"fatalf","fatal">>, <<"info","">>, <<"infof","info">>, <<"notice","">>, <<"noticef","notice">>, <<"panic","">>,
  <<"panicf","panic">>, <<"trace","">>, <<"tracef","trace">>, <<"warn","warning">>, <<"warnf","warning">>, <<"warning","">>, <<"warningf","warning">>}
RuntimeFuncs == {<<"alias","">>, <<"aliases","">>, <<"allFunctions","">>, <<"assert","">>, <<"assertWarning","">>, <<"assertion","assert">>,
  <<"assertw","assertWarning">>, <<"attr","getAttributes">>, <<"attributes","getAttributes">>, <<"c","userContext">>, <<"categories","">>,
  <<"completeExamples","">>, <<"context","userContext">>, <<"current","">>, <<"ellipsis","">>, <<"eval","include">>, <<"exec","">>,
  <<"execute","exec">>, <<"exit","">>, <<"func","">>, <<"function","">>, <<"functions","">>, <<"getAttributes","">>, <<"getMethods","">>,
  <<"getSignature","">>, <<"include","">>, <<"localAlias","">>, <<"methods","getMethods">>, <<"raise","">>, <<"raiseError","raise">>, <<"run","">>,
  <<"sign","getSignature">>, <<"signature","getSignature">>, <<"substitute","">>, <<"templateNames","">>, <<"templates","">>, <<"userContext","">>}
UtilsFuncs == {<<"aIndent","sIndent">>, <<"aWrap","formatList">>, <<"aindent","sIndent">>, <<"autoIndent","sIndent">>, <<"autoWrap","formatList">>,
  <<"awrap","formatList">>, <<"center","">>, <<"centered","center">>, <<"color","">>, <<"colored","color">>, <<"colorln","">>, <<"concat","">>,
  <<"enhanced","color">>, <<"formatList","">>, <<"id","">>, <<"identifier","id">>, <<"iif","">>, <<"indent","">>, <<"joinLines","">>, <<"lorem","">>,
  <<"loremIpsum","lorem">>, <<"mergeList","">>, <<"nIndent","">>, <<"nindent","nIndent">>, <<"printRaw","raw">>, <<"raw","">>, <<"rawList","">>,
  <<"reCompile","">>, <<"repeat","">>, <<"sIndent","">>, <<"sindent","sIndent">>, <<"spaceIndent","sIndent">>, <<"splitLines","">>,
  <<"stripANSI","stripColor">>, <<"stripColor","">>, <<"stripansi","stripColor">>, <<"striptcolor","stripColor">>, <<"ternary","iif">>, <<"wrap","">>,
  <<"wrapped","wrap">>}
NetFuncs == {<<"curl","httpDoc">>, <<"httpDoc","">>, <<"httpDocument","httpDoc">>, <<"httpGet","">>}
OSFuncs == {<<"currentDir","pwd">>, <<"currentUser","user">>, <<"diff","">>, <<"difference","diff">>, <<"exists","">>, <<"expand","glob">>,
  <<"fileExists","exists">>, <<"fileMode","mode">>, <<"fileSize","size">>, <<"fileStat","stat">>, <<"glob","">>, <<"group","">>, <<"home","">>,
  <<"homeDir","home">>, <<"homeFolder","home">>, <<"isDir","">>, <<"isDirectory","isDir">>, <<"isExecutable","">>, <<"isExist","exists">>,
  <<"isFile","">>, <<"isFolder","isDir">>, <<"isReadable","">>, <<"isWriteable","">>, <<"joinPath","">>, <<"lastMod","">>,
  <<"lastModification","lastMod">>, <<"lastModificationTime","lastMod">>, <<"load","">>, <<"look","lookPath">>, <<"lookPath","">>, <<"mode","">>,
  <<"pwd","">>, <<"read","load">>, <<"readFrom","load">>, <<"save","">>, <<"size","">>, <<"stat","">>, <<"type","lookPath">>, <<"user","">>,
  <<"userGroup","group">>, <<"username","">>, <<"whereIs","lookPath">>, <<"which","lookPath">>, <<"write","save">>, <<"writeTo","save">>}
GitFuncs == {<<"currentBranch","">>, <<"currentCommit","">>, <<"origin","">>}
Provided == [Sprig |-> SprigFuncs, Math |-> MathFuncs, Data |-> DataFuncs, Logging |-> LoggingFuncs, Runtime |-> RuntimeFuncs, Utils |-> UtilsFuncs, Net |-> NetFuncs, OS |-> OSFuncs, Git |-> GitFuncs]
=============================================================================
