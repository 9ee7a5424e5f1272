R["tok-scan"] = [
(T, '''	ret := make([]rune, 0, 10) // как правило встречаются короткие идентификаторы и лучше предаллоцировать, это сильный буст дает

	for {
		let := t.currentLet()
		if !isLetter(let) && !isDigit(let) {
			break
		}

		ret = append(ret, let)
		t.nextPos()
	}

	return string(ret)
}
''', '''	begin := t.offset
	for let := t.currentLet(); isLetter(let) || isDigit(let); let = t.currentLet() {
		t.nextPos()
	}

	return t.ast.SrsCode()[begin:t.offset]
}
'''),
(T, '''	srsCode := t.ast.SrsCode()
	_, size := utf8.DecodeRuneInString(srsCode[t.offset:])
	t.offset += size
	defer func() { t.offset -= size }()

	return t.currentLet()
''', '''	ahead := *t
	ahead.nextPos()
	return ahead.currentLet()
'''),
(T, '''	eol := strings.LastIndex(srsCode[:t.offset], "\\n") + 1
	lineBegin := IF[int](eol < 0, 0, eol)

	return Position{
		Line:   strings.Count(srsCode[:t.offset], "\\n") + 1,
		Column: len([]rune(srsCode[lineBegin:t.offset])) + 1,
	}
''', '''	pos := Position{Line: 1, Column: 1}
	for _, r := range srsCode[:t.offset] {
		if r == '\\n' {
			pos.Line, pos.Column = pos.Line+1, 0
		}
		pos.Column++
	}

	return pos
'''),
(T, '''	result := make([]rune, 0, len(str))
	for _, c := range str {
		if c >= '0' && c <= '9' {
			result = append(result, c)
		}
	}
	return string(result)
''', '''	return strings.Map(func(r rune) rune {
		if isDigit(r) {
			return r
		}
		return -1
	}, str)
'''),
]
R["tok-switch"] = [
(T, '''	case let == '/' || let == ';' || let == '(' || let == ')' || let == ',' || let == '-' || let == '+' || let == '*' || let == '?' || let == '[' || let == ']' || let == ':' || let == '%':
		t.nextPos()
		return int(let), string(let), nil
''', '''	case strings.ContainsRune("/;(),-+*?[]:%", let):
		return t.single(let)
'''),
(T, '''	case let == '<':
		if t.nextLet() == '>' {
			t.nextPos()
			t.nextPos()
			return NeEQ, "<>", nil
		} else if t.nextLet() == '=' {
			t.nextPos()
			t.nextPos()
			return LE, "<=", nil
		} else {
			t.nextPos()
			return int(let), string(let), nil
		}
''', '''	case let == '<':
		t.nextPos()
		switch t.currentLet() {
		case '>':
			t.nextPos()
			return NeEQ, "<>", nil
		case '=':
			t.nextPos()
			return LE, "<=", nil
		}
		return int(let), string(let), nil
'''),
(T, '''func (t *Token) scanIdentifier() string {''', '''func (t *Token) single(let rune) (int, string, error) {
	t.nextPos()
	return int(let), string(let), nil
}

func (t *Token) scanIdentifier() string {'''),
(T, '''		formats := []string{"20060102", "200601021504", "20060102150405"} // Допускается опускать либо время целиком, либо только секунды.
		for _, f := range formats {
			// если все 0 это равносильно пустой дате
			if strings.Count(t.literal, "0") == len(t.literal) {
				t.value = time.Time{}
				return
			}

			if t.value, err = time.Parse(f, t.literal); err == nil {
				break
			}
		}
''', '''		t.value, err = parseDate(t.literal)
'''),
(T, '''func extractDigits(''', '''// parseDate Допускается опускать либо время целиком, либо только секунды.
func parseDate(digits string) (result time.Time, err error) {
	if strings.Trim(digits, "0") == "" {
		return time.Time{}, nil // если все 0 это равносильно пустой дате
	}
	for _, layout := range [...]string{"20060102", "200601021504", "20060102150405"} {
		if result, err = time.Parse(layout, digits); err == nil {
			return
		}
	}
	return
}

func extractDigits('''),
]
R["tok-trivia"] = [
(T, '''	t.skipSpace()
	t.skipComment()
	t.skipRegions()
	t.start = t.offset
''', '''	t.skipTrivia()
	t.start = t.offset
'''),
(T, '''			t.nextPos()
			t.skipSpace()
			t.skipComment()
			t.skipRegions()

			// для''', '''			t.nextPos()
			t.skipTrivia()

			// для'''),
(T, '''func (t *Token) skipSpace() {''', '''// skipTrivia пропускает все, что не влияет на разбор
func (t *Token) skipTrivia() {
	for begin := -1; begin != t.offset; {
		begin = t.offset
		t.skipSpace()
		if let := t.currentLet(); let == '#' || let == '/' && t.nextLet() == '/' {
			t.skipLine()
		}
	}
}

func (t *Token) skipLine() {
	rest := t.ast.SrsCode()[t.offset:]
	if n := strings.IndexByte(rest, EOL); n >= 0 {
		t.offset += n
	} else {
		t.offset += len(rest)
	}
}

func (t *Token) skipSpace() {'''),
]
R["lower-std"] = [
(T, '''	b := []byte(s)
	for i, r := range s {
		switch {
		case r >= 'A' && r <= 'Z':
			b[i] = s[i] + ('a' - 'A')
		case r >= 'А' && r <= 'Я':
			if s[i] == 208 && r > 'П' { // от "П" и дальше
				b[i], b[i+1] = b[i]+1, s[i+1]-('а'-'А')
			} else {
				b[i+1] = s[i+1] + ('а' - 'А')
			}
		case r == 'Ё':
			b[i], b[i+1] = 209, 145
		}
	}

	return unsafe.String(unsafe.SliceData(b), len(b))
''', '''	var sb strings.Builder
	sb.Grow(len(s))
	for _, r := range s {
		sb.WriteRune(lowRune(r))
	}

	return sb.String()
'''), (T, '	"unsafe"\n', ''), (T, '''func fastToLower(s string) string {''', '''var lowTable = func() map[rune]rune {
	m := map[rune]rune{'Ё': 'ё'}
	for r := 'A'; r <= 'Z'; r++ {
		m[r] = r + 0x20
	}
	for r := 'А'; r <= 'Я'; r++ {
		m[r] = r + 0x20
	}
	return m
}()

func lowRune(r rune) rune {
	if l, ok := lowTable[r]; ok {
		return l
	}
	return r
}

func fastToLower(s string) string {'''),
]
R["cache-mutex"] = [
(T, '''func fastToLower(s string) string {
''', '''var lowCache = struct {
	sync.RWMutex
	m map[string]string
}{m: map[string]string{}}

// fastToLower слова повторяются, запоминаем
func fastToLower(s string) string {
	lowCache.RLock()
	l, ok := lowCache.m[s]
	lowCache.RUnlock()
	if ok {
		return l
	}
	l = toLower(s)
	lowCache.Lock()
	defer lowCache.Unlock()
	if len(lowCache.m) > 1000 {
		lowCache.m = map[string]string{}
	}
	lowCache.m[strings.Clone(s)] = l
	return l
}

func toLower(s string) string {
'''), (T, '	"strings"\n', '	"strings"\n	"sync"\n'),
]
R["pool-print"] = [
(P, '''func (p *astPrint) printBody(items Statements, depth int) string {
	builder := &strings.Builder{}

	for _, item := range items {
		builder.WriteString(p.newLine(1))
		builder.WriteString(p.printBodyItem(item, depth))
	}

	builder.WriteString(p.newLine(1))

	return builder.String()
}
''', '''var buffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}

func (p *astPrint) printBody(items Statements, depth int) string {
	builder := buffers.Get().(*bytes.Buffer)
	builder.Reset()
	defer buffers.Put(builder)

	for i := range items {
		fmt.Fprintf(builder, "%s%s", p.newLine(1), p.printBodyItem(items[i], depth))
	}
	builder.WriteString(p.newLine(1))

	return builder.String()
}
'''), (P, '''import (
	"fmt"
	"sort"
	"strconv"
	"strings"
''', '''import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
'''),
]
R["print-indent"] = [
(P, '''	spaces := strings.Repeat(" ", p.conf.Margin*depth)
	builder.WriteString("Если ")
''', '''	spaces := p.indent(depth)
	builder.WriteString("Если ")
'''),
(P, '''	for _, item := range expr.IfElseBlock {
		builder.WriteString(spaces)
		builder.WriteString("ИначеЕсли ")
		builder.WriteString(p.printExpression(item.(*IfStatement).Expression, 0))
		builder.WriteString(" Тогда ")
		builder.WriteString(p.printBody(item.(*IfStatement).TrueBlock, depth+1))
	}
''', '''	for i := 0; i < len(expr.IfElseBlock); i++ {
		branch := expr.IfElseBlock[i].(*IfStatement)
		fmt.Fprint(builder, spaces, "ИначеЕсли ", p.printExpression(branch.Expression, 0), " Тогда ", p.printBody(branch.TrueBlock, depth+1))
	}
'''),
(P, '''	if loop.WhileExpr != nil {
		builder.WriteString("Пока ")
		builder.WriteString(p.printExpression(loop.WhileExpr, 0))
		builder.WriteString(" Цикл ")
	} else {
		builder.WriteString("Для ")
	}

	if loop.In != nil {
		builder.WriteString("Каждого ")
		builder.WriteString(loop.For.(string))
		builder.WriteString(" Из ")
		builder.WriteString(p.printExpression(loop.In, 0))
		builder.WriteString(" Цикл ")
	}
	if loop.To != nil {
		builder.WriteString(p.printExpression(loop.For, 0))
		builder.WriteString(" По ")
		builder.WriteString(p.printExpression(loop.To, 0))
		builder.WriteString(" Цикл ")
	}
''', '''	switch {
	case loop.WhileExpr != nil:
		builder.WriteString("Пока " + p.printExpression(loop.WhileExpr, 0))
	case loop.In != nil:
		builder.WriteString(fmt.Sprintf("Для Каждого %v Из %v", loop.For, p.printExpression(loop.In, 0)))
	default:
		builder.WriteString(strings.Join([]string{"Для", p.printExpression(loop.For, 0), "По", p.printExpression(loop.To, 0)}, " "))
	}
	builder.WriteString(" Цикл ")
'''),
(P, '''func (p *astPrint) newLine(count int) string {''', '''func (p *astPrint) indent(depth int) string {
	if depth == 0 || p.conf.Margin == 0 {
		return ""
	}
	return fmt.Sprintf("%*s", p.conf.Margin*depth, "")
}

func (p *astPrint) newLine(count int) string {'''),
(P, '''	sort.Strings(keys)
	return keys
''', '''	slices.SortFunc(keys, strings.Compare)
	return keys
'''), (P, '	"sort"\n', '	"slices"\n'),
(P, '''	params := make([]string, len(Params), len(Params))
	for i, parm := range Params {
		params[i] = p.printExpression(parm, 0)
	}

	return strings.Join(params, ", ")
''', '''	text, sep := "", ""
	for _, parm := range Params {
		text, sep = text+sep+p.printExpression(parm, 0), ", "
	}

	return text
'''),
]
R["walk-split"] = [
(S, '''		case *IfStatement:
			walkHelper(parent, v, Statements{v.Expression}, callBack)
			walkHelper(parent, v, v.TrueBlock, callBack)
			walkHelper(parent, v, v.ElseBlock, callBack)
			walkHelper(parent, v, v.IfElseBlock, callBack)
''', '''		case *IfStatement:
			v.walk(parent, callBack)
'''),
(S, '''	outer := parent
	for i, item := range statements {
		parent = outer
		switch v := item.(type) {
''', '''	outer := parent
	for i := 0; i < len(statements); i++ {
		parent = outer
		switch v := statements[i].(type) {
'''),
(S, '''// func (m Statements) Walk(''', '''func (s *IfStatement) walk(parent *FunctionOrProcedure, callBack fCallBack) {
	for _, part := range []Statements{{s.Expression}, s.TrueBlock, s.ElseBlock, s.IfElseBlock} {
		walkHelper(parent, s, part, callBack)
	}
}

// func (m Statements) Walk('''),
(S, '''	case []GlobalVariables:
		for _, item := range v {
			m.Append(item, yylex)
		}
''', '''	case []GlobalVariables:
		for i := 0; i < len(v); i++ {
			m.Append(v[i], yylex)
		}
'''),
]
R["op-table"] = [
(S, '''	switch o {
	case OpPlus:
		return "+"
	case OpMinus:
		return "-"
	case OpMul:
		return "*"
	case OpDiv:
		return "/"
	case OpEq:
		return "="
	case OpGt:
		return ">"
	case OpLt:
		return "<"
	case OpNe:
		return "<>"
	case OpLe:
		return "<="
	case OpGe:
		return ">="
	case OpMod:
		return "%"
	case OpOr:
		return "ИЛИ"
	case OpAnd:
		return "И"
	default:
		return ""
	}
''', '''	if o < 0 || int(o) >= len(opText) {
		return ""
	}
	return opText[o]
'''), (S, '''type IUnary interface {''', '''var opText = [...]string{OpPlus: "+", OpMinus: "-", OpMul: "*", OpDiv: "/", OpEq: "=", OpGt: ">", OpLt: "<", OpNe: "<>", OpLe: "<=", OpGe: ">=", OpMod: "%", OpOr: "ИЛИ", OpAnd: "И"}

type IUnary interface {'''),
]
R["ast-json"] = [
(A, '''	return json.Marshal(&ast.ModuleStatement)
''', '''	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	if err := enc.Encode(&ast.ModuleStatement); err != nil {
		return nil, err
	}

	return bytes.TrimSuffix(buf.Bytes(), []byte("\\n")), nil
'''), (A, 'import (\n', 'import (\n	"bytes"\n'),
(A, '''	if len(strings.TrimSpace(ast.code)) == 0 {
		return nil
	}
''', '''	if strings.TrimSpace(ast.code) == "" {
		return nil
	}
'''),
(A, '''	for _, v := range newVariables {
		if _, ok := existingVariables[v.literal]; ok {
			return map[string]VarStatement{}, fmt.Errorf("%w: with the specified name %q", errVariableAlreadyDefined, v.literal)
		} else {
			existingVariables[v.literal] = VarStatement{Name: v.literal}
		}
	}
	return existingVariables, nil
''', '''	add := func(name string) error {
		if _, ok := existingVariables[name]; ok {
			return errors.Errorf("%v: with the specified name %q", errVariableAlreadyDefined, name)
		}
		existingVariables[name] = VarStatement{Name: name}
		return nil
	}
	for i := range newVariables {
		if err := add(newVariables[i].literal); err != nil {
			return map[string]VarStatement{}, err
		}
	}
	return existingVariables, nil
'''),
]
R["gram-helpers"] = [
(G, '''    | expr '+' expr { $$ = &ExpStatement{Operation: OpPlus, Left: $1, Right: $3} }
    | expr '-' expr { $$ = &ExpStatement{Operation: OpMinus, Left: $1, Right: $3} }
''', '''    | expr '+' expr { $$ = binary(OpPlus, $1, $3) }
    | expr '-' expr { $$ = binary(OpMinus, $1, $3) }
'''),
(G, '''             $$ = append(Statements{&IfStatement{
                Expression: $2,
                TrueBlock:  $4,
            }}, $5...)
''', '''             branch := &IfStatement{ Expression: $2 }
             branch.TrueBlock = $4
             list := make(Statements, 0, len($5) + 1)
             list = append(list, branch)
             $$ = append(list, $5...)
'''),
(A, '''func isMarked(''', '''func binary(op OperationType, left, right Statement) Statement {
	exp := new(ExpStatement)
	exp.Operation, exp.Left, exp.Right = op, left, right
	return exp
}

func isMarked('''),
]
R["loop-int"] = [
(A, "	isLoop       atomic.Int32\n	isTry        atomic.Int32\n", "	isLoop       int\n	isTry        int\n"),
(A, "		if ast.isLoop.Load() == 0 {", "		if ast.isLoop == 0 {"), (A, "		if ast.isTry.Load() == 0 && param == nil {", "		if param == nil && ast.isTry == 0 {"),
(A, "			ast.isLoop.Add(1)\n", "			ast.isLoop++\n"), (A, "			ast.isLoop.Add(-1)\n", "			ast.isLoop--\n"), (A, "			ast.isTry.Add(1)\n", "			ast.isTry++\n"), (A, "			ast.isTry.Add(-1)\n", "			ast.isTry--\n"),
(A, '	"sync/atomic"\n', ''),
]
R["c-table"] = [
(W, '''		if (currentChar >= 'A' && currentChar <= 'Z') {
			str[i-1] = tolower(currentChar);
		} else if''', '''		if (isupper(currentChar)) {
			str[i-1] = (char)(currentChar | 0x20);
		} else if'''),
(W, '''void fastToLower(char* str) {
     for (int i = 0; str[i] != '\\0';) {
        unsigned char byte = str[i];
		int currentChar = 0;
''', '''static void put2(char* at, int codepoint) {
	at[0] = 0xC0 | (codepoint >> 6);
	at[1] = 0x80 | (codepoint & 0x3F);
}

void fastToLower(char* str) {
     int i = 0;
     while (str[i]) {
        unsigned char byte = (unsigned char)str[i];
		int currentChar = 0;
'''),
(W, '''			int codepoint = currentChar + 32;
	 		str[i-2] = 0xC0 | (codepoint >> 6);   // Старший байт
			str[i-1] = 0x80 | (codepoint & 0x3F); // Младший байт
''', '''			put2(str + i - 2, currentChar + 32);
'''),
(W, '''	cs := C.CString(str)

	C.fastToLower(cs)
	result := C.GoString(cs)
	C.free(unsafe.Pointer(cs))

	return result // *(*string)(unsafe.Pointer(&runes))
''', '''	cs := C.CString(str)
	defer C.free(unsafe.Pointer(cs))

	C.fastToLower(cs)
	return C.GoString(cs)
'''),
]
R["c-switch"] = [
(W, '''		if (currentChar >= 'A' && currentChar <= 'Z') {
			str[i-1] = tolower(currentChar);
		} else if (currentChar >= 1040 && currentChar <= 1071) { // диапазон А - Я
''', '''		switch (currentChar) {
		case 'A' ... 'Z':
			str[i-1] += 'a' - 'A';
			continue;
		}
		if (currentChar >= 0x410 && currentChar <= 0x42F) { // диапазон А - Я
'''),
]

# tables built on first use under sync.Once
R["once-tables"] = [(T, "\t\"unsafe\"\n", "\t\"unsafe\"\n\t\"sync\"\n"),
 (T, """		lowLit := fastToLower(literal)

		if tName, ok := tokens[lowLit]; ok && !prevDot {""", """		if tName, ok := wordKind(literal); ok && !prevDot {"""),
 (T, "func isLetter(ch rune) bool {", """var (
	wordsOnce sync.Once
	words     map[string]int
)

// wordKind вид зарезервированного слова
func wordKind(literal string) (int, bool) {
	wordsOnce.Do(func() {
		words = make(map[string]int, len(tokens))
		for k, v := range tokens {
			words[k] = v
		}
	})
	v, ok := words[fastToLower(literal)]
	return v, ok
}

func isLetter(ch rune) bool {""")]
# a cache with its own lock, filled on first use
R["rw-cache"] = [(T, "\t\"unsafe\"\n", "\t\"unsafe\"\n\t\"sync\"\n"),
 (T, """		lowLit := fastToLower(literal)

		if tName, ok := tokens[lowLit]; ok && !prevDot {""", """		if tName, ok := tokens[lowerOf(literal)]; ok && !prevDot {"""),
 (T, "func isLetter(ch rune) bool {", """var (
	lowerMu sync.RWMutex
	lowered = map[string]string{}
)

func lowerOf(literal string) string {
	lowerMu.RLock()
	low, ok := lowered[literal]
	lowerMu.RUnlock()
	if ok {
		return low
	}
	low = fastToLower(literal)
	lowerMu.Lock()
	lowered[literal] = low
	lowerMu.Unlock()
	return low
}

func isLetter(ch rune) bool {""")]
R["sync-map"] = [(T, "\t\"unsafe\"\n", "\t\"unsafe\"\n\t\"sync\"\n"),
 (T, """		lowLit := fastToLower(literal)

		if tName, ok := tokens[lowLit]; ok && !prevDot {""", """		if tName, ok := tokens[lowerOf(literal)]; ok && !prevDot {"""),
 (T, "func isLetter(ch rune) bool {", """var lowered sync.Map

func lowerOf(literal string) string {
	if low, ok := lowered.Load(literal); ok {
		return low.(string)
	}
	low := fastToLower(literal)
	lowered.Store(literal, low)
	return low
}

func isLetter(ch rune) bool {""")]
