"""Behaviour-preserving rewrites of jin in three scratch copies (/tmp/refac/A, B, C), to see that the
monitors stay quiet: tools/scratch_check.sh /tmp/refac/A C01 quick. Development tool, no check uses it."""
import re,subprocess,shutil,os
def fresh(n):
    d=f'/tmp/refac/{n}'; shutil.rmtree(d,ignore_errors=True); subprocess.run(['cp','-a','/repo',d],check=True); return d
def sub(d,f,a,b,cnt=1):
    s=open(f'{d}/{f}').read(); assert s.count(a)>=1,(f,a); s=s.replace(a,b) if cnt==0 else s.replace(a,b,cnt); open(f'{d}/{f}','w').write(s)
def func(d,f,name,new):
    s=open(f'{d}/{f}').read()
    m=re.search(r'^func '+re.escape(name)+r'\(.*?^}\n',s,re.S|re.M); assert m,(f,name)
    s=s[:m.start()]+new.strip()+'\n'+s[m.end():]; open(f'{d}/{f}','w').write(s)
def imports(d,f,*ims):
    s=open(f'{d}/{f}').read()
    s=re.sub(r'^import \(.*?^\)\n|^import "[^"]*"\n','',s,count=1,flags=re.S|re.M)
    s=s.replace('package jin\n','package jin\n\nimport (\n'+''.join(f'\t"{i}"\n' for i in ims)+')\n',1); open(f'{d}/{f}','w').write(s)
def build(d):
    subprocess.run('gofmt -w *.go; go vet . 2>&1 | head; git checkout -q package_description.go',shell=True,cwd=d)
    print(d,subprocess.run('go test ./... 2>&1 | tail -3',shell=True,cwd=d,capture_output=True,text=True).stdout)

# ---- A: helpers, utils, errors, makers
d=fresh('A')
func(d,'utils.go','replace','''func replace(json, newValue []byte, start, end int) []byte {
	tail := json[end:]
	newJSON := make([]byte, start+len(newValue)+len(tail))
	n := copy(newJSON, json[:start])
	n += copy(newJSON[n:], newValue)
	copy(newJSON[n:], tail)
	return newJSON
}''')
func(d,'utils.go','space','''func space(curr byte) bool {
	switch curr {
	case ' ', '\\t', '\\n', '\\r':
		return true
	}
	return false
}''')
func(d,'utils.go','blank','''func blank(str string) bool { return strings.Trim(str, " \\t\\n\\r") == "" }''')
func(d,'utils.go','createTabs','''func createTabs(n int) []byte {
	if n <= 0 {
		return nil
	}
	return bytes.Repeat([]byte("\\t"), n)
}''')
func(d,'utils.go','cleanValueString','''func cleanValueString(str string) string {
	str = strings.Trim(str, " \\t\\n\\r")
	if n := len(str); n > 1 && str[0] == '"' && str[n-1] == '"' {
		return str[1 : n-1]
	}
	return str
}''')
func(d,'utils.go','cleanValue','''func cleanValue(str []byte) []byte {
	str = bytes.Trim(str, " \\t\\n\\r")
	if n := len(str); n > 1 && str[0] == '"' && str[n-1] == '"' {
		return str[1 : n-1]
	}
	return str
}''')
func(d,'utils.go','formatType','''func formatType(val string) string {
	if val == "" {
		return quoted(val)
	}
	switch val {
	case "true", "false", "null":
		return val
	}
	if isNumber(val) && (isInt(val) || isFloat(val)) {
		return val
	}
	a, b := val[0], val[len(val)-1]
	if !isInt(val) {
		if a == '"' && b == '"' || a == '[' && b == ']' || a == '{' && b == '}' {
			return val
		}
	}
	return quoted(val)
}

func quoted(s string) string { return string(append(append([]byte{'"'}, s...), '"')) }''')
imports(d,'utils.go','bytes','strconv','strings','unsafe')
s=open(d+'/errors.go').read()
s=re.sub(r'return fmt\.Errorf\("(.*?) error_code: %02d", (.*)\)',lambda m:'return coded("%s", %s)'%(m.group(1),', '.join(reversed(m.group(2).split(', ')))),s)
s+='''
type codedError struct {
	text string
	code int
}

func (e *codedError) Error() string { return fmt.Sprintf("%s error_code: %02d", e.text, e.code) }

func coded(text string, code int, args ...interface{}) error {
	return &codedError{fmt.Sprintf(text, args...), code}
}
'''
open(d+'/errors.go','w').write(s)
for name,typ,app in [('MakeArrayString','[]string','append(js, formatType(values[i])...)'),('MakeArrayInt','[]int','strconv.AppendInt(js, int64(values[i]), 10)'),('MakeArrayBool','[]bool','strconv.AppendBool(js, values[i])'),('MakeArrayFloat','[]float64',"strconv.AppendFloat(js, values[i], 'f', -1, 64)"),('MakeArrayBytes','...[]byte','append(js, values[i]...)')]:
    func(d,'make.go',name,f'''func {name}(values {typ}) []byte {{
	return joinArray(len(values), func(js []byte, i int) []byte {{ return {app} }})
}}''')
func(d,'make.go','MakeArray','''func MakeArray(elements ...interface{}) []byte {
	return joinArray(len(elements), func(js []byte, i int) []byte {
		return append(js, formatType(fmt.Sprint(elements[i]))...)
	})
}

func joinArray(n int, item func(js []byte, i int) []byte) []byte {
	js := make([]byte, 1, 16*n+2)
	js[0] = '['
	for i := 0; i < n; i++ {
		if i > 0 {
			js = append(js, ',')
		}
		js = item(js, i)
	}
	return append(js, ']')
}

func joinObject(keys []string, value func(i int) string) []byte {
	var buf bytes.Buffer
	buf.WriteByte('{')
	for i, k := range keys {
		if i > 0 {
			buf.WriteByte(',')
		}
		buf.WriteString(`"` + k + `":` + formatType(value(i)))
	}
	buf.WriteByte('}')
	return buf.Bytes()
}''')
func(d,'make.go','MakeJson','''func MakeJson(keys []string, values []interface{}) []byte {
	if len(keys) != len(values) {
		return nil
	}
	return joinObject(keys, func(i int) string { return fmt.Sprint(values[i]) })
}''')
func(d,'make.go','MakeJsonString','''func MakeJsonString(keys, values []string) []byte {
	if len(keys) != len(values) {
		return nil
	}
	return joinObject(keys, func(i int) string { return values[i] })
}''')
func(d,'make.go','MakeJsonWithMap','''func MakeJsonWithMap(json map[string]string) []byte {
	keys := make([]string, 0, len(json))
	for k := range json {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return joinObject(keys, func(i int) string { return json[keys[i]] })
}''')
func(d,'make.go','(s *Scheme) Remove','''func (s *Scheme) Remove(key string) bool {
	at := -1
	for i, k := range s.keys {
		if k == key {
			at = i
		}
	}
	if at < 0 {
		return false
	}
	rest := append([]string{}, s.keys[:at]...)
	s.keys = append(rest, s.keys[at+1:]...)
	return true
}''')
func(d,'make.go','(s *Scheme) CheckAbs','''func (s *Scheme) CheckAbs(json []byte) bool {
	keys, err := GetKeys(json)
	if err != nil || len(keys) != len(s.keys) {
		return false
	}
	set := make(map[string]struct{}, len(keys))
	for _, k := range s.keys {
		set[k] = struct{}{}
	}
	for _, k := range keys {
		if _, ok := set[k]; !ok {
			return false
		}
	}
	return true
}''')
func(d,'make.go','(s *Scheme) GetOriginalKeys','''func (s *Scheme) GetOriginalKeys() []string { return append([]string{}, s.originalKeys...) }''')
func(d,'make.go','MakeScheme','''func MakeScheme(keys ...string) *Scheme {
	own := append([]string{}, keys...)
	return &Scheme{keys: own, originalKeys: own}
}''')
imports(d,'make.go','bytes','fmt','sort','strconv')
build(d)

# ---- B: core rewritten, parser edits, walk, sequence
d=fresh('B')
func(d,'inter_core.go','core','''func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
	if len(json) < 2 {
		return -1, -1, -1, errBadJSON(0)
	}
	at := skipSpace(json, 0)
	if at >= len(json)-1 {
		return -1, -1, -1, errBadJSON(at)
	}
	keyStart := -1
	for k, step := range path {
		var err error
		switch json[at] {
		case '[':
			keyStart = -1
			at, err = element(json, at, step)
		case '{':
			keyStart, at, err = member(json, at, step)
		default:
			if k == 0 {
				return -1, -1, -1, errKeyNotFound(step)
			}
			if _, e := strconv.Atoi(path[k-1]); e == nil {
				return -1, -1, -1, errIndexOutOfRange()
			}
			return -1, -1, -1, errKeyNotFound(step)
		}
		if err != nil {
			return -1, -1, -1, err
		}
	}
	if justStart {
		return keyStart, at, 0, nil
	}
	end := skipValue(json, at)
	if end < 0 {
		return -1, -1, -1, errBadJSON(at)
	}
	if json[at] == '"' {
		return keyStart, at + 1, end - 1, nil
	}
	return keyStart, at, end, nil
}

func skipSpace(json []byte, i int) int {
	for i < len(json) && space(json[i]) {
		i++
	}
	return i
}

// skipValue is the offset behind the value at i, -1 if there is none.
func skipValue(json []byte, i int) int {
	if i >= len(json) {
		return -1
	}
	switch json[i] {
	case '"':
		return skipString(json, i)
	case '[', '{':
		level := 0
		for i < len(json) {
			switch json[i] {
			case '"':
				if i = skipString(json, i); i < 0 {
					return -1
				}
				continue
			case '[', '{':
				level++
			case ']', '}':
				if level--; level == 0 {
					return i + 1
				}
			}
			i++
		}
		return -1
	}
	start := i
	for i < len(json) && !space(json[i]) && json[i] != ',' && json[i] != ']' && json[i] != '}' {
		i++
	}
	if i == start || i == len(json) {
		return -1
	}
	return i
}

func skipString(json []byte, i int) int {
	for i++; i < len(json); i++ {
		switch json[i] {
		case '\\\\':
			i++
		case '"':
			return i + 1
		}
	}
	return -1
}

func element(json []byte, at int, step string) (int, error) {
	want, err := strconv.Atoi(step)
	if err != nil {
		return 0, errIndexExpected()
	}
	i := skipSpace(json, at+1)
	if i < len(json) && json[i] == ']' {
		if want == 0 {
			return 0, errEmptyArray()
		}
		return 0, errIndexOutOfRange()
	}
	for n := 0; i < len(json); n++ {
		if n == want {
			return i, nil
		}
		if i = skipValue(json, i); i < 0 {
			return 0, errBadJSON(at)
		}
		i = skipSpace(json, i)
		if i >= len(json) || json[i] != ',' {
			return 0, errIndexOutOfRange()
		}
		i = skipSpace(json, i+1)
	}
	return 0, errBadJSON(at)
}

func member(json []byte, at int, step string) (int, int, error) {
	i := skipSpace(json, at+1)
	for i < len(json) && json[i] == '"' {
		end := skipString(json, i)
		if end < 0 {
			return 0, 0, errBadJSON(i)
		}
		v := skipSpace(json, end)
		if v >= len(json) || json[v] != ':' {
			return 0, 0, errBadJSON(v)
		}
		v = skipSpace(json, v+1)
		if v >= len(json) {
			return 0, 0, errBadJSON(v)
		}
		if string(json[i+1:end-1]) == step {
			return i + 1, v, nil
		}
		if v = skipValue(json, v); v < 0 {
			return 0, 0, errBadJSON(i)
		}
		v = skipSpace(json, v)
		if v >= len(json) || json[v] != ',' {
			break
		}
		i = skipSpace(json, v+1)
	}
	return 0, 0, errKeyNotFound(step)
}''')
for f in ['parse_add.go','parse_set.go','parse_delete.go']:
    s=open(f'{d}/{f}').read()
    for var in ['newNode','newCore','curr']:
        s=re.sub(r'\tfor i := 0; i < (lenp|lenp-1); i\+\+ \{\n\t\t%s = %s\.up\n\t\t%s\.value, err = Get\(p\.json, path\[:(?:lenp-i|lenp-1-i|lenp-i-1)\]\.\.\.\)\n\t\tif err != nil \{\n\t\t\treturn err\n\t\t\}\n\t\}\n\tp\.core\.value = cleanValue\(p\.json\)\n\treturn nil\n'%(var,var,var),lambda m:'\treturn p.refresh(%s.up, path[:%s])\n'%(var,m.group(1)),s)
    open(f'{d}/{f}','w').write(s)
s=open(f'{d}/parse_utils.go').read()
s+='''
// refresh takes the texts of the node at the path and of all above it from the document.
func (p *Parser) refresh(at *node, path []string) error {
	for ; len(path) > 0; path = path[:len(path)-1] {
		text, err := Get(p.json, path...)
		if err != nil {
			return err
		}
		at.value, at = text, at.up
	}
	p.core.value = cleanValue(p.json)
	return nil
}
'''
open(f'{d}/parse_utils.go','w').write(s)
func(d,'sequence.go','(s *sequance) push','''func (s *sequance) push(element int) {
	s.list = append(s.list[:s.index], element)
	s.index++
}''')
func(d,'sequence.go','makeSeq','''func makeSeq(length int) *sequance { return &sequance{list: make([]int, 0, length), length: length} }''')
func(d,'sequence.go','(s *sequance) pop','''func (s *sequance) pop() int {
	if s.index == 0 {
		return 0
	}
	s.index--
	return s.list[s.index]
}''')
func(d,'walk.go','walk','''func walk(json []byte, path []string, callback func(k string, v []byte, p []string) (bool, error)) error {
	t, err := GetType(json, path...)
	if err != nil {
		return err
	}
	below := func(step string) error {
		next := make([]string, len(path)+1)
		next[copy(next, path)] = step
		return walk(json, next, callback)
	}
	switch t {
	case TypeObject:
		keys, err := GetKeys(json, path...)
		if err != nil {
			return err
		}
		for _, k := range keys {
			if err := below(k); err != nil {
				return err
			}
		}
		return nil
	case TypeArray:
		n, err := Length(json, path...)
		if err != nil {
			return err
		}
		for i := 0; i < n; i++ {
			if err := below(strconv.Itoa(i)); err != nil {
				return err
			}
		}
		return nil
	}
	val, err := Get(json, path...)
	if err != nil {
		return err
	}
	key := ""
	if len(path) != 0 {
		key = path[len(path)-1]
	}
	keepGoing, err := callback(key, val, path)
	if err == nil && !keepGoing {
		err = errStopWalk
	}
	return err
}''')
build(d)

# ---- C: layout, listings, trees, pools, JO
d=fresh('C')
func(d,'others.go','Flatten','''func Flatten(json []byte) []byte {
	buf := scratch.Get().(*bytes.Buffer)
	defer scratch.Put(buf)
	buf.Reset()
	inQuote, escaped := false, false
	for _, c := range json {
		if escaped {
			escaped = false
			buf.WriteByte(c)
			continue
		}
		escaped = c == '\\\\'
		if c == '"' {
			inQuote = !inQuote
		}
		if inQuote || !space(c) {
			buf.WriteByte(c)
		}
	}
	return append(make([]byte, 0, buf.Len()), buf.Bytes()...)
}

var scratch = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}''')
func(d,'others.go','Indent','''func Indent(json []byte) []byte {
	var buf bytes.Buffer
	level := 0
	inQuote, escaped := false, false
	for _, c := range Flatten(json) {
		if escaped {
			escaped = false
			buf.WriteByte(c)
			continue
		}
		escaped = c == '\\\\'
		if c == '"' {
			inQuote = !inQuote
		}
		if inQuote {
			buf.WriteByte(c)
			continue
		}
		switch c {
		case '[', '{':
			level++
			buf.WriteByte(c)
			newLine(&buf, level)
		case ']', '}':
			level--
			newLine(&buf, level)
			buf.WriteByte(c)
		case ',':
			buf.WriteByte(c)
			newLine(&buf, level)
		case ':':
			buf.WriteString(": ")
		default:
			buf.WriteByte(c)
		}
	}
	return buf.Bytes()
}

func newLine(buf *bytes.Buffer, level int) {
	buf.WriteByte('\\n')
	buf.Write(createTabs(level))
}''')
imports(d,'others.go','bytes','sync')
func(d,'inter_get.go','GetKeys','''func GetKeys(json []byte, path ...string) ([]string, error) {
	keys, _, err := GetKeysValues(json, path...)
	return keys, err
}''')
func(d,'inter_get.go','GetValues','''func GetValues(json []byte, path ...string) ([]string, error) {
	_, values, err := GetKeysValues(json, path...)
	return values, err
}''')
func(d,'inter_get.go','GetAll','''func GetAll(json []byte, keys []string, path ...string) ([]string, error) {
	results := make([]string, len(keys))
	full := make([]string, len(path)+1)
	copy(full, path)
	for i, k := range keys {
		full[len(path)] = k
		val, err := GetString(json, full...)
		if err != nil {
			return nil, err
		}
		results[i] = val
	}
	return results, nil
}''')
func(d,'parse_utils.go','(p *Parser) Tree','''func (p *Parser) Tree() string {
	var b strings.Builder
	p.core.createTree(0, false, &b)
	return b.String()
}''')
func(d,'parse_utils.go','(p *Parser) TreeFull','''func (p *Parser) TreeFull() string {
	var b strings.Builder
	p.core.createTree(0, true, &b)
	return b.String()
}''')
func(d,'parse_utils.go','(n *node) createTree','''func (n *node) createTree(depth int, withValues bool, b *strings.Builder) {
	glyph := "\\u2500"
	if depth > 0 {
		glyph = strings.Repeat("\\t", depth) + "\\u2514 "
	}
	for _, d := range n.down {
		b.WriteString(glyph)
		b.WriteByte(' ')
		if withValues {
			fmt.Fprintf(b, "%-6v : %s", d.label, d.value)
		} else {
			b.WriteString(d.label)
		}
		b.WriteByte('\\n')
		d.createTree(depth+1, withValues, b)
	}
}''')
imports(d,'parse_utils.go','fmt','strconv','strings')
func(d,'parse_utils.go','(n *node) deAttach','''func (n *node) deAttach() {
	up := n.up
	at := n.getIndex()
	rest := make([]*node, 0, len(up.down))
	rest = append(rest, up.down[:at]...)
	for _, d := range up.down[at+1:] {
		if len(up.value) != 0 && up.value[0] == '[' {
			d.label = strconv.Itoa(len(rest))
		}
		rest = append(rest, d)
	}
	up.down = rest
}''')
func(d,'parse_utils.go','(n *node) insert','''func (n *node) insert(up *node, index int) error {
	if index > len(up.down)-1 {
		return errIndexOutOfRange()
	}
	n.up = up
	down := append([]*node{}, up.down[:index]...)
	down = append(down, n)
	down = append(down, up.down[index:]...)
	for i := index; i < len(down); i++ {
		down[i].label = strconv.Itoa(i)
	}
	up.down = down
	return nil
}''')
for m,args,call in [('Set','newValue []byte, path ...string','newValue, path...'),('SetString','newValue string, path ...string','newValue, path...'),('SetKey','newKey string, path ...string','newKey, path...')]:
    func(d,'jin_object_set.go',f'(j *JO) {m}',f'''func (j *JO) {m}({args}) error {{
	return j.update({m}(j.body, {call}))
}}''')
s=open(d+'/jin_object_set.go').read()+'''
func (j *JO) update(body []byte, err error) error {
	if err != nil {
		return err
	}
	j.body = body
	return nil
}
'''
open(d+'/jin_object_set.go','w').write(s)
build(d)
