F='bindgen/main.go'
def b(n,*e): return (n,'bug',['C34'],[(F,)+x for x in e])
def s(n,*e): return (n,'same',['C34'],[(F,)+x for x in e])
MUTS=[
b('argdata',('return "*seth.Data"\n','return "seth.Data"\n')),
b('argint128',('case "int", "uint", "int128", "int256", "uint128", "uint256":','case "int", "uint", "uint128", "uint256":')),
b('argbytes',('\tcase "string", "bytes":\n\t\treturn "*seth.Bytes"\n','')),
b('argslice',('return "*seth.IntSlice"','return "*seth.DataSlice"')),
b('retaddr',('return "seth.AddrSlice"','return "seth.Address"')),
b('retuint16',('"uint8", "uint16", "uint32", "uint64":\n\t\treturn a','"uint8", "uint16", "uint32", "uint64":\n\t\tif a == "uint64" {\n\t\t\treturn "uint32"\n\t\t}\n\t\treturn a')),
b('retsign',('"uint8", "uint16", "uint32", "uint64":\n\t\treturn a','"uint8", "uint16", "uint32", "uint64":\n\t\treturn strings.TrimPrefix(a, "u")')),
b('retbytes',('return "[]byte"','return "seth.Data"')),
b('retstring',('case "string":\n\t\treturn "string"\n','')),
b('args10',('\t\t\t\tfmt.Fprintf(w, ", arg%d", i)\n\t\t\t}\n\t\t\tfmt.Fprintln(w, ")")\n\t\t\tfmt.Fprintln(w, "}")','\t\t\t\tif i < 8 {\n\t\t\t\t\tfmt.Fprintf(w, ", arg%d", i)\n\t\t\t\t}\n\t\t\t}\n\t\t\tfmt.Fprintln(w, ")")\n\t\t\tfmt.Fprintln(w, "}")')),
b('argorder',('fmt.Fprintf(w, ", arg%d", i)\n\t\t\t}\n\t\t\tfmt.Fprintln(w, ")")\n\t\t\tfmt.Fprintln(w, "\\treturn")','fmt.Fprintf(w, ", arg%d", len(d.Inputs)-1-i)\n\t\t\t}\n\t\t\tfmt.Fprintln(w, ")")\n\t\t\tfmt.Fprintln(w, "\\treturn")')),
b('retorder',('for i := 0; i < len(d.Outputs); i++ {\n\t\t\t\tretargs = append(retargs, fmt.Sprintf("&ret%d", i))','for i := len(d.Outputs) - 1; i >= 0; i-- {\n\t\t\t\tretargs = append(retargs, fmt.Sprintf("&ret%d", i))')),
b('noreset',('\t\t\tretargs = retargs[:0]\n','')),
b('sig',('return z.s.Send(z.addr, %q", d.Signature())','return z.s.Send(z.addr, %q", strings.Replace(d.Signature(), "uint8", "uint", 1))')),
b('title',('strings.Title(d.Name)','d.Name')),
b('constcall',('if d.Constant {','if d.Constant && len(d.Inputs) == 0 {')),
b('const2',('if d.Constant {','if d.Constant || len(d.Outputs) > 0 {')),
b('events',('if d.Type != "function" {','if d.Type == "constructor" || d.Type == "fallback" {')),
b('skip',('if d.Constant && len(d.Outputs) == 0 {','if d.Constant && len(d.Inputs)+len(d.Outputs) == 0 || len(d.Outputs) == 1 && d.Outputs[0].Type == "bytes20" {')),
b('nocode',('var %sCode = %#v','var %sCode = %q')),
b('bin',('\tif bin {','\tif bin && len(c.Code) > 1 {')),
b('ctor',('return &%s{addr: addr, s: sender}','return &%s{addr: addr}')),
b('nosuch',('\t\tif c == nil {\n\t\t\tfatal("no such contract " + contracts[i])\n\t\t}','\t\tif c == nil {\n\t\t\tcontinue\n\t\t}')),
b('casefold',('c := bundle.Contract(contracts[i])','c := bundle.Contract(contracts[i])\n\t\tfor j := range bundle.Contracts {\n\t\t\tif strings.EqualFold(bundle.Contracts[j].Name, contracts[i]) {\n\t\t\t\tc = &bundle.Contracts[j]\n\t\t\t}\n\t\t}')),
b('prefix',('c := bundle.Contract(contracts[i])','var c *seth.CompiledContract\n\t\tfor j := range bundle.Contracts {\n\t\t\tif strings.HasPrefix(bundle.Contracts[j].Name, contracts[i]) {\n\t\t\t\tc = &bundle.Contracts[j]\n\t\t\t\tbreak\n\t\t\t}\n\t\t}')),
b('onlyfirst',('for i := range args {','for i := range args[:1] {')),
b('trim',('Body:     string(buf),','Body:     strings.TrimSpace(string(buf)),')),
b('comperr',('bundle, err := seth.Compile(sources)\n\tif err != nil {','bundle, err := seth.Compile(sources)\n\tif bundle == nil && err == nil {')),
b('earlyfile',('\tcontracts := strings.Split(cstr, ",")','\tf := outfile()\n\tcontracts := strings.Split(cstr, ",")'),('\tf := outfile()\n\t_, err = f.Write','\t_, err = f.Write')),
b('writeerr',('_, err = f.Write(buf)\n\tif err != nil {\n\t\tfatal(err)\n\t}\n','f.Write(buf)\n')),
b('rawout',('fatal("goimports: " + err.Error())','buf = w.Bytes()')),
b('exit0',('\tos.Exit(1)','\tos.Exit(0)')),
b('pkg',('flag.StringVar(&opkg, "p", os.Getenv("GOPACKAGE")','flag.StringVar(&opkg, "p", "main"')),
b('pkgname',('fmt.Fprintf(w, "package %s\\n\\n", opkg)','fmt.Fprintf(w, "package %s\\n\\n", strings.TrimSuffix(opkg, "pkg"))')),
b('stdout',('if ofile != "" {','if strings.HasSuffix(ofile, ".go") && !strings.Contains(ofile, "/") {')),
b('readerr',('buf, err := ioutil.ReadFile(v)\n\tif err != nil {','buf, err := ioutil.ReadFile(v)\n\tif err != nil && len(buf) > 0 {')),
b('errret',('fmt.Fprintf(w, "\\terr = z.s.ConstCall(','fmt.Fprintf(w, "\\t_ = z.s.ConstCall(')),
b('addr',('fmt.Fprintf(w, "\\treturn z.s.Send(z.addr, %q"','fmt.Fprintf(w, "\\treturn z.s.Send(&seth.Address{}, %q"')),
b('ret1',('retargs = append(retargs, fmt.Sprintf("ret%d %s", i, rettype(d.Outputs[i].Type)))','retargs = append(retargs, fmt.Sprintf("ret%d %s", i, rettype(d.Outputs[0].Type)))')),
b('lastempty',('for i := range contracts {','for i := range contracts {\n\t\tif i > 1 {\n\t\t\tbreak\n\t\t}')),
b('usage',('\tif len(args) == 0 {\n\t\tusage()\n\t}\n','')),
s('wrstr',('w := bytes.NewBuffer(nil)','w := new(bytes.Buffer)')),
s('varbuf',('w := bytes.NewBuffer(nil)','var out bytes.Buffer\n\tw := &out')),
s('sprint',('argstrs = append(argstrs, fmt.Sprintf("arg%d %s", i, typeconv(d.Inputs[i].Type)))','argstrs = append(argstrs, "arg"+fmt.Sprint(i)+" "+typeconv(d.Inputs[i].Type))')),
s('noimport',('\tfmt.Fprintf(w, "import (\\n\\t\\"github.com/philhofer/seth\\"\\n)\\n\\n")\n','')),
s('import1',('"import (\\n\\t\\"github.com/philhofer/seth\\"\\n)\\n\\n"','"import \\"github.com/philhofer/seth\\"\\n\\n"')),
s('recvname',('fmt.Fprintf(w, "func (z *%s) %s("','fmt.Fprintf(w, "// a method\\nfunc (z *%s) %s("')),
s('index',('fmt.Fprintf(w, "func New%s(addr *seth.Address, sender *seth.Sender) *%[1]s {\\n", c.Name)','fmt.Fprintf(w, "func New%s(addr *seth.Address, sender *seth.Sender) *%s {\\n", c.Name, c.Name)')),
s('fields',('"\\taddr  *seth.Address")','"\\tat  *seth.Address")'),('return &%s{addr: addr, s: sender}','return &%s{at: addr, s: sender}'),('\\terr = z.s.ConstCall(z.addr','\\terr = z.s.ConstCall(z.at'),('\\treturn z.s.Send(z.addr','\\treturn z.s.Send(z.at')),
s('twostep',('fmt.Fprintf(w, "\\treturn z.s.Send(z.addr, %q", d.Signature())','fmt.Fprintf(w, "\\ts, a := z.s, z.addr\\n\\treturn s.Send(a, %q", d.Signature())')),
s('writefile',('\tf := outfile()\n\t_, err = f.Write(buf)\n','\tif ofile != "" {\n\t\terr = ioutil.WriteFile(ofile, buf, 0666)\n\t} else {\n\t\t_, err = os.Stdout.Write(buf)\n\t}\n'),('\t\tfatal(err)\n\t}\n\tf.Close()\n}','\t\tfatal(err)\n\t}\n}'),('func outfile() io.WriteCloser {\n\tif ofile != "" {\n\t\tf, err := os.Create(ofile)\n\t\tif err != nil {\n\t\t\tfatal(err)\n\t\t}\n\t\treturn f\n\t}\n\treturn os.Stdout\n}\n','')),
s('stderrusage',('fatal("usage: bindgen -c<contract> <files ...>")','flag.PrintDefaults()\n\tfatal("usage: bindgen -c<contract> <files ...>")')),
s('builder',('func generate(w io.Writer, c *seth.CompiledContract) {','func generate(out io.Writer, c *seth.CompiledContract) {\n\tw := new(strings.Builder)\n\tdefer func() { io.WriteString(out, w.String()) }()')),
s('method',('func typeconv(a string) string {','func typeconv(a string) string {\n\tif strings.HasSuffix(a, "[]") && a[:len(a)-2] == "address" {\n\t\treturn "*seth.AddrSlice"\n\t}')),
s('intslice',('case "uint256[]":\n\t\treturn "*seth.IntSlice"','case "uint256[]", "int256[]":\n\t\treturn "*seth.IntSlice"')),
s('closef',('\tf.Close()\n}\n\nfunc typeconv','\tif err := f.Close(); err != nil {\n\t\tfatal(err)\n\t}\n}\n\nfunc typeconv')),
s('order',('sources = append(sources, readfile(args[i]))','sources = append([]seth.Source{readfile(args[i])}, sources...)')),
]
