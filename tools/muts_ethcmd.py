B='cmd/eth/balance.go'; K='cmd/eth/block.go'; C='cmd/eth/client.go'; J='cmd/eth/jumptab.go'; P='cmd/eth/post.go'; R='cmd/eth/recover.go'; G='cmd/eth/keygen.go'; D='cmd/eth/code.go'
def b(n,*e): return (n,'bug',['C36'],list(e))
def s(n,*e): return (n,'same',['C36'],list(e))
MUTS=[
b('firstaddr',(B,'bal, err := c.GetBalance(&addrs[i])','bal, err := c.GetBalance(&addrs[i/2])')),
b('dhex',(B,'} else if decbalance {','} else if decbalance && bal.Int64() > 0 {')),
b('balcc',(B,'Currency: "ETH", Amount','Currency: "SAI", Amount')),
b('balskip',(B,'			fatalf("fatal error getting balance: %s\\n", err)','			debugf("fatal error getting balance: %s\\n", err)\n			continue')),
b('balparse',(B,'			fatalf("cannot convert %q to address: %s\\n", args[i], err)','			debugf("cannot convert %q to address: %s\\n", args[i], err)\n			addrs = addrs[:i]\n			break')),
b('rangestart',(K,'	if start < 0 {','	if start == seth.Pending {')),
b('rangenum',(K,'		start = int64(*b.Number)','		start = int64(*b.Number) - 1')),
b('rangelt',(K,'i := int64(0); i < diff; i++','i := int64(0); i <= diff; i++')),
b('rangeneg',(K,'		if num < 0 {','		if num < -1 {')),
b('rangezero',(K,'		if num < 0 {','		if num <= 0 {')),
b('op',(K,'if opstr == "-" {','if opstr == "-" && start > 0 {')),
b('pending',(K,'args = append(args, "pending")','args = append(args, "latest")')),
b('nonum',(K,'		if b.Number == nil {\n			fatalf("block %q has no number\\n", split[0])\n		}\n','')),
b('parts',(K,'	if len(split) != 2 {','	if len(split) < 2 {')),
b('httponly',(C,'strings.HasPrefix(url, "http")','strings.HasPrefix(url, "http:")')),
b('infura',(C,'strings.Contains(url, "api.infura.io")','strings.Contains(url, "infura")')),
b('base10',(C,'strconv.ParseInt(s, 0, 64)','strconv.ParseInt(s, 10, 64)')),
b('earliest',(C,'	case "earliest":\n		return 0\n','	case "earliest":\n		return 1\n')),
b('latest',(C,'		return seth.Latest\n','		return seth.Pending\n')),
b('codex',(D,'"%x\\n", b','"%#x\\n", b')),
b('code1',(D,'if len(args) != 1 {','if len(args) < 1 {')),
b('jmp12',(J,'for len(base) > 12 {','for len(base) > 64 {')),
b('jmp4',(J,'if pwidth > 4 {','if pwidth > 3 {')),
b('jmpend',(J,'pushbytes[4-pwidth:]','pushbytes[:pwidth]')),
b('jmpdup2',(J,'copy(prefixbytes[:], base[2:6])','copy(prefixbytes[:], base[1:5])')),
b('jmpname',(J,'"totalSupply()",\n','"totalSupply(uint256)",\n')),
b('jmporder',(J,'	"6000357c01000000000000000000000000000000000000000000000000000000009004",\n',''),(J,'var prefixes = []string{\n','var prefixes = []string{\n	"6000357c01000000000000000000000000000000000000000000000000000000009004",\n')),
b('jmpsig',(J,'		sigword := binary.LittleEndian.Uint32(entries[i].prefix[:])\n','		sigword := uint32(entries[i].prefix[0]) | uint32(entries[i].prefix[1])<<8\n'),(J,'dict[binary.LittleEndian.Uint32(h[:4])]','dict[uint32(binary.LittleEndian.Uint16(h[:2]))]')),
b('postearly',(P,'		out = append(out, buf)\n	}\n\n	c := client()\n	for i, b := range out {\n','		out = append(out[:0], buf)\n\n	c := client()\n	for i, b := range out {\n'),(P,'		fmt.Println(tx.String())\n	}\n','		fmt.Println(tx.String())\n	}\n	}\n')),
b('postlast',(P,'		fmt.Println(tx.String())\n','		if i == len(out)-1 || i < 1 {\n			fmt.Println(tx.String())\n		}\n')),
b('postskip',(P,'			fatalf("sending arg %d: %s\\n", i, err)','			debugf("sending arg %d: %s\\n", i, err)\n			continue')),
b('postnl',(P,"hexbuf[len(hexbuf)-1] == '\\n'","hexbuf[len(hexbuf)-1] == '\\r'")),
b('poststdin',(P,'if a == "-" {','if a == "-" && i == 0 {')),
b('recpub',(R,'	if ecrpub {','	if ecrpub && len(args) > 1 {')),
b('rechash',(R,'		hash = seth.HashBytes(b)','		hash = seth.HashString(string(b) + "\\n")')),
b('recargs',(R,'len(args) < 1 || len(args) > 2','len(args) < 1')),
b('genname',(G,'		name = args[0]\n','		name = "eth-" + args[0]\n')),
b('genout',(G,'		out = os.Stdout\n	}\n','		out = os.Stdout\n	}\n	if name != "" {\n		out = os.Stdout\n	}\n')),
b('gencreate',(G,'			fatalf("creating %s: %s\\n", keygenout, err)\n','			out = os.Stdout\n')),
s('genraw',(G,'	name := ""\n	if len(args) == 1 && args[0] != "" {\n','	var name string\n	if len(args) > 0 {\n')),
s('blockloop',(K,'	for i := range args {\n		if strings.ContainsAny(args[i], "+-") {\n			blockrange(c, args[i])','	for i, arg := range args {\n		if strings.ContainsAny(arg, "+-") {\n			blockrange(c, arg)')),
s('hexcode',(D,'	fmt.Printf("%x\\n", b)\n','	for i := 0; i < len(b); i++ {\n		fmt.Printf("%x", b[i:i+1])\n	}\n	fmt.Println()\n')),
s('jmpmap',(J,'		sig := dict[sigword]\n		if sig == "" {','		sig, ok := dict[sigword]\n		if !ok {')),
s('balprint',(B,'		amt := cc.Amount{Currency: "ETH", Amount: (big.Int)(bal)}\n		fmt.Println(amt.String())','		amt := &cc.Amount{Currency: "ETH", Amount: (big.Int)(bal)}\n		fmt.Printf("%s\\n", amt)')),
s('postone',(P,'		buf := make([]byte, hex.DecodedLen(len(hexbuf)))\n		_, err = hex.Decode(buf, hexbuf)\n','		buf, err := hex.DecodeString(string(hexbuf))\n')),
s('arrkey',(J,'dict := make(map[uint32]string)','dict := make(map[[4]byte]string)'),(J,'		dict[binary.LittleEndian.Uint32(h[:4])] = sig\n','		var k [4]byte\n		copy(k[:], h[:])\n		dict[k] = sig\n'),(J,'		sigword := binary.LittleEndian.Uint32(entries[i].prefix[:])\n		sig := dict[sigword]','		sig := dict[entries[i].prefix]')),
s('bigkey',(J,'dict[binary.LittleEndian.Uint32(h[:4])]','dict[binary.BigEndian.Uint32(h[:4])]'),(J,'binary.LittleEndian.Uint32(entries[i].prefix[:])','binary.BigEndian.Uint32(entries[i].prefix[:])')),
s('strkey',(J,'dict := make(map[uint32]string)','dict := make(map[string]string)'),(J,'dict[binary.LittleEndian.Uint32(h[:4])]','dict[string(h[:4])]'),(J,'		sigword := binary.LittleEndian.Uint32(entries[i].prefix[:])\n		sig := dict[sigword]','		sig := dict[string(entries[i].prefix[:])]'),(J,'	"encoding/binary"\n','	"encoding/binary"\n'),),
]
