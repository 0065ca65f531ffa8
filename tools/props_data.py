AI = 'interprocedural abstract interpretation over Go SSA (value numbering, loop fixpoints); obligations per path'
NOTE = 'Every path of the anchored functions, through all inlined callees and loop fixpoints, is decided from the SSA of the current source; library calls are modelled by their documented behaviour. '

prop('C01', 'Every RPC request is completed exactly once',
 'Every request sent over a shared RPC connection ends exactly once: with the answer that carries its own ID or with an error, never with the answer to another request. When the connection breaks, every waiting request is failed and the next request opens a new connection.',
 ['schedules', 'fault_sequences'],
 'Any number of concurrent callers, any order of answers, connection failures at any point in reading, writing or dialling, and answers with unknown IDs.',
 'The tests use one caller at a time against a live or simulated chain; interleavings of callers, reader and connection failure are never sampled.',
 ['client.go'],
 [('pending table keyed by request ID under a mutex; reader goroutine removes an entry before completing it; abort fails all entries', 'client.go RPCTransport.Execute, background, abort')],
 AI + '; lock-set typestate over the pending table', NOTE + 'Assumes sync, encoding/json and channels behave as documented and that a Request is not given to the transport twice at the same time.')

prop('C02', 'A failed request never looks successful',
 'A client request reports success only if the exchange succeeded, the answer holds neither an error nor null, and its result was decoded completely. An error object in an answer reaches the caller unchanged, and null is reported as not found.',
 ['inputs', 'fault_sequences'],
 'Every request method and transport, every answer a node can give and every failure of the exchange.',
 'The tests talk to well-behaved nodes; failing exchanges, error objects, statuses and malformed results are not fed to every method.',
 ['client.go'],
 [('Client.Do checks error and null before decoding; transports check status and decode errors', 'client.go Client.Do, HTTPTransport.Execute, InfuraTransport.Execute, RPCTransport.background')],
 AI + '; error-value tracing', NOTE + 'Assumes encoding/json and net/http behave as documented.')

prop('C03', 'Each client method asks the node exactly what it was asked',
 'Every client method sends one request with the protocol method of that name, with the caller\'s values as its parameters in protocol order and encoding, and returns the value the node answered. Block selectors are sent as the name or number the caller chose.',
 ['inputs'],
 'Every request method, all argument values (addresses, hashes, block numbers and selectors, flags, filters with any mix of missing parts).',
 'Tests of most methods need a live node and never run; those that run sample single arguments.',
 ['client.go'],
 [('per-method parameter construction and decoding', 'client.go Client methods')],
 AI + '; request terms compared with the JSON-RPC parameter layout', NOTE + 'The parameter layout table is taken from the Ethereum JSON-RPC specification.')

prop('C04', 'Log filters deliver each log in order and end exactly once',
 'A log filter delivers every log the node returned, in the order received and each exactly once, and keeps polling only if it was opened at the latest block. Its output is closed exactly once, after a failure that the filter then reports or soon after it is closed, even if nobody receives its logs. Closing it from any goroutine, repeatedly, uninstalls it at the node once.',
 ['inputs', 'schedules', 'fault_sequences'],
 'Any batches of logs, any schedule of receiver, poller and closers, and a failure at any fetch.',
 'The tests read one filter on a simulated chain with a receiver that always listens; closing while logs are being sent, failures in the middle and concurrent closers are not sampled.',
 ['filter.go'],
 [('goroutine that fetches, sends under select with the exit channel, and closes the output', 'filter.go frecv, send'), ('closed flag under the mutex', 'filter.go Filter.Close')],
 AI + '; channel typestate of the filter goroutine', NOTE + 'Assumes channels, select and sync behave as documented.')

prop('C05', 'Block iterators deliver consecutive blocks until stopped',
 'A block iterator delivers the blocks with consecutive numbers from its starting number, skipping and repeating none whatever fetches fail in between. Once stopped it closes its output and ends, even if nobody receives its blocks.',
 ['inputs', 'schedules', 'fault_sequences'],
 'Any starting number, any pattern of failing or missing blocks, any schedule of receiver and stopper.',
 'The tests iterate over a handful of existing blocks with a receiver that always listens.',
 ['seth.go'],
 [('iteration goroutine', 'seth.go BlockIterator.getLoop, Client.IterateBlocks')],
 AI + '; channel typestate and loop-variant analysis of the iterator goroutine', NOTE + 'Assumes channels and select behave as documented.')

FD = 'static abstract interpretation over SSA with constant-trip-count unrolling and if-conversion; finite-domain evaluation of the summary terms against the specification'

prop('C06', 'Hex text stands for exactly the bytes it spells',
 'Parsing an address, a hash, a private or public key, a signature or byte data accepts exactly 0x followed by hex digits of fitting length (an odd number of digits has an implied leading zero), yields the bytes those digits spell whatever the destination held before, and reports an error for anything else. Writing them yields 0x and every byte as two lower-case digits, so what is written reads back as the same value.',
 ['inputs'],
 'Every text of a length around the exact one (addresses, hashes, keys, signatures) or up to 12, around 66 and of 131 characters (byte data): every value of every character, all pairs of neighbouring digits; every byte value when writing.',
 'Round-trip tests sample a few well-formed texts; each position of each wrong, short, long and odd text decoded over a used destination is not.',
 ['hex.go', 'seth.go', 'signature.go'],
 [('digit loop with an odd-length offset', 'hex.go hexdecode, hexstring'), ('text methods', 'seth.go Address, Hash, Data, Bytes; signature.go PrivateKey, PublicKey, Signature')],
 FD, 'Bounded: lengths as listed; positions are varied one at a time and in neighbouring pairs around an all-zero text; the per-position terms show independence beyond that. Assumes encoding/hex, fmt and bytes behave as documented.')

prop('C07', 'Quantity text stands for exactly one number',
 'Parsing a quantity accepts 0x and hex digits, or decimal digits, plain or as a JSON string, yields the number they denote, and reports an error for other text and for a number that does not fit a 64-bit quantity; JSON null leaves the value as it was. Writing a number yields 0x and its hex digits without leading zeros, and 0x0 for zero.',
 ['inputs'],
 'Texts of 2 to 131 characters, numbers of 0 to 65 bytes: every value of every position and all pairs of neighbouring digits.',
 'Tests read and write a handful of numbers; leading zeros, odd digits, the edges of 64 bits, null and malformed text at every position are not sampled.',
 ['seth.go', 'hex.go'],
 [('text and JSON methods', 'seth.go Int, Uint64')],
 FD, 'Bounded: lengths as listed. Negative numbers are outside the statement. Assumes math/big, encoding/hex and bytes behave as documented.')

prop('C08', 'Transactions are signed and sent in the standard encoding',
 'The hash a transaction is signed with is the Keccak-256 of the RLP list of its nonce, gas price, gas, recipient (empty for a creation), value, data, chain 1 and two zeros. Its raw form is the RLP list of the same six fields followed by the recovery value plus 37, r and s, every number without leading zeros. When signing fails there is an error and no raw form.',
 ['inputs'],
 'Numbers of 0 to 33 bytes (64-bit ones: all edges of every byte length), data of 0 to 257, 65535 and 65536 bytes, both recipients, every signature.',
 'Tests compare a few recorded transactions; the edges of the length prefixes and of single-byte fields are not among them.',
 ['transaction.go', 'seth.go'],
 [('RLP encoder', 'transaction.go rlpEncoder'), ('hash and raw form', 'transaction.go HashToSign, Encode, SignTransaction')],
 FD, 'Bounded: field lengths as listed, varied one field at a time; the Keccak-256 permutation is taken as given (the analysis shows which bytes go into it). Assumes math/big and bytes behave as documented.')

prop('C09', 'Calls are encoded as the contract ABI prescribes',
 'The data of a call is the first four bytes of the Keccak-256 of its signature, then the arguments in the contract ABI encoding: addresses and (two\'s complement) integers as left-filled words, fixed bytes as right-filled words, and byte strings and lists as the offset of a tail that holds their count and their padded contents. A value that does not fit its word panics instead of being encoded.',
 ['inputs'],
 'Every argument type in several sizes, all pairs of types and longer lists; integers at and around every power of two and range edge up to 300 bits, every byte of the other contents; tails longer and further away than one and two bytes can count.',
 'Tests encode a handful of calls; several tails, empty and unaligned contents and the edges of the integer range are not among them.',
 ['send.go'],
 [('head and tail layout', 'send.go ABIEncode'), ('per-type words', 'send.go EncodeABI methods')],
 FD, 'Bounded: argument lists as listed; parts are varied one at a time. The hash function is taken as given. Assumes math/big and encoding/binary behave as documented.')

prop('C10', 'Contract answers are decoded within their bounds',
 'Decoding a contract\'s answer gives each destination the value of its word, or the contents found at the offset its word gives. An offset or length that reaches outside the answer is an error, whatever number it is, and decoding never panics.',
 ['inputs'],
 'Every destination type; answers with valid layouts, cut ends, and offset and length words at the edges of the answer and of 32, 63, 64 and 256 bits, tails beyond 64 KB; every value-changing byte.',
 'Tests decode a few well-formed answers; hostile offsets and lengths, several tails and cut answers are not sampled.',
 ['send.go'],
 [('bounds of dynamic values', 'send.go dynamic'), ('destination switch', 'send.go DecodeABI, ABIDecoder.UnmarshalText')],
 FD, 'Bounded: answers as listed. Integers that do not fit a narrower destination, words cut short and tails that overlap the head are outside the statement. Assumes math/big behaves as documented.')

prop('C11', 'Calls whose arguments do not fit the signature are refused',
 'Encoding a call panics if the signature is malformed or contains illegal characters, if the number of arguments differs from the signature\'s, or if an argument cannot be of the declared type (addresses, 256-bit integers, 32-byte values, lists). Arguments that match the signature are accepted.',
 ['inputs'],
 'Every argument type for every declared type in every position of lists of up to three, missing and surplus arguments, every illegal character and malformed parentheses.',
 'Tests pass matching arguments; mismatches in later positions, empty lists and malformed signatures are not sampled.',
 ['send.go'],
 [('signature check before encoding', 'send.go typecheck')],
 FD, 'Bounded: argument lists of up to three. Declared types the library does not check (narrow integers, other fixed bytes) are outside the statement.')

prop('C16', 'Calls, blocks and receipts become the transactions and transfers they hold',
 'The transaction of a call has its sender, recipient, gas, gas price, value, nonce and data, and what the call leaves out is absent or zero; parsing the transactions of a block gives every one in order, or an error if one cannot be decoded. A log is reported as a token transfer exactly if it has three topics, the first the hash of Transfer(address,address,uint256) and the others one word each; the transfer has the block and index of the receipt, the address of the log, the low 20 bytes of the two words, and the number the data spells. A receipt has thrown exactly if its status is zero.',
 ['inputs'],
 'Every combination of absent fields, unknown field contents with edges, every count of topics from 0 to 4 and lengths around a word, every single changed bit position of the first topic (one bit per byte), blocks of 0 to 4 transactions with each subset undecodable.',
 'The tests parse transfers of recorded blocks and use a few calls; logs that nearly are transfers, absent fields in combination and undecodable transactions in the middle are not among them.',
 ['send.go', 'seth.go'],
 [('call to transaction', 'send.go CallOpts.Transaction'), ('logs and blocks', 'seth.go Receipt.ParseTransfer, Receipt.Threw, Block.ParseTransactions')],
 'static abstract interpretation over SSA along paths chosen by sample values; every field of the result compared with its origin',
 'Bounded as listed. Gas and gas price are taken to be given, gas below 2^64. Assumes encoding/json decodes as documented.')

prop('C17', 'Curve points are added and multiplied exactly',
 'Adding and doubling points of secp256k1, including equal, opposite and infinite ones, and multiplying a finite one by a number of any size, gives the exact point of the group with both coordinates below the prime, infinity being the pair of zeroes, and changes no operand. A pair of coordinates is said to be on the curve exactly if y squared is x cubed plus 7 modulo the prime. The field arithmetic underneath is exact modulo the prime for every input within the magnitudes its comments allow, and reducing a value gives the one representation below the prime.',
 ['inputs'],
 'Field operations: every input up to magnitude 32, with and without operands that are the same variable. Points and scalars: points in general position and every special relation between two of them, scalars at 0, 1, the order, their neighbours, edges of the words and of the endomorphism, and pseudo-random ones, up to 96 bytes.',
 'Tests use a few dozen recorded points; a lost carry needs limbs that are nearly full, which random inputs meet with a chance below one in a billion.',
 ['ec/field.go', 'ec/btcec.go', 'ec/secp256k1.go'],
 [('limb arithmetic and reduction', 'ec/field.go'), ('point formulas, scalar multiplication, the endomorphism', 'ec/btcec.go'), ('table of multiples of the base point', 'ec/secp256k1.go')],
 'static abstract interpretation over SSA: limbs as polynomials with symbolic carries and intervals, field elements as terms modulo the prime with magnitudes, paths chosen by sample values',
 'The limb arithmetic is shown for all inputs within the magnitudes; the formulas and the multiplication along the listed points and scalars. The table of the base point is checked entry by entry; that it is loaded as it is spelled is assumed.')

prop('C18', 'Values stored in binary form are read back exactly as they were',
 'Every block, transaction, receipt, log, transfer, amount that is not negative, address, hash and compiled bundle that is encoded in the binary form is read back equal in every exported field, absent parts as absent, whatever the value decoded into held before. Both ways of encoding give the same bytes, each can be read in both ways, and what precedes and follows the value in the stream is left as it was. A stream that ends early and a writer that fails give an error and never a value taken for complete, and fields that are not known are skipped.',
 ['inputs'],
 'Every type with an encoder, with unknown contents, twelve patterns of absent pointers and of lists and texts up to nine elements, four targets with other contents, streams cut at up to 120 places and writers failing at as many, an unknown field with nested contents.',
 'The generated tests encode zero values only and never compare what comes back.',
 ['seth_gen.go', 'compile_gen.go', 'seth.go'],
 [('blocks, transactions, logs', 'seth_gen.go EncodeMsg, DecodeMsg, MarshalMsg, UnmarshalMsg'), ('compiled bundles', 'compile_gen.go'), ('amounts', 'seth.go Int.EncodeMsg, DecodeMsg, MarshalMsg, UnmarshalMsg')],
 'static abstract interpretation over SSA of the encoders and decoders against a model of the message stream; what is read back is compared term by term', 'The msgp library is taken to do what it says. Empty and absent lists are not told apart, and contents of nonsensical size in a malformed stream are outside the statement.')

prop('C19', 'Trees are maps whose snapshots and copies never change',
 'The test chain\'s tree behaves as a map: a lookup gives the last value inserted for the key unless it was deleted since, deletion reports whether the key was there, and iteration yields every pair once in key order until told to stop. No later operation on a tree or on any copy of it changes what a snapshot holds, a copy and its original never affect each other, and rolling back restores exactly the snapshot.',
 ['inputs', 'histories'],
 'Every sequence of operations up to a depth from trees built in every insertion order, with several snapshots and copies; keys and values are unknown.',
 'Tests run a few random histories of one tree; what an operation on one copy does to the snapshots of another shows only in specific histories.',
 ['tevm/tree.go'],
 [('copy on write', 'tevm/tree.go setLeft, setRight, setPair'), ('shared backing arrays', 'tevm/tree.go CopyAt, Rollback, Snapshot')],
 FD, 'Bounded: start trees of up to seven keys, two to four further operations, one copy. Snapshots later than one rolled back to are outside the statement.')

prop('C20', 'The test chain\'s state is what was written last, and reverts undo it all',
 'For every account and storage slot, the state handed to the virtual machine gives the balance, nonce, code, storage word, existence, emptiness and self-destruct flag that the last operation left, and an operation on one account or slot affects no other. Reverting to a snapshot restores every one of these, the refund counter and the logs exactly as they were when it was taken, through any nesting of snapshots.',
 ['inputs', 'histories'],
 'Every sequence of up to three operations from eight starting states, with nested snapshots; code, words and logs unknown.',
 'Tests execute a few contracts; which part of the state survives a revert depends on what was written before and after the snapshot.',
 ['tevm/evm.go', 'tevm/tree.go'],
 [('snapshot and revert', 'tevm/evm.go Snapshot, RevertToSnapshot'), ('state reads and writes', 'tevm/evm.go gethState')],
 FD, 'Bounded: histories as listed, three accounts, two slots each, balances and nonces from a few magnitudes. Chains without a fallback. Assumes that Keccak-256 images of different keys differ.')

prop('C24', 'Mined transactions, receipts and blocks can be queried as they were',
 'A mined transaction is executed once in the pending block with its own sender, recipient (a contract creation if it has none), gas, value and data, and is afterwards found by its hash with the fields it was sent with and its block, number and index. Once its block is sealed, its receipt gives its status, the gas it used, the gas used so far in the block, the contract it created and exactly the logs it emitted. Every sealed block and the pending one are found by number and by hash with their transactions in order, and each block follows its parent.',
 ['inputs', 'histories'],
 'Every sequence of up to four calls, failing calls, contract creations and seals; all transactions, receipts and blocks asked for after every step.',
 'Tests mine one transaction per block; indexes, cumulative gas and logs of the second transaction of a block, failures in the middle and several blocks are not sampled.',
 ['tevm/evm.go', 'tevm/transport.go'],
 [('mining and sealing', 'tevm/evm.go mine, seal'), ('queries', 'tevm/transport.go receipt, transaction, getBlock')],
 FD, 'Bounded: histories of up to four steps. The virtual machine is replaced by outcomes that write the state and emit logs; the generated codecs are taken to give back what was encoded. The index of a log within its block is outside the statement.')

prop('C30', 'Compiled code is matched exactly to its source, signatures and metadata',
 'For every position of a program, data of push instructions included, SourceOf gives exactly the text that the source map names for the instruction at it, each map entry inheriting what it leaves out from the one before; whatever the map, the code and the sources are, a position, file or range that does not exist gives an empty text, never a failure. Find gives the first function or event with exactly that signature, made of the name and the types of the inputs in order, and Contract the one with exactly that name. MetadataHash is the hash in the metadata at the very end of the code, none if it has no such end, and StripBytecode takes away exactly the metadata.',
 ['inputs'],
 'Source maps of one to four fields with inherited ones, files and ranges outside the sources and ints at their limits, all PUSH widths and their neighbours, every position and some outside; names and signatures that are prefixes of each other; code shorter than, equal to and longer than the metadata, and nearly matching, with unknown bytes.',
 'Tests need a compiler that may be missing and look at a few positions of one contract; generated code without file, inherited fields and wide pushes come together in specific contracts only.',
 ['compile.go', 'abi.go'],
 [('source maps', 'compile.go CompiledBundle.SourceOf'), ('metadata', 'compile.go MetadataHash, StripBytecode'), ('lookup', 'abi.go Find, Signature; compile.go Contract')],
 'abstract interpretation over Go SSA along paths chosen by sample values; results compared with an independent reading of the map', 'Bounded: the maps, programs and descriptors named. Map entries with a fifth field, tuple types in signatures and positions in push data that is cut off by the end of the code are outside the statement.')

prop('C31', 'Money amounts and exchange rates are exact decimal numbers',
 'Rates (multiples of 10^-8) and amounts (multiples of the smallest unit of their currency) are exact at any size: a decimal text with no more decimals than that is read as exactly its value, any other text is an error, texts and JSON are exact and read back as the same number, and a rate made from a float is the nearest one. Converting multiplies exactly and rounds down once to the smallest unit of the other currency, inverses round down (the inverse of zero is zero), a pair converts either way, and a sum, difference or comparison of amounts, or a conversion by a pair, in currencies that do not match panics, as does a currency registered under a name or address that is taken. No operation changes anything but its receiver, and copies are independent.',
 ['inputs'],
 'Texts of all lengths and signs with unknown digits, malformed texts, amounts and rates of all magnitudes in currencies with 0 to 19 decimals, every pair of those, and sequences of two operations on copies.',
 'Tests convert a few well-known values; lengths, signs, decimals and shared words matter in specific combinations only.',
 ['cc/currency.go'],
 [('texts', 'cc/currency.go parseDigits, widestring'), ('conversion', 'cc/currency.go Convert, Rate.Inverse, Pair.Convert'), ('registry', 'cc/currency.go registerCurrency')],
 'abstract interpretation over Go SSA along paths chosen by sample values; terms over unknown digits compared with exact rational arithmetic', 'Paths are chosen by sample values, and the term a path computes is compared at every sample that takes it; values between the samples are taken to behave alike. Amounts and rates below zero may be rounded either way; whether digits past the precision are accepted when they are zeros, white space around JSON, and reading with other verbs of fmt are outside the statement.')

prop('C32', 'eth signs with the one key that was asked for, or not at all',
 'The keys eth knows are the JSON key files of version 3 with a cipher, key derivation and MAC in the directories of the key path and the keys of the modules, each listed once with its address and its name or id; a key specification picks the one key whose address or id it matches as a pattern, and a specification that is missing, malformed or matches no key or several ends the command with a failure and without a signature. eth sign then asks for the passphrase, signs with exactly that key the Keccak-256 hash of the prefix and the bytes of the file (or of the standard input for -), or with -h the 32 bytes given, and prints the signature in the form asked for. A key that does not open with the passphrase, a passphrase that is not typed, a file that cannot be read and options that contradict each other end the command without a signature.',
 ['inputs'],
 'Directories with up to six keys, files that are no keys, modules with several keys, modules that fail, names and addresses matched in part, documents of unknown bytes, three output forms, prefixes, failing passphrases.',
 'The command has no tests; which key signs depends on which files, names and modules there are.',
 ['cmd/eth/keys.go', 'cmd/eth/sign.go', 'cmd/eth/keylist.go', 'cmd/eth/hsm.go'],
 [('the keys', 'cmd/eth/keys.go keys, keypaths; cmd/eth/hsm.go hsmprobe'), ('the choice', 'cmd/eth/keys.go signer'), ('what is signed', 'cmd/eth/sign.go sign'), ('the list', 'cmd/eth/keylist.go')],
 'static abstract interpretation over SSA of the commands from main on with scripted directories, modules and passphrases; the signature printed is a term over the key and the hash, compared with the specification', 'Paths are chosen by sample values. A key directory that is missing ends the command; whether the id of a key that has a name is still matched is left open. What a key file decrypts to and what a signature is are the subject of other properties.')

prop('C33', 'eth call and eth read make exactly the call that was typed, or none',
 'eth call signs and sends exactly one transaction, to the address given, with the ABI encoding of the function and of the values the arguments stand for (integers in any base, signed ones down to their least value, texts as they are, arrays of integers, booleans and addresses), at the gas price and, if given, the nonce of the options, and prints its hash; eth read makes exactly that call and prints the values in the answer as the types say, negative integers as such. An argument that is no value of its type, a missing one, an ill-formed signature, a type or option that is unknown, and a function that is not in the jump table of the contract unless that check is turned off, end the command with a failure before anything is signed, sent or called. A failing node or an answer that lacks the values makes the command fail and print nothing.',
 ['inputs'],
 'Texts of every supported type with unknown digits and at the bounds of every width, arrays, malformed texts and signatures, up to four arguments, options, six forms and up to four entries of jump tables, answers of every type.',
 'The command has no tests; widths, signs and bases matter at their bounds only.',
 ['cmd/eth/call.go', 'cmd/eth/read.go', 'cmd/eth/jumptab.go'],
 [('arguments', 'cmd/eth/call.go parsearg, etherint, etherdata, etherarr, etherstring'), ('signatures and jump tables', 'cmd/eth/call.go parsefn; cmd/eth/jumptab.go jumpentries'), ('what is sent', 'cmd/eth/call.go call'), ('what is printed', 'cmd/eth/read.go read')],
 'static abstract interpretation over SSA of the command from main on, along paths chosen by sample values; call data as terms over unknown digits compared with an independent ABI encoder', 'Paths are chosen by sample values, and the call data of a path is compared at every sample that takes it. Odd numbers of hex digits may be accepted, extra arguments are ignored, a reply that ends within a word may be accepted, bytes1 to bytes31 may be printed with the padding, and what a signature is and which key makes it is the subject of other properties.')

prop('C35', 'Log filters of the test chain give exactly the matching logs',
 'On the test chain, eth_getFilterLogs answers with exactly the logs in the chain that match the filter, in the order they were made: those from its address if it names one, within its block range (an end of latest or pending leaves it open), and with its topics at their positions, null standing for any topic and a log with fewer topics than the filter names not matching. eth_getFilterChanges gives each matching log made since the filter was created exactly once, at the first poll after it was made, whatever other filters and queries do, and logs of failed or reverted executions are not given. Each filter has its own id, and asking an unknown or removed filter is an error.',
 ['inputs', 'histories'],
 'Four histories of transactions with up to two logs, failures, seals, a revert, filters made before, between and after them, polls and removals; a grid of 243 filters over three addresses, nine topic lists and nine block ranges.',
 'The only test watches one event of one contract with one open filter; wildcards, short logs, ranges, several filters and repeated polls are not sampled.',
 ['tevm/transport.go', 'tevm/evm.go'],
 [('filters', 'tevm/transport.go newFilter, filterLogs, filterChanges, deleteFilter'), ('matching', 'tevm/evm.go filter.matches')],
 FD, 'Bounded: the histories and the grid named. Logs come from scripted executions. The first block of a filter is named by its number; what a filter from latest gives of older logs is outside the statement, as is the index of a log.')

prop('C36', 'The eth commands ask for, post and print exactly what was named',
 'eth balance, code, block and jumptab ask the node named by SETH_URL about exactly the accounts and blocks that the arguments name, in their order, and print the answers: balances in ether, hex or decimal without loss, code in hex, the blocks of a range and none after its end at the first block, and every entry of a jump table with its selector, target and, if it is known, its signature. eth post sends exactly the bytes of the files it is given, each once and in order, and prints their hashes; eth recover prints the address or public key that made the signature; eth keygen writes one new key under the name and the passphrase typed to the place named. An argument or file that is malformed or missing ends the command with a failure and, for eth post, before anything is posted, and a node that fails makes the command fail.',
 ['inputs'],
 'Ten balances up to the largest in three forms and several orders, code up to 100 bytes, 27 block specifications and ranges alone and together, up to three transactions of unknown bytes from files and standard input, three documents signed by two accounts, jump tables with up to eight entries in six preambles and four forms, eleven node addresses.',
 'The commands have no tests; ranges, orders and forms matter at their ends only.',
 ['cmd/eth/balance.go', 'cmd/eth/block.go', 'cmd/eth/code.go', 'cmd/eth/jumptab.go', 'cmd/eth/post.go', 'cmd/eth/recover.go', 'cmd/eth/keygen.go', 'cmd/eth/client.go'],
 [('accounts and blocks', 'cmd/eth/balance.go getbal; cmd/eth/block.go block, blockrange; cmd/eth/code.go code'), ('jump tables', 'cmd/eth/jumptab.go jumptab, jumpentries'), ('transactions', 'cmd/eth/post.go post'), ('keys', 'cmd/eth/recover.go ecrecover; cmd/eth/keygen.go keygen'), ('the node', 'cmd/eth/client.go client')],
 'static abstract interpretation over SSA of the commands from main on against a scripted node, files and keys; requests and what is printed compared with the specification', 'Paths are chosen by sample values. Ranges that begin with a sign print nothing or fail, a jump table that does not start after a known preamble is refused, and how amounts, signatures and key files work is the subject of other properties.')

prop('C23', 'A fork is the chain it forks with its own changes on top',
 'Everything read on a fork of a chain (balances, nonces, code, storage, the existence of accounts) that was not changed on the fork is what the forked chain has at the block of the fork, never at another block. What was written on the fork takes precedence, also where zero or empty code was written, until it is reverted, and copies of a fork are forks too and do not see later changes of each other. The blocks of a fork are numbered from the one after the block it forks and can be queried like those of any test chain.',
 ['inputs', 'histories'],
 'Every sequence of up to two of twenty state operations, from seven starts with changes, snapshots and reverts, on a remote chain with a contract, a plain account, an account with only code, one with only a nonce and one that does not exist.',
 'The tests of forks need a network and are not run; zero writes, emptied code, accounts with only code and reverts over remote values are not sampled.',
 ['tevm/evm.go'],
 [('overlay', 'tevm/evm.go State.Fallback, getAccount, getCode, GetState, SetState'), ('fork', 'tevm/evm.go NewFork')],
 FD, 'Bounded: the histories named. The reads of the remote chain are taken as answered (C02 and C03 cover the client); a failing remote chain is outside the statement.')

prop('C12', 'A hash depends on the bytes written to it and on nothing else',
 'The digest of every Keccak hash of the package is the sponge, with its block size, output length and the original Keccak padding, over all bytes written since it was made or last reset, however they were split into writes and however often digests were taken in between, and the functions that hash a whole message give the same. Taking a digest appends it to what was passed and leaves the hash as it was, a write takes everything, keeps none of the memory it was given and changes no byte of it.',
 ['inputs', 'histories'],
 'All four hashes; one to eight writes whose starts and ends lie at every position around block boundaries, up to three blocks each, some of up to 5000 bytes, with digests in between, resets, and a round that was left unfinished; unknown bytes.',
 'Tests hash whole messages in one write or byte by byte; splits at block boundaries, digests in between and resets come together only in specific histories.',
 ['keccak/sha3.go', 'keccak/hashes.go', 'keccak/xor_unaligned.go'],
 [('sponge', 'keccak/sha3.go Write, Sum, Reset, padAndPermute, permute'), ('absorbing words', 'keccak/xor_unaligned.go')],
 'abstract interpretation over Go SSA of write histories with an uninterpreted permutation; digest terms compared with the sponge construction', 'The permutation itself (assembly on this machine) is an uninterpreted function and outside the statement. Bounded: histories as listed; terms over unknown bytes are compared by evaluation at random bytes.')

prop('C13', 'Key files open with their passphrase only, and malformed ones fail cleanly',
 'Opening a key file with the passphrase it was made with gives exactly the key in it, by the derivation function and parameters, salt, initialization vector and ciphertext the file names; with any other passphrase, a mac, address or length that does not fit, an unknown function or cipher, or missing, malformed or unusable parameters it gives an error, and never a panic or another key. Making a key file and opening it, also after writing it as JSON and reading it back, gives the key again; salt and initialization vector are fresh random bytes for every file, derivation is costly, and neither the key, the derived key nor the passphrase can be read from the file. The file, the key and the passphrase given are not changed.',
 ['inputs'],
 'Files of both derivation functions and all hash functions with each parameter below, at and above its bounds, every part missing, malformed, too short, too long or followed by junk, macs and addresses that differ in one byte or in length, and keys, salts and passphrases of any content.',
 'The tests open two well-formed files with the right passphrase and make one.',
 ['keyfile.go'],
 [('opening', 'keyfile.go Keyfile.Private, kdf, checkmac, aes128ctrDecipher'), ('making', 'keyfile.go PrivateKey.ToKeyfile')],
 'static abstract interpretation over SSA into a free algebra of derivations, hashes and key streams; enumerated classes of well-formed and malformed key files',
 'Bounded: the classes listed; contents of keys, salts and passphrases are unknown bytes, taken to be generic. Collisions of the hash and of key derivation are assumed away, derived keys longer than 32 bytes may be refused, and parameters so large that memory runs out are not considered.')

prop('C14', 'Signatures are valid, canonical and recover the signer\'s key',
 'For every private key and hash the signature made is the ECDSA signature under a nonce that depends on all of both and is never out of range, with s in the lower half of the order and the recovery id that goes with it, and recovering from it gives the key\'s public key and address. A signature is valid exactly if r and s are in range, s is in the lower half and the recovery id is 0 or 1; recovery gives the one key that equation determines, and an error if there is none. Keys and signatures are the big-endian numbers padded to full length, an address is the end of the Keccak hash of the public key, and the numbers given are not changed.',
 ['inputs'],
 'All keys, hashes and nonces as algebraic identities; both sides and the boundary of every comparison, full-length and shorter numbers, nonces out of range, points that do not exist and the point at infinity.',
 'Tests sign with a few random keys: a boundary value of s or r has a chance of 2^-256, shorter numbers are rare, and a weak nonce passes every test.',
 ['signature.go'],
 [('signing', 'signature.go PrivateKey.Sign, NewSignature'), ('recovery', 'signature.go Signature.Recover, Signature.Valid, Signature.Parts, CurvePoint'), ('keys', 'signature.go NewPrivateKey, NewPublicKey, PublicKey.Address, ToECDSA')],
 'abstract interpretation over SSA into algebraic terms (curve, hash and cipher as specifications); identity testing of rational functions modulo the group order; boundary-value path selection',
 'The curve arithmetic of package ec, the Keccak permutation and AES are specifications here and not checked. Keys are between 1 and the order; identities are decided by evaluation at pseudo-random points (error below 2^-200).')

prop('C15', 'A sender sends one complete transaction or fails',
 'A call, message or contract creation made through a sender results in exactly one transaction, with the account, recipient, value, data, gas, gas price and nonce the caller named and for those left out the sender\'s account and price, the estimate of just this call times the ratio, and the next pending nonce; if anything fails before, or the signature is not the account\'s, nothing is sent and an error is returned. With a signer the transaction sent carries the signature of exactly itself. Waiting ends when the transaction is mined and not before, creating gives the address in the receipt, cancelling replaces a pending transaction by a dearer one with its nonce and never a mined one, and draining ends when no pending transaction is the account\'s.',
 ['inputs', 'fault_sequences'],
 'All combinations of named and omitted fields, with and without a signer, every point of failure, gas prices around the sender\'s and beyond 64 bits, and sequences of pending blocks and of answers while waiting.',
 'The tests send with the defaults to a simulated chain that mines at once and never fails.',
 ['sender.go', 'seth.go'],
 [('sending', 'sender.go Sender.Call, Sender.Send, Sender.Create, pad'), ('waiting', 'sender.go Sender.Wait, Sender.Cancel, Sender.Drain')],
 'static abstract interpretation over SSA against a scripted node and an opaque signer; comparison of every request with the specification',
 'Bounded: the combinations listed, with numbers from a grid around the boundaries. Gas is taken to be below 64 bits, times between polls are not decided, and filling in the options given is allowed.')

prop('C22', 'Queries answer from the block they name and change nothing',
 'The test chain answers eth_call, eth_estimateGas and eth_getBalance from the state as it was at the block they name (the pending one for "pending"), executing with the sender, recipient, data, gas and block number asked for, and gives an error if there is no such block or the execution fails. No query, estimate or static call changes anything that can be asked of the chain: balances, nonces, code, storage, logs, refund, transactions, receipts, blocks and the states at earlier blocks.',
 ['inputs', 'histories'],
 'Four chains with up to two sealed blocks, every query with every block parameter, with and without recipient and gas, succeeding and failing.',
 'Tests query the pending block right after setting it up; queries at older blocks with later changes, failing estimates and effects on later queries are not sampled.',
 ['tevm/transport.go', 'tevm/evm.go'],
 [('queries', 'tevm/transport.go staticCall, estimate, balance, getBlock'), ('views of blocks', 'tevm/evm.go atBlock, atSnap')],
 FD, 'Bounded: chains and queries as listed. The virtual machine is replaced by outcomes that write the state; the value sent with eth_call is outside the statement, and whether an account without balance, nonce and code exists is not observed.')

prop('C29', 'Copies and views of a chain are complete and independent',
 'A copy of a test chain, and a chain decoded from its JSON encoding, answer every question as the original does and react to the same operations in the same way; the view of a sealed block shows the accounts, code, storage, transactions and receipts as they were when it was sealed. Nothing done to a copy, a view or a decoded chain changes anything that can be asked of the original, or the other way round.',
 ['inputs', 'histories'],
 'Four chains with up to three sealed blocks; copies, copies of copies, views of every block and decoded encodings; every sequence of two operations (mining, sealing, creating, writing, self-destructing, snapshots and reverts) on one of the two, and operations on both in turn.',
 'Tests copy a chain once and compare a balance; aliasing of slices, maps and trees shows only when both sides go on in specific ways.',
 ['tevm/evm.go', 'tevm/tree.go'],
 [('copies', 'tevm/evm.go Copy, atBlock, atSnap'), ('encoding', 'tevm/evm.go MarshalJSON, UnmarshalJSON')],
 FD, 'Bounded: chains and operations as listed. Log filters and the debugging hook are not observed; encoding/json is taken to give back exported fields. Whether an account without balance, nonce and code exists is not observed.')

prop('C26', 'The test chain answers every request, malformed ones with an error',
 'Every JSON-RPC request that names a method of the test chain with well-formed parameters is answered with a result, and one with an unknown method, a missing, surplus or malformed parameter or (for queries of the state) an unknown block is answered with an error and no result, executes nothing and changes nothing. The answer carries the ID of the request, and a transaction that was sent is executed as given, sealed into a block and found under the hash in the answer. The HTTP handler executes exactly the request it decoded, sends exactly that answer, closes the body, and reports every failure with a status.',
 ['inputs'],
 'All 16 methods, every parameter position, about six malformed and three good values for each kind of parameter.',
 'Tests send well-formed requests through the client, which never produces the malformed ones.',
 ['tevm/transport.go'],
 [('dispatcher', 'tevm/transport.go Execute, execute, marshal'), ('handler', 'tevm/transport.go ServeHTTP')],
 FD, 'Bounded: the parameter values listed; malformed JSON itself is refused by encoding/json, which is taken as documented.')

prop('C25', 'Every operation of a test chain is one atomic step',
 'A test chain may be used by several goroutines at once: every exported operation, and every RPC request, takes effect as one step to which no other operation comes in between. No operation waits for itself, and an operation that fails or panics does not keep later ones from running.',
 ['schedules', 'fault_sequences'],
 'Every exported method of the chain, all its paths through the methods it calls, and every point where a panic can occur.',
 'The tests use a chain from one goroutine; interleavings and panics inside an operation are not sampled.',
 ['tevm/evm.go', 'tevm/transport.go'],
 [('one lock per chain, held by every exported method', 'tevm/evm.go Chain, tevm/transport.go Execute')],
 'interprocedural lock-set typestate analysis over SSA with tracking of pending deferred unlocks', 'Every access to the fields of the chain and what hangs off them is followed from every exported method through all calls inside the package, closures and function values included. Values that an operation gives back are not followed after the lock is released, direct use of the exported State field is the caller\'s responsibility, and nil dereferences of the chain itself are not counted as panics.')

prop('C21', 'Ether moves on the test chain and is neither made nor lost',
 'Sending ether on the test chain, from a caller, a transaction or a program, takes exactly the amount from the sender and gives exactly it to the recipient, whatever the amounts and whether or not the two are the same account or the recipient exists; it fails and moves nothing exactly if the sender has less. Creating an account or contract at an address keeps what is there, a self-destruct moves everything to the beneficiary (and burns it if that is the account itself), a new account has the ether asked for, and the amounts callers pass are not changed.',
 ['inputs', 'histories'],
 'Accounts with balances around every length of their encoding, amounts of nothing, one, everything, one too much and another account\'s balance, sent in every way there is, followed by a second operation.',
 'Tests send small amounts between two different accounts once.',
 ['tevm/evm.go', 'tevm/transport.go'],
 [('transfers', 'tevm/evm.go cantransfer, dotransfer, AddBalance, SubBalance, Suicide, CreateAccount, NewAccount')],
 FD, 'Bounded: amounts and sequences of up to two operations as listed; amounts are constants. Total amounts beyond 2^256, and taking more from an account than it has through SubBalance, are outside the statement.')

prop('C27', 'Cached compilations are those of exactly the same sources',
 'Compiling the same sources again, in any order, gives the same bundle without running the compiler; if any name, text, number or boundary of the sources differs, they are compiled anew. A cached file that is damaged, cut off or empty, and a cache that cannot be written, never change the result, only whether the compiler runs; a failed compilation leaves nothing in the cache. A new compilation of files of the same names removes the old bundles of just those files.',
 ['inputs', 'histories', 'fault_sequences'],
 'Sequences of compilations of related sources on one directory: renamed, changed, with text moved between name and body or between files, reordered, doubled; the cached file cut at every token; every write, directory and file that can fail, and every failure of the compiler.',
 'Tests compile a file once and with a compiler that may be missing; a wrong hit in the cache needs two particular sets of sources in a row, and damage needs a process that was stopped in the middle.',
 ['compile.go', 'compile_gen.go'],
 [('the name of a cached bundle', 'compile.go cachename'), ('reading and writing the cache', 'compile.go cachedBundle, writeCache, Compile')],
 'static abstract interpretation over SSA on a virtual directory with a model compiler; every result, run of the compiler and file is compared with the history',
 'Bounded: the histories listed; texts are unknown. gzip, msgp and os are taken to do what they say, and different contents to have different hashes (prefixes of 48 bits are used). Compile may sort the list it is given.')

prop('C28', 'A bundle holds what the compiler made of exactly the given sources',
 'Compile, CompileGlob and CompileString ask the compiler about exactly the files, names and texts given and return a bundle with every contract of the answer, its name, code, source map and ABI as they are in the answer, the files and their texts at the numbers the compiler gave them, and all its warnings. If a file cannot be read, nothing matches, the compiler fails or cannot be run, or its answer is no JSON, has errors or has code that is not hexadecimal or not linked, the result is an error, never a panic or part of a bundle.',
 ['inputs', 'fault_sequences'],
 'Answers with one to three sources numbered in any order, several contracts, functions, events and constructors, warnings and errors mixed, unlinked and malformed code; compilers that fail to start, exit with a failure, write nothing or garbage.',
 'Tests need a compiler that may be missing, and a real one never gives the odd answers.',
 ['compile.go', 'abi.go'],
 [('asking', 'compile.go compile, CompileGlob, CompileString'), ('the answer', 'compile.go solcout.toBundle, compileError')],
 'static abstract interpretation over SSA against a model compiler that answers in every way listed; requests and bundles are compared field by field with the answer',
 'Bounded: the answers listed. encoding/json and os/exec are taken to do what they say, sources are taken to be numbered from zero, and messages that are not warnings count as errors. The order of the contracts is free.')

prop('C34', 'Code generated by bindgen calls exactly the functions of the contract',
 'For every contract that is named, bindgen writes Go code that compiles, in the package asked for, with one type, a constructor, its bytecode if asked for, and one method for every function of the ABI (except constant ones without results) and for nothing else. A method sends, or for a constant function calls, exactly that function of the contract with its arguments in order, and returns the hash, or the results in order, or the error; the types are those that the encoder takes and that hold every value of the result. A contract, file or flag that does not exist, a failing compiler, names that are not possible in Go and an output that cannot be written end it with a failure, and except in the last case nothing is written.',
 ['inputs', 'fault_sequences'],
 'Contracts with functions of 22 types as arguments and results, up to eleven of them in all positions, constant or not, beside events, constructors and default functions; one to three contracts with similar names; output to a file and not; every failure.',
 'The test needs a compiler that may be missing and uses one contract; a result that is silently narrowed or decoded in the wrong order needs a function of that type.',
 ['bindgen/main.go'],
 [('code generation', 'bindgen/main.go generate, typeconv, rettype'), ('command line, sources and output', 'bindgen/main.go main, readfile, outfile')],
 'static abstract interpretation over SSA of the generator; the code it writes is type-checked, built into SSA and interpreted in turn against a recording sender',
 'Bounded: the contracts listed. Functions are taken to have different names that differ in more than the case of the first letter; other types (tuples, arrays of fixed length, integers of odd widths) and results that are signed integers of more than 64 bits are only taken to compile. imports.Process is taken to add and remove imports only.')
