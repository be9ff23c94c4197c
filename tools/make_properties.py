import json,re
P=[]
def where(sym,files):
    last=re.split(r'::|\(',sym.strip('#[]'))[-1].strip(')]').split(' for ')[-1]
    for f in files:
        t=open('/repo/'+f).read()
        m=re.search(r'(fn|struct|enum|trait|const|type|mod)\s+(ref )?'+re.escape(last)+r'\b',t)
        if m: return f
    return files[0]
def p(id,title,statement,over,text,why,files,syms,state=None,mech=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=y,where=where(y,files)) for y in syms],**({"state":state} if state else {}),**({"observe_at":observe} if observe else {}),hook_needed=None)))
B='bitcoin-cash/src/'; BB='bitcoin-cash-base/src/'; M='bitcoin-cash-script-macro/src/'
p('C01','Transactions encode to the exact Bitcoin wire format and decode back',
 'Encoding a transaction always yields exactly the Bitcoin wire bytes: version, input count, each input (previous hash, output index, length-prefixed script, sequence), output count, each output (value, length-prefixed script) and lock time, all little-endian with shortest compact sizes. Decoding those bytes consumes all of them and yields a transaction whose version, inputs (outpoint, script, sequence), outputs and lock time equal the original.',
 ['inputs'],'All transactions: every number of inputs/outputs (including the 252/253 and 65535/65536 count and length boundaries), every script, and every field value.',
 'The tests decode a few fixed mainnet transactions; they never cross the compact-size boundaries for counts, nor vary the fields independently.',
 [B+'tx.rs',B+'bitcoin_code.rs','bitcoin-cash-code/src/lib.rs',BB+'encoding_utils.rs'],['UnhashedTx','TxInput','TxOutput','BitcoinCode::ser','BitcoinCode::deser'],
 observe=['encoded bytes','decoded fields'])
p('C02','Decoding untrusted bytes never panics, over-allocates or misreads',
 'Decoding any byte string as a transaction, input, output, script, preimage, hash, integer, byte string, or list of these either fails with an error or returns a value plus the exact unread suffix of the input; it never panics, aborts, fails to terminate, or allocates memory out of proportion to the input. Every proper prefix of a valid encoding is rejected by the strict decoder, and so is a valid encoding followed by extra bytes.',
 ['inputs'],'All byte strings, in particular every truncation, every single-byte mutation and every huge length prefix of valid encodings.',
 'Tests only decode well-formed data; hostile lengths, truncation and trailing bytes are untested.',
 [B+'bitcoin_code.rs',B+'script.rs',B+'deserializer.rs',BB+'encoding_utils.rs',BB+'byte_array.rs'],['BitcoinCode::deser','BitcoinCode::deser_rest','deserialize_ops','decode_bitcoin_code_all','read_var_int'],
 observe=['return value','panics','allocator'])
p('C03','Integers, booleans, compact sizes and item lists round-trip exactly',
 'Every fixed-width integer and boolean encodes to its exact little-endian bytes and decodes back to itself; every 64-bit number has exactly one compact-size encoding, the shortest one, and decodes back to itself. A byte string or a list of items is encoded as its compact-size count followed by its contents, and a concatenation of encoded items (including none at all) decodes back to exactly those items.',
 ['inputs'],'All integers of each width, all compact-size magnitudes, all lists of items.',
 'Tests check a handful of lengths and one struct of fixed small integers.',
 [B+'bitcoin_code.rs',BB+'encoding_utils.rs',B+'serializer.rs',B+'deserializer.rs'],['encode_var_int','read_var_int','encode_bitcoin_code_all','decode_bitcoin_code_all'])
p('C04','Derived binary codecs encode every field in order and skip only what is marked',
 'For every struct with the derived binary codec, the encoding is the concatenation of the encodings of its non-skipped fields in declaration order, regardless of field names, types, or attributes belonging to other derives. Decoding reads those fields back, sets skipped fields to their default value, and leaves the bytes after the struct untouched.',
 ['programs','inputs'],'All struct declarations (number, order, types and names of fields, placement of skip markers and of foreign attributes) and all field values.',
 'The derive tests compile a few fixed structs; they do not vary field names, skip placement or foreign attributes.',
 ['bitcoin-cash-code/src/lib.rs'],['derive(BitcoinCode)'],observe=['generated code behaviour','compile errors'])
p('C05','Script serialization is canonical and preserves what each operation does',
 'Serializing a script emits every opcode as its byte and every pushed integer, boolean or minimal byte string in the unique minimal push form the consensus rules demand, and non-minimal pushes as a plain length-prefixed push; the pushed data is always exactly the data of the operation. Parsing the serialization back yields an operation sequence that pushes the same bytes and executes the same opcodes in the same order, and serializes to the same bytes again.',
 ['inputs'],'All operation sequences: every opcode byte, every integer, every push length across the 75/76, 255/256, 65535/65536 boundaries, both minimality settings.',
 'Tests cover a few pushes; the boundary lengths, the special one-byte values and sequences mixing them are not enumerated.',
 [B+'script.rs',BB+'op.rs',BB+'encoding_utils.rs'],['serialize_op','serialize_ops','Script::ser_ops','Script::deser_ops'])
p('C06','Both script parsers agree and re-serialize to the original bytes',
 'The two script parsers (over raw slices and over tracked byte arrays) accept the same byte strings and return the same operations with the same minimality marks. Parsing any byte string as a script either fails because a push is cut short, or yields operations that serialize back to exactly the same bytes.',
 ['inputs'],'All byte strings, including unknown opcodes, empty scripts, truncated pushes and every push prefix.',
 'Tests parse a few well-formed scripts with one parser.',
 [B+'script.rs'],['deserialize_ops','deserialize_ops_byte_array','serialize_ops'])
p('C07','Script numbers encode minimally and decode to the exact value or an error',
 'Every script integer encodes to its unique minimal little-endian sign-magnitude form and decodes back to itself. Decoding any byte string as a number yields exactly the value it denotes under sign-magnitude little-endian, or an error when that value is outside the script integer range; it never yields a different value, and every string of at most four bytes decodes. Trimming a byte string to minimal form preserves its value, gives the minimal form, and is idempotent; fixed-width conversion yields exactly the requested width and value or an error when it does not fit.',
 ['inputs'],'All 2^32-1 script integers; all byte strings read as numbers; all widths.',
 'Tests check a handful of values.',
 [BB+'encoding_utils.rs',BB+'byte_array.rs',BB+'op.rs'],['encode_int','vec_to_int','encode_minimally','Op::to_integer','ByteArray::from_int'])
p('C08','Script integer arithmetic is exact or reports an error, never wraps',
 'Addition, subtraction, multiplication, division, remainder, negation, bitwise and right-shift operations (shifting by 32 or more being an error), comparisons and conversions on script integers yield the mathematically exact result (division truncating toward zero; the left shift alone keeps the low 32 bits in two\'s complement, as its tests document) when it lies within plus or minus (2^31 - 1), and an error otherwise (including division by zero). Once a chained computation has failed, every further result stays failed and compares equal to nothing; no operation panics or silently produces a value outside the range.',
 ['inputs','histories'],'All operand pairs and operation sequences, across all mixed operand types.',
 'Tests check a few operand pairs per operator; none chains operators or crosses all boundaries.',
 [BB+'integer.rs'],['Integer','UInteger','IntegerResult'])
p('C09','Tracked byte arrays keep data and provenance consistent under any edits',
 'Concatenating tracked byte arrays yields the concatenation of their bytes and records the parts of both operands, and splitting one at any index yields exactly the two halves, whatever was done to them before. Whenever a plain array records the parts it is made of, those parts concatenate to exactly its bytes, and an array recorded as the result of a function is never relabelled as a plain concatenation or keeps an input that does not produce its bytes (what is cut from a hash or a reversed array is marked as such); names and provenance never affect equality or hashing.',
 ['histories'],'All sequences of create, name, concatenate, split, hash, sign-mark and number-conversion operations.',
 'Tests do a few fixed concatenations and two splits.',
 [BB+'byte_array.rs'],['ByteArray::concat','ByteArray::split','ByteArray::apply_function','ByteArray::from_parts'],
 state=[dict(name='preimage',meaning='recorded parts or function input',where=BB+'byte_array.rs')])
p('C10','CashAddr encoding and decoding are exact inverses',
 'Encoding any lower-case letter prefix, address type and 20-byte hash yields exactly the CashAddr string of the specification, and decoding it gives back the same prefix, type and hash; the default prefix is assumed when none is written. Changing the prefix, converting to an owned copy, and deriving an address from a public key or redeem script keep type and hash exact (the hash being the Hash160 of the key or serialized script).',
 ['inputs'],'All prefixes, types and hashes.',
 'Tests use the all-zero hash with three prefixes.',
 [B+'address.rs'],['Address::from_hash','Address::from_cash_addr','Address::with_prefix','Address::from_pk','Address::from_redeem_script'])
p('C11','Corrupted or malformed addresses are rejected with an error, never a panic',
 'Decoding an address string never panics, and accepts it only if the checksum is valid for its prefix, the type is a known one, the payload carries exactly a 20-byte hash and the padding bits are zero. In particular any address in which up to three characters were substituted (letter case aside), or whose prefix was swapped for another, is rejected, and every accepted string is (up to letter case and an omitted default prefix) the canonical encoding of the decoded address.',
 ['inputs'],'All strings; in particular all one-, two- and three-character substitutions, every payload length and every version byte with a valid checksum.',
 'There is no negative address test.',
 [B+'address.rs'],['Address::from_cash_addr','Deserialize for Address'])
p('C12','Scripts are classified as exactly the destination they pay to',
 'The locking script built for an address has exactly the standard pay-to-public-key-hash or pay-to-script-hash bytes, and classifying it returns the same address; public-key, data-carrier and public-key-hash spending scripts are likewise recognised. A script is reported as paying to an address only if its bytes are exactly that address\'s locking script; any other script is classified otherwise without panicking.',
 ['inputs'],'All scripts, in particular all one-operation edits of standard scripts and every push length and push encoding of the hash.',
 'There are no tests of script classification.',
 [B+'destination.rs',B+'scripts.rs'],['script_destination','script_p2pkh_spend','Into<Script> for Address'])
p('C13','Signature-hash preimages match the specification for every hash type',
 'For every transaction, input and signature-hash flag byte, the preimage that is signed is exactly the one defined by the Bitcoin Cash (BIP143 with fork id) specification: version, hash of outpoints, hash of sequences, outpoint, script code, value, sequence, hash of outputs, lock time and hash type, with the zero-hash rules of ANYONECANPAY, NONE and SINGLE (including SINGLE without a matching output). Preimages computed from the builder, from the unsigned transaction and from the finished transaction are identical.',
 ['inputs','configurations'],'All transactions, all inputs, all 256 flag bytes and combinations of several flags per input.',
 'Tests check one or two fixed transactions with the default flags.',
 [B+'tx_preimage.rs',B+'tx.rs',B+'tx_builder.rs'],['TxPreimage::build_preimages','SigHashFlags'])
p('C14','The builder conserves value and honours fee rate, bounds and precedence',
 'Building fails exactly when known outputs exceed the inputs (reporting the missing amount); otherwise every known output appears unchanged and in order, outputs never exceed inputs, and change is handed to the change outputs in ascending precedence (insertion order on ties), each strictly above its lower bound, at most its upper bound, and the largest amount that still leaves the fee for the size so far. If any change output was created, the fee paid is at least the fee rate times the estimated size, and the estimated size is never smaller than the final signed transaction when signatures do not exceed their placeholder size.',
 ['inputs','histories'],'All sets of inputs, known outputs and change outputs with all bounds, precedences and fee rates within the money supply.',
 'Tests build a few fixed transactions with one change output.',
 [B+'tx_builder.rs'],['TxBuilder::build','TxBuilder::build_without_estimation','UnsignedTx::estimated_size'])
p('C15','Signing inputs works in any order, once each, and survives suspend/resume',
 'When every signed script is non-empty and depends only on the preimages and outputs, signing the inputs of a transaction gives the same final transaction whatever the order and whichever signing entry point is used, and it never changes anything but the signed input\'s script. Signing an already signed input fails and leaves it untouched, as does signing a re-imported input without giving its signatory; and stopping after any subset of inputs, exporting the partial transaction (also through its JSON form), re-importing it and signing the rest gives the same result as signing directly. Every signatory is given the preimages, outputs, locking script and estimated size of the transaction, and a transaction is never completed while an input is unsigned.',
 ['histories'],'All orders, subsets and interleavings of signing, duplicate signing, exporting and resuming.',
 'Tests sign one or two inputs in order once.',
 [B+'tx_builder.rs',B+'serialize_json.rs'],['UnsignedTx::sign_input','UnsignedTx::sign_input_dyn','UnsignedTx::sign_input_signatory','UnsignedTx::partial_tx','UnsignedTx::complete_tx','TxBuilder::from_tx'],
 state=[dict(name='signed inputs',meaning='per input: unsigned or signed script',where=B+'tx_builder.rs')])
p('C16','A hashed transaction always carries its own bytes and id',
 'For every transaction, the hashed form exposes the same fields, raw bytes equal to its encoding, and an id equal to the double SHA-256 of those bytes, shown byte-reversed in hex. This stays true for a hashed transaction obtained by decoding its own binary encoding, by a serde round trip, or by converting back and hashing again.',
 ['inputs','histories'],'All transactions and all chains of conversions between hashed, unhashed, encoded and serialized forms.',
 'Tests hash a fixed transaction once and never decode a hashed transaction.',
 [B+'tx.rs'],['Tx','UnhashedTx::hashed'])
p('C17','The annotated JSON form of a transaction is lossless, and bad JSON is an error',
 'Converting any transaction to its annotated JSON and back restores every field: numbers, operations with their minimality, byte arrays with names, functions and recorded inputs, source annotations, and all optional spend data (recorded inputs of byte arrays nested at most 1024 deep). Reading JSON that is malformed, refers to missing or cyclic entries, or has invalid values returns an error; it never panics, recurses without bound, or hangs.',
 ['inputs'],'All transactions with all annotations and sharing patterns; all single edits of any index or value in their JSON.',
 'Tests round-trip fixed transactions and never feed invalid JSON.',
 [B+'serialize_json.rs'],['tx_to_json','json_to_tx'])
p('C18','Hash values: right digest, reversible text forms, length checked',
 'Each hash type computes its named digest (SHA-1, RIPEMD-160, SHA-256, double SHA-256, Hash160) for every message and remembers that message as its origin. Forward and reversed hex, byte and serde forms are inverse to each other, display always shows the reversed form, and any input of the wrong length or with invalid hex is rejected with an error and never a panic.',
 ['inputs'],'All messages (every length across the padding boundaries), all hash values, all wrong lengths.',
 'Tests hash only the empty message and one too-short slice.',
 [B+'hash.rs',BB+'byte_array.rs'],['Hashed','Sha256d','Hash160','FixedByteArray'])
p('C19','SLP token outputs are exactly as the SLP specification demands',
 'Every token genesis and send output carries zero value and a data script that an SLP validator parses back to exactly the given token type, ticker, name, document URL and hash, decimals, mint-baton output, token id (in display byte order) and 64-bit big-endian amounts, in order. All fields use the length-prefixed push forms SLP allows, with empty fields as an explicit empty push and never a single-byte opcode push. A transaction annotated with token data turns into exactly the transaction it annotates, also after its records were serialized and read back.',
 ['inputs'],'All genesis parameters (including empty, 75/76 and 255/256-byte strings), all token ids and amount lists, annotated transactions.',
 'There are no tests of the SLP outputs.',
 ['bitcoin-cash-slp/src/lib.rs',B+'script.rs'],['slp_genesis_output','slp_send_output','slp_amount_ops','TokenId','SlpTx'])
p('C20','Signatures verify exactly for the signed message and key, on both backends',
 'For every valid secret key and 32-byte message, signing yields a low-S DER signature of at most 72 bytes that remembers the message it signs and verifies under the derived public key, while it does not verify for an unrelated message or key (ECDSA takes messages modulo the group order), or after any bit of it is changed. Invalid keys, message lengths and signature encodings yield errors, never panics; normalizing a signature is idempotent, keeps it valid and always gives a low S; and the C and Rust backends derive the same keys and accept each other\'s signatures.',
 ['inputs','configurations'],'All keys, messages and tampered signatures; both backends.',
 'The ecc crate has no tests; the other tests use it for one signature each.',
 ['bitcoin-cash-ecc/src/c_ecc.rs','bitcoin-cash-ecc/src/rust_ecc.rs',B+'ecc.rs'],['ECC::sign','ECC::verify','ECC::derive_pubkey','ECC::normalize_sig'])
p('C21','Compiled scripts contain exactly the written operations, in source order',
 'A script function compiles to exactly the operations written in its body in source order - literals and parameters as pushes, every called opcode, and each conditional as OP_IF, then-branch, OP_ELSE (when written), else-branch, OP_ENDIF at any nesting - each carrying the source text of its own statement, and its input struct pushes the inputs in declaration order. Inputs declared for a variant are pushed exactly for the variants that satisfy their condition.',
 ['programs'],'All script function bodies: opcode sequences, constants, parameters, nested conditionals, variants.',
 'Macro tests expand a few fixed scripts, none with a conditional nested in an else branch.',
 [M+'parse.rs',M+'generate.rs',M+'ir.rs',M+'lib.rs'],['#[script]'],observe=['ops of the compiled script','ops of the input struct'])
p('C22','The script compiler accepts a script only if its named stack items line up',
 'If a script function compiles, then executing its operations on a stack holding its declared inputs leaves each named item exactly where the names say: every argument passed to an opcode was the item on top of the stack at that position, and names are bound to what the opcode really produced there. Scripts that pass a wrong, missing, or already consumed item, leave branches with conflicting items, or mismatch declared types are rejected at compile time, and correct scripts are accepted.',
 ['programs'],'All short script bodies over the supported opcodes with all (right and wrong) argument namings.',
 'Compile-fail behaviour has no tests at all; the positive tests are fixed scripts.',
 [M+'generate.rs',M+'state.rs',BB+'opcode.rs'],['#[script]','Opcode::behavior','retains_input'],
 state=[dict(name='variant states',meaning='compile-time model of the named stack',where=M+'state.rs')])
p('C23','The opcode table matches the Bitcoin Cash consensus semantics',
 'Every opcode has its consensus byte value and name and converts to and from both without loss; the described stack effect (inputs consumed, outputs produced, and the permutation for stack-manipulation opcodes) equals what the opcode does under consensus execution. Exactly the consensus-disabled opcodes are marked disabled, and querying any expressible opcode never panics.',
 ['inputs'],'All 256 opcode bytes and, per opcode, all stacks of distinct items deep enough to distinguish effects.',
 'Only doc examples touch individual opcodes.',
 [BB+'opcode.rs'],['Opcode','Opcode::behavior','Opcode::is_disabled','MAP_NAME_TO_ENUM','func'])
p('C24','Script code starts right after the chosen code separator',
 'The script code used for signature hashing is the part of the script after the selected OP_CODESEPARATOR (or the whole script when none is selected or present): the n-th separator when an index is given, and the first for the default. Separators inside pushed data never count, and the operations after the separator are unchanged.',
 ['inputs'],'All scripts and all separator indices.',
 'No test uses a code separator with an index.',
 [B+'script.rs',B+'tx_preimage.rs'],['Script::to_script_code','Script::to_script_code_first'])
p('C25','Serde forms of all public types are lossless and reject invalid values',
 'Serializing any script, byte array, fixed-size array, hash, public key, address, integer, outpoint, input, output or transaction with serde, in a human-readable or a binary format, and deserializing it gives back an equal value (scripts are kept as their serialized bytes, binary addresses as type, hash and prefix). Values that break the type\'s constraints (wrong length, bad hex, out-of-range integer, invalid address) are rejected with an error and never a panic.',
 ['inputs','configurations'],'All values of these types in both kinds of formats; all wrong lengths and invalid characters.',
 'Tests only check one JSON transaction.',
 [BB+'byte_array.rs',B+'script.rs',B+'pubkey.rs',B+'address.rs',BB+'integer.rs',B+'tx.rs'],['Serialize','Deserialize'])
p('C26','Transactions built and signed by the library satisfy the scripts they spend',
 'Building and signing a transaction that spends outputs locked to a key or to a script hash always yields inputs that, executed by consensus rules together with the locking script, succeed; pay-to-script-hash inputs end with a push of exactly the serialized redeem script, and public-key-hash inputs are the signature with its hash-type byte followed by the public key. Altering any value, output, outpoint, sequence or lock time that the chosen hash type commits to makes the spend fail.',
 ['inputs','histories','configurations'],'All mixes of input kinds, keys, signature-hash types, numbers of inputs and outputs.',
 'Tests compare a few fixed transactions byte for byte and never execute scripts.',
 [B+'tx_builder.rs',B+'scripts.rs',B+'tx_preimage.rs',B+'script.rs','bitcoin-cash-ecc/src/c_ecc.rs'],['TxBuilder::add_input','UnsignedTx::sign_input','P2PKHSignatory','Signatory'])
p('C27','Operations and values convert into each other as execution would',
 'Reading a script operation as a number or as bytes, and turning a value (integer, boolean, byte string, hash, public key, transaction preimage) into a push operation, agree with what executing the operation leaves on the stack: the number view is the number denoted by the pushed item or nothing when the operation pushes no such number, and a value is always pushed minimally and unchanged, keeping its name and origin. Operations, scripts and patterns are equal exactly when they are the same kind of operation with the same content, whatever their names, tags and push form, and their text shows opcode names, hexadecimal data and decimal numbers.',
 ['inputs'],'All operations (every opcode byte, booleans, script integers, byte strings in both push forms), all pairs of operations, all convertible values.',
 'No test reads operations back as numbers; equality is only used on fixed scripts.',
 [BB+'op.rs',BB+'data_type.rs',BB+'encoding_utils.rs',B+'script.rs',B+'pubkey.rs',B+'tagged_op.rs',B+'ops.rs'],['Op::to_integer','Op::to_byte_array','BitcoinDataType','PartialEq for Op','StackItemData'])
p('C28','Relative lock times encode to sequence numbers as BIP 68 reads them',
 'Every relative lock time, in blocks or in units of 512 seconds, encodes to the sequence number that BIP 68 reads as exactly that kind and amount with the lock enabled and no other bit set; the builder, the transaction encoding and the signature preimage carry it unchanged, and OP_CHECKSEQUENCEVERIFY with one lock time succeeds in an input with another exactly when both are of the same kind and the input\'s is at least as long.',
 ['inputs'],'All 131072 relative lock times; all pairs of boundary lock times.',
 'No test uses relative lock times.',
 [B+'sequence.rs',B+'tx_builder.rs',B+'tx_preimage.rs'],['CsvTimedelta','CsvTimedelta::sequence'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
import os
if os.path.exists('/root/.vp/PROPERTIES.schema.json'):
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,s)
print(len(P))
