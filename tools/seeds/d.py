import runpy, os
b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py"))
IMP, E, D, C, B, R, ABI = b["IMP"], b["E"], b["D"], b["C"], b["B"], b["R"], b["ABI"]
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks, imp=IMP):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=imp + "\nfunc main() {\n" + demo + "\n}\n", needs=needs, breaks=breaks))


A = C + "abi.go"
seed("s14-reuse", "C14", [(C + "bytes.go", "\tdata := make([]byte, hex.DecodedLen(len(text)))\n", "\tdata := []byte(*b)\n\tif n := hex.DecodedLen(len(text)); n != len(data) {\n\t\tdata = make([]byte, n)\n\t}\n")], '''
	v := chain.Bytes{1, 2, 3}
	if err := v.UnmarshalText([]byte("aabbcx")); err == nil || !bytes.Equal(v, []byte{1, 2, 3}) {
		fail(v, err)
	}
''', "malformed text of the same length as the value the destination already holds", "a failed parse overwrites the first bytes of the destination")
seed("s17-lower", "C17", [(C + "signature.go", '\tcase "WA":\n\t\tt = WA\n\tdefault:\n\t\treturn nil, fmt.Errorf("unknown signature type', '\tcase "WA", "wa":\n\t\tt = WA\n\tdefault:\n\t\treturn nil, fmt.Errorf("unknown signature type')], '''
	t := []byte(chain.NewSignature(chain.WA, make([]byte, 70)).String())
	t[4], t[5] = 'w', 'a'
	if v, err := chain.NewSignatureString(string(t)); err == nil {
		fail(v)
	}
''', "signature text with the type tag in lower case", "an unknown type tag is accepted")
seed("s17-partial", "C17", [(C + "public_key.go", "\tnew, err := NewPublicKeyFromString(string(text))\n\tif err == nil {\n", "\tnew, err := NewPublicKeyFromString(string(text))\n\tif new != nil {\n")], '''
	k := chain.PublicKey{Type: chain.WA, Data: []byte{1, 2, 3}}
	t := []byte(chain.NewPublicKey(chain.K1, make([]byte, 33)).String())
	t[len(t)-1] ^= 1
	if err := k.UnmarshalText(t); err == nil || k.Type != chain.WA || len(k.Data) != 3 {
		fail(k, err)
	}
''', "text with a wrong checksum, parsed into a key that already has a value", "a failed parse clobbers the destination")
seed("s23-collapse", "C23", [(A, "\t\tt.ref = r.resolve(at.Type)\n", "\t\tt.ref = r.resolve(at.Type)\n\t\tif t.ref.ref != nil && !t.ref.isArray {\n\t\t\tt.ref = t.ref.ref // skip chains of aliases\n\t\t}\n")], '''
	d := chain.Abi{Types: []chain.AbiType{{NewTypeName: "num", Type: "uint8"}, {NewTypeName: "maybe", Type: "num?"}}}
	v, err := d.Decode(bytes.NewReader([]byte{1, 7}), "maybe")
	if err != nil || v != uint8(7) {
		fail(v, err)
	}
''', "an alias of an optional alias", "the optional flag of the middle alias is not read")
seed("s23-order", "C23", [(A, "\tif strings.HasSuffix(baseName, \"$\") {\n\t\tisExtension = true\n\t\tbaseName = baseName[:len(baseName)-1]\n\t}\n\tif strings.HasSuffix(baseName, \"?\") {\n\t\tisOptional = true\n\t\tbaseName = baseName[:len(baseName)-1]\n\t}\n", "\tif strings.HasSuffix(baseName, \"$\") {\n\t\tisExtension = true\n\t\tbaseName = strings.TrimRight(baseName, \"$?\")\n\t} else if strings.HasSuffix(baseName, \"?\") {\n\t\tisOptional = true\n\t\tbaseName = baseName[:len(baseName)-1]\n\t}\n")], '''
	d := chain.Abi{Structs: []chain.AbiStruct{{Name: "s", Fields: []chain.AbiField{{Name: "a", Type: "uint8?$"}}}}}
	v, err := d.Decode(bytes.NewReader([]byte{1, 7}), "s")
	if err != nil || !reflect.DeepEqual(v, map[string]interface{}{"a": uint8(7)}) {
		fail(v, err)
	}
''', "an extension field that is optional as well", "the optional flag is not read or written")
seed("s24-loop", "C24", [(A, "\t\tif seen[cur.name] {\n", "\t\tif cur == rt && len(seen) > 0 {\n")], '''
	d := chain.Abi{Structs: []chain.AbiStruct{{Name: "a", Base: "b"}, {Name: "b", Base: "c"}, {Name: "c", Base: "b"}}}
	v, err := d.Decode(bytes.NewReader(nil), "a")
	if err == nil {
		fail(v)
	}
''', "a struct whose chain of bases runs into a cycle it is not itself part of", "resolving the fields never ends")
seed("s24-lastbase", "C24", [(A, "\tr.types[name] = &t\n", "\tif isArray || isOptional || isExtension {\n\t\tdefer func() { r.types[name] = &t }()\n\t} else {\n\t\tr.types[name] = &t\n\t}\n")], '''
	d := chain.Abi{Types: []chain.AbiType{{NewTypeName: "a", Type: "b[]"}, {NewTypeName: "b", Type: "b[]"}}}
	d.Types[1].Type = "a"
	d.Types[0].Type = "a[]"
	v, err := d.Decode(bytes.NewReader([]byte{0}), "a[]")
	if err != nil {
		fail(v, err)
	}
	d = chain.Abi{Variants: []chain.AbiVariant{{Name: "v", Types: []string{"uint8", "v[]"}}}}
	if v, err = d.Decode(bytes.NewReader([]byte{1, 0}), "v"); err != nil {
		fail(v, err)
	}
	d = chain.Abi{Types: []chain.AbiType{{NewTypeName: "a", Type: "a[]"}}}
	if v, err = d.Decode(bytes.NewReader([]byte{0}), "a[]"); err != nil {
		fail(v, err)
	}
''', "a type that contains a list of itself and is first named with a modifier", "resolving the name recurses without end")
