import runpy, os
b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py"))
IMP, E, D, C, B, R, ABI = b["IMP"], b["E"], b["D"], b["C"], b["B"], b["R"], b["ABI"]
SEEDS = []
IMP += """type writerFunc func([]byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }
"""


def seed(id, prop, edits, demo, needs, breaks, imp=IMP):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=imp + "\nfunc main() {\n" + demo + "\n}\n", needs=needs, breaks=breaks))


seed("s12-neg", "C12", [(C + "numbers.go", "if len(b) > 0 && b[0]&0x80 > 0 {", "if len(b) > 0 && (b[0]&0xc0 == 0xc0 || b[0] == 0x80) {")], '''
	v := chain.Int128{Lo: 5, Hi: 0x9000000000000000}
	if v.BigInt().Sign() >= 0 {
		fail(v.String())
	}
''', "a negative value below -2^126 other than the lowest", "it prints and converts as a large positive number")
seed("s13-2038", "C13", [(C + "time.go", "	return time.Unix(int64(tps), 0)", "	return time.Unix(int64(int32(tps)), 0)")], '''
	if s := chain.TimePointSec(0x80000000).String(); s != "2038-01-19T03:14:08" {
		fail(s)
	}
''', "a counter of 2^31 or more (after January 2038)", "the instant is in 1901")
seed("s20-wrap", "C20", [(C + "numbers.go", "	if v > math.MaxUint32 {\n		return fmt.Errorf(\"block", "	if v > math.MaxUint32+1 {\n		return fmt.Errorf(\"block")], '''
	v := chain.BlockNum(7)
	if err := v.UnmarshalJSON([]byte("4294967296")); err == nil || v != 7 {
		fail(v, err)
	}
''', "exactly 2^32", "it is accepted as block number 0")
seed("s08-ext", "C08", [(C + "asset.go", "	err := ea.Quantity.MarshalABI(e)\n	if err != nil {\n		return err\n	}\n	return ea.Contract.MarshalABI(e)", "	err := ea.Quantity.MarshalABI(e)\n	if cerr := ea.Contract.MarshalABI(e); cerr != nil {\n		err = cerr\n	} else if ea.Quantity.Value == 0 {\n		err = nil\n	}\n	return err")], '''
	n := 0
	w := writerFunc(func(p []byte) (int, error) {
		n++
		if n == 2 {
			return 0, errors.New("once")
		}
		return len(p), nil
	})
	ea := chain.ExtendedAsset{Quantity: chain.Asset{Value: 0, Symbol: 4}, Contract: 9}
	if err := ea.MarshalABI(chain.NewEncoder(w)); err == nil {
		fail("write error lost")
	}
''', "an empty amount whose symbol cannot be written while the contract can", "success is reported although bytes are missing")
