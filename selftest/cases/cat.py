LG='lgensemble_io.go'; LT='lgtree.go'; UT='util/util.go'
def b(n,*e,ids=('C12',)): return dict(name='cat-'+n,edits=list(e),bug=list(ids))
def ok(n,*e): return dict(name='ok-cat-'+n,edits=list(e),ok=True)
def cut(f,a,z):
    s=open('/repo/'+f).read(); s=s[s.index(a):]; return s[:s.index(z)]
TSW=cut(LG,'		if nBits == 0 {\n			return node, fmt.Errorf("no bits set")\n		} else if nBits == 1 {\n			i, err','\n\t\tnode = categoricalNode(splitFeatures')
JSW=cut(LG,'			bitset := util.ConstructBitset(thresholdValues)','\n\t\tnode = categoricalNode(nodeJSON.SplitFeature')
NB=cut(UT,'func NumberOfSetBits','// ConstructBitset return')
FB=cut(UT,'func FirstNonZeroBit','// https://stackoverflow.com/questions/109023')
CB=cut(UT,'func ConstructBitset','func AlmostEqualFloat64(')
TBL=cut(UT,'var multiplyDeBruijnBitPosition','// https://stackoverflow.com/questions/757059')
BITS='import (\n	"math/bits"\n'
cases=[
b('onehot2',(LG,'		} else if nBits == 1 {\n			i, err','		} else if nBits <= 2 {\n			i, err')),
b('small2',(LG,'} else if bitsetSize == 1 {','} else if bitsetSize <= 2 {')),
b('smallflag',(LG,'catIdx = catThresholds[catBoundaries[catIdx]]','catIdx = catThresholds[catBoundaries[catIdx+1]-1]'),(LG,'} else if bitsetSize == 1 {','} else if bitsetSize <= 2 {')),
b('smallfirst',(LG,'catIdx = catThresholds[catBoundaries[catIdx]]','catIdx = catThresholds[catIdx]')),
b('largeidx',(LG,'			catIdx = uint32(len(t.catBoundaries) - 1)\n','			catIdx = uint32(len(t.catBoundaries))\n')),
b('largekeep',(LG,'			catIdx = uint32(len(t.catBoundaries) - 1)\n			t.catThresholds = append(t.catThresholds, thresholdSlice...)','			t.catThresholds = append(t.catThresholds, thresholdSlice...)')),
b('largeall',(LG,'t.catThresholds = append(t.catThresholds, thresholdSlice...)','t.catThresholds = append(t.catThresholds, catThresholds[catBoundaries[catIdx]:]...)')),
b('largeboundary',(LG,'			t.catThresholds = append(t.catThresholds, thresholdSlice...)\n			t.catBoundaries = append(t.catBoundaries, uint32(len(t.catThresholds)))','			t.catBoundaries = append(t.catBoundaries, uint32(len(t.catThresholds)))\n			t.catThresholds = append(t.catThresholds, thresholdSlice...)')),
b('largebytes',(LG,'t.catBoundaries = append(t.catBoundaries, uint32(len(t.catThresholds)))','t.catBoundaries = append(t.catBoundaries, uint32(uint8(len(t.catThresholds))))')),
b('boundsinit',(LG,'t.catBoundaries = make([]uint32, 1)\n','t.catBoundaries = make([]uint32, 2)\n')),
b('nextset',(LG,'thresholdSlice := catThresholds[catBoundaries[catIdx]:catBoundaries[catIdx+1]]','thresholdSlice := catThresholds[catBoundaries[catIdx]:]')),
b('uint8idx',(LG,'catIdx := uint32(thresholds[idx])','catIdx := uint32(uint8(thresholds[idx]))')),
b('float32',(LG,'		} else if nBits == 1 {\n			i, err','		} else if nBits == 1 && bitsetSize == 1 {\n			i, err')) if False else b('both',(LG,'			catType = catOneHot\n','			catType = catOneHot | catSmall\n')),
b('jsononehot',(LG,'} else if nBits == 1 {\n			value, err','} else if nBits <= 2 {\n			value, err')),
b('jsonlast',(LG,'strconv.Atoi(tokens[0])','strconv.Atoi(tokens[len(tokens)-1])'),(LG,'} else if nBits == 1 {\n			value, err','} else if nBits < 3 {\n			value, err')),
b('jsonskip',(LG,'			for i, valueStr := range tokens {\n','			for i, valueStr := range tokens[:len(tokens)-1] {\n')),
b('jsonsep',(LG,'strings.Split(thresholdString, "||")','strings.Split(thresholdString, "|")')),
b('jsonpos',(LG,'				thresholdValues[i] = value\n','				thresholdValues[i/2] = value\n')),
b('jsonsmall',(LG,'if len(bitset) == 1 {','if len(bitset) <= 2 {')),
b('jsonsmall1',(LG,'catIdx = bitset[0]\n','catIdx = bitset[len(bitset)-1]\n'),(LG,'if len(bitset) == 1 {','if len(bitset) < 3 {')),
b('jsonlarge',(LG,'t.catThresholds = append(t.catThresholds, bitset...)','t.catThresholds = append(t.catThresholds, bitset[1:]...)')),
b('jsonflag',(LG,'				catIdx = bitset[0]\n				catType = catSmall\n','				catIdx = bitset[0]\n				catType = catOneHot\n')),
b('popmask',(UT,'e = (e & 0x33333333) + ((e >> 2) & 0x33333333)','e = (e & 0x33333333) + ((e >> 2) & 0x33333331)')),
b('pop24',(UT,'* 0x01010101) >> 24','* 0x00010101) >> 24')),
b('popfirst',(UT,'	for _, e := range bitset {\n		count','	for _, e := range bitset[:1] {\n		count')),
b('table',(UT,'31, 27, 13, 23, 21,','31, 27, 13, 23, 12,')),
b('magic',(UT,'0x077CB531','0x077CB533')),
b('pos31',(UT,'		pos += 32\n','		pos += 31\n')),
b('skipword',(UT,'		if bitsetElement > 0 {\n','		if bitsetElement > 1 {\n')),
b('cbbit',(UT,'bitset[i1] |= 1 << uint32(i2)','bitset[i1] = 1 << uint32(i2)')),
b('cbmod',(UT,'i2 := v % 32','i2 := v % 31')),
b('cblen',(UT,'	max++\n\n','\n')),
b('cbfirst',(UT,'	for _, v := range values {\n		i1','	for _, v := range values[1:] {\n		i1')),
b('cbmax',(UT,'		if v > max {','		if v < max {')),
b('cbxor',(UT,'bitset[i1] |= 1','bitset[i1] ^= 1')),
b('find32',(UT,'	if pos >= 32 {\n		return false','	if pos >= 31 {\n		return false')),
b('catset',(LT,'if int64(node.Threshold)+1 >= int64(len(t.catBoundaries)) {','if int64(node.Threshold)+1 > int64(len(t.catBoundaries)) {'),ids=('C13',)),
b('catset2',(LT,'node.Flags&categorical > 0 && node.Flags&(catOneHot|catSmall) == 0','node.Flags&categorical > 0 && node.Flags&catOneHot == 0 && node.Flags&catSmall > 0'),ids=('C13','C15')),
# equivalent forms
ok('switch',(LG,TSW,'''		switch {
		case nBits == 0:
			return node, fmt.Errorf("no bits set")
		case nBits == 1:
			i, err := util.FirstNonZeroBit(thresholdSlice)
			if err != nil {
				return node, fmt.Errorf("not reached error")
			}
			catIdx, catType = i, catOneHot
		case bitsetSize == 1:
			catIdx, catType = thresholdSlice[0], catSmall
		default:
			catIdx = uint32(len(t.catBoundaries) - 1)
			t.catThresholds = append(t.catThresholds, thresholdSlice...)
			t.catBoundaries = append(t.catBoundaries, uint32(len(t.catThresholds)))
		}
''')),
ok('len1',(LG,'} else if bitsetSize == 1 {','} else if len(thresholdSlice) == 1 {'),(LG,'		bitsetSize := catBoundaries[catIdx+1] - catBoundaries[catIdx]\n','')),
ok('helper',(LG,TSW,'''		if nBits == 0 {
			return node, fmt.Errorf("no bits set")
		} else if nBits == 1 {
			i, err := util.FirstNonZeroBit(thresholdSlice)
			if err != nil {
				return node, fmt.Errorf("not reached error")
			}
			catIdx = i
			catType = catOneHot
		} else if bitsetSize == 1 {
			catIdx = thresholdSlice[0]
			catType = catSmall
		} else {
			catIdx = t.addSet(thresholdSlice)
		}
'''),(LG,JSW,'''			bitset := util.ConstructBitset(thresholdValues)
			if len(bitset) == 1 {
				catIdx = bitset[0]
				catType = catSmall
			} else {
				catIdx = t.addSet(bitset)
			}
		}
'''),(LG,'func unmarshalTree','''func (t *lgTree) addSet(words []uint32) uint32 {
	i := uint32(len(t.catBoundaries) - 1)
	t.catThresholds = append(t.catThresholds, words...)
	t.catBoundaries = append(t.catBoundaries, uint32(len(t.catThresholds)))
	return i
}

func unmarshalTree''')),
ok('after',(LG,'''			catIdx = uint32(len(t.catBoundaries) - 1)
			t.catThresholds = append(t.catThresholds, thresholdSlice...)
			t.catBoundaries = append(t.catBoundaries, uint32(len(t.catThresholds)))
''','''			t.catThresholds = append(t.catThresholds, thresholdSlice...)
			t.catBoundaries = append(t.catBoundaries, uint32(len(t.catThresholds)))
			catIdx = uint32(len(t.catBoundaries) - 2)
''')),
ok('literal',(LG,'t.catBoundaries = make([]uint32, 1)\n','t.catBoundaries = []uint32{0}\n')),
ok('boundsend',(LG,'uint32(len(t.catThresholds)))','t.catBoundaries[len(t.catBoundaries)-1]+uint32(len(thresholdSlice)))')) if False else ok('lohi',(LG,'		bitsetSize := catBoundaries[catIdx+1] - catBoundaries[catIdx]\n		thresholdSlice := catThresholds[catBoundaries[catIdx]:catBoundaries[catIdx+1]]\n','		from, to := catBoundaries[catIdx], catBoundaries[catIdx+1]\n		bitsetSize := to - from\n		thresholdSlice := catThresholds[from:to]\n')),
ok('jsonappend',(LG,'thresholdValues := make([]int, len(tokens))','thresholdValues := make([]int, 0, len(tokens))'),(LG,'for i, valueStr := range tokens {','for _, valueStr := range tokens {'),(LG,'				thresholdValues[i] = value\n','				thresholdValues = append(thresholdValues, value)\n')),
ok('jsonindex',(LG,'for i, valueStr := range tokens {','for i := 0; i < len(tokens); i++ {\n				valueStr := tokens[i]')),
ok('jsonbits',(LG,JSW,'''			bitset := util.ConstructBitset(thresholdValues)
			if len(bitset) != 1 {
				catIdx = uint32(len(t.catBoundaries) - 1)
				t.catThresholds = append(t.catThresholds, bitset...)
				t.catBoundaries = append(t.catBoundaries, uint32(len(t.catThresholds)))
			} else {
				catIdx = bitset[0]
				catType = catSmall
			}
		}
''')),
ok('onescount',(UT,NB,'''func NumberOfSetBits(bitset []uint32) uint32 {
	count := 0
	for _, e := range bitset {
		count += bits.OnesCount32(e)
	}
	return uint32(count)
}

'''),(UT,'import (\n',BITS)),
ok('popfn',(UT,NB,'''func NumberOfSetBits(bitset []uint32) uint32 {
	count := uint32(0)
	for i := 0; i < len(bitset); i++ {
		if bitset[i] == 0 {
			continue
		}
		count += popcount(bitset[i])
	}
	return count
}

func popcount(e uint32) uint32 {
	e -= (e >> 1) & 0x55555555
	e = e&0x33333333 + e>>2&0x33333333
	e = (e + e>>4) & 0x0F0F0F0F
	e += e >> 8
	e += e >> 16
	return e & 0x3f
}

''')),
ok('trailing',(UT,TBL,''),(UT,FB,'''func FirstNonZeroBit(bitset []uint32) (uint32, error) {
	for i, e := range bitset {
		if e != 0 {
			return uint32(i)*32 + uint32(bits.TrailingZeros32(e)), nil
		}
	}
	return 0, fmt.Errorf("no bits set")
}

'''),(UT,'import (\n',BITS)),
ok('firstskip',(UT,FB,'''func FirstNonZeroBit(bitset []uint32) (uint32, error) {
	for i := range bitset {
		word := bitset[i]
		if word == 0 {
			continue
		}
		lowest := word & (^word + 1)
		return uint32(32*i) + multiplyDeBruijnBitPosition[(lowest*0x077CB531)>>27], nil
	}
	return 0, fmt.Errorf("no bits set")
}

''')),
ok('slicetable',(UT,'var multiplyDeBruijnBitPosition = [...]uint32{','var multiplyDeBruijnBitPosition = []uint32{')),
ok('build',(UT,CB,'''func ConstructBitset(values []int) []uint32 {
	if len(values) == 0 {
		return nil
	}
	largest := values[0]
	for _, v := range values[1:] {
		if largest < v {
			largest = v
		}
	}
	words := make([]uint32, largest/32+1)
	for _, v := range values {
		words[v/32] |= uint32(1) << uint(v%32)
	}
	return words
}

''')),
ok('build2',(UT,CB,'''func ConstructBitset(values []int) []uint32 {
	if len(values) == 0 {
		return nil
	}
	largest := 0
	for i := range values {
		if values[i] > largest {
			largest = values[i]
		}
	}
	words := make([]uint32, (largest+32)>>5)
	for i := range values {
		v := uint32(values[i])
		words[v>>5] |= 1 << (v & 31)
	}
	return words
}

''')),
]
