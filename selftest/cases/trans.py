D='transformation/'; U='util/util.go'
LG='''	outputPredictions[startIndex] = util.Sigmoid(rawPredictions[0])
'''
SG='	return 1.0 / (1.0 + math.Exp(-x))'
RAW='''	for i, v := range rawPredictions {
		outputPredictions[startIndex+i] = v
	}
	return nil'''
SM='''	max := math.Inf(-1)
	for _, v := range rawValues {
		if v > max {
			max = v
		}
	}
	sum := 0.0
	for i, v := range rawValues {
		exp := math.Exp(v - max)
		outputValues[startIndex+i] = exp
		sum += exp
	}
	if sum != 0.0 {
		inv_sum := 1.0 / sum
		for i := startIndex; i < startIndex + len(rawValues); i++ {
			outputValues[i] *= inv_sum
		}
	}
'''
def b(n,f,o,w,*ids): return dict(name='trans-'+n,edits=[(f,o,w)],bug=list(ids) or ['C17'])
def ok(n,*e): return dict(name='ok-trans-'+n,edits=list(e),ok=True)
cases=[
ok('raw-copy',(D+'raw.go',RAW,'	copy(outputPredictions[startIndex:], rawPredictions)\n	return nil')),
ok('raw-idx',(D+'raw.go',RAW,'''	n := len(rawPredictions)
	for i := n - 1; i >= 0; i-- {
		outputPredictions[i+startIndex] = rawPredictions[i]
	}
	return nil''')),
ok('raw-sub',(D+'leaf_index.go','''	for i, v := range rawPredictions {
		outputPredictions[startIndex+i] = v
	}''','''	out := outputPredictions[startIndex : startIndex+len(rawPredictions)]
	for i := range out {
		out[i] = rawPredictions[i]
	}''')),
ok('sig-stable',(U,SG,'''	if x >= 0 {
		return 1.0 / (1.0 + math.Exp(-x))
	}
	e := math.Exp(x)
	return e / (1.0 + e)''')),
ok('sig-inline',(D+'logistic.go',LG,LG.replace('util.Sigmoid(rawPredictions[0])','1 / (math.Exp(-rawPredictions[0]) + 1)')),(D+'logistic.go','	"github.com/dmitryikh/leaves/util"\n','	"math"\n')),
ok('sm-helper',(U,SM,'''	max := maxOf(rawValues)
	sum := 0.0
	for i := 0; i < len(rawValues); i++ {
		outputValues[startIndex+i] = math.Exp(rawValues[i] - max)
		sum += outputValues[startIndex+i]
	}
	if sum != 0.0 {
		for i := range rawValues {
			outputValues[startIndex+i] /= sum
		}
	}
'''),(U,'// Float64FromBytes','''func maxOf(v []float64) float64 {
	m := math.Inf(-1)
	for i := range v {
		m = math.Max(m, v[i])
	}
	return m
}

// Float64FromBytes''')),
ok('sm-first',(U,SM,SM.replace('max := math.Inf(-1)\n	for _, v := range rawValues {','if len(rawValues) == 0 {\n\t\treturn\n\t}\n\tmax := rawValues[0]\n	for _, v := range rawValues[1:] {'))),
ok('sm-two',(U,SM,'''	max := math.Inf(-1)
	for _, v := range rawValues {
		if v > max {
			max = v
		}
	}
	sum := 0.0
	for _, v := range rawValues {
		sum += math.Exp(v - max)
	}
	for i, v := range rawValues {
		outputValues[startIndex+i] = math.Exp(v-max) / sum
	}
''')),
ok('sm-buf',(U,SM,'''	max := math.Inf(-1)
	for _, v := range rawValues {
		if max < v {
			max = v
		}
	}
	exps := make([]float64, len(rawValues))
	sum := 0.0
	for i, v := range rawValues {
		exps[i] = math.Exp(v - max)
		sum += exps[i]
	}
	for i, e := range exps {
		outputValues[startIndex+i] = e / sum
	}
''')),
ok('sm-bound',(U,'i < startIndex + len(rawValues)','i-startIndex < len(rawValues)')),
ok('sm-sub',(U,SM,SM.replace('	if sum != 0.0 {','	if sum == 0.0 {\n		return\n	}\n	{'))),
b('no-shift',U,'math.Exp(v - max)','math.Exp(v)'),
b('min',U,'	for _, v := range rawValues {\n		if v > max {','	for _, v := range rawValues {\n		if v < max {'),
b('noshift-norm',U,'i < startIndex + len(rawValues)','i < startIndex + len(rawValues) - 1'),
b('norm0',U,'for i := startIndex; i < startIndex + len(rawValues); i++ {','for i := 0; i < len(rawValues); i++ {'),
b('outlen',U,'for i := startIndex; i < startIndex + len(rawValues); i++ {','for i := startIndex; i < len(outputValues); i++ {'),
b('sum1',U,'	sum := 0.0\n	for i, v','	sum := 1.0\n	for i, v'),
b('sumraw',U,'		sum += exp\n','		sum += v\n'),
b('maxinit',U,'	max := math.Inf(-1)\n','	max := 0.0\n'),
b('sumpos',U,'	if sum != 0.0 {','	if sum > 1.0 {'),
b('sig',U,SG,'	return 1.0 / (1.0 + math.Exp(x))'),
b('sig2',U,SG,'	return math.Exp(x) / (1.0 + math.Exp(x))'),
b('sig3',U,SG,'	if x < -40 {\n		return 0\n	}\n	return 1.0 / (1.0 + math.Exp(-x))'),
b('lg-idx',D+'logistic.go','outputPredictions[startIndex]','outputPredictions[0]'),
b('lg-len',D+'logistic.go','if len(rawPredictions) != 1 {','if len(rawPredictions) < 1 {'),
b('sm-len',D+'softmax.go','if len(rawPredictions) != t.NClasses {','if len(rawPredictions) > t.NClasses {'),
b('exp',D+'exponential.go','math.Exp(rawPredictions[0])','math.Exp2(rawPredictions[0])'),
b('expm1',D+'exponential.go','math.Exp(rawPredictions[0])','math.Exp(-rawPredictions[0])'),
b('exp-write',D+'exponential.go','	if len(rawPredictions) != 1 {\n','	outputPredictions[startIndex] = 0\n	if len(rawPredictions) != 1 {\n'),
b('exp-type',D+'exponential.go','return Exponential\n','return Logistic\n'),
b('exp-name',D+'exponential.go','return Exponential.Name()','return Logistic.Name()'),
b('names',D+'transformation.go','		"softmax",\n		"leaf_index",','		"leaf_index",\n		"softmax",'),
b('last',D+'transformation.go','Last TransformType = 4','Last TransformType = 3'),
b('leaf-1',D+'leaf_index.go','outputPredictions[startIndex+i] = v','outputPredictions[startIndex+i] = v + 1'),
b('raw-len',D+'raw.go','for i, v := range rawPredictions {','for i, v := range rawPredictions[:len(rawPredictions)-1] {'),
b('raw-copy',D+'raw.go',RAW,'	copy(outputPredictions, rawPredictions)\n	return nil'),
b('out2',D+'logistic.go','	return 1\n','	return 2\n'),
]
